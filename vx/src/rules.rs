//! A small term rewriting engine on syn expressions.
//! A rule is `pattern => template`, both Rust expressions in which identifiers
//! starting with two underscores are metavariables.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::*;

pub struct Rule {
    pub pat: Expr,
    pub tmpl: TokenStream,
    pub only: Vec<String>, // functions it is restricted to (empty: all)
    pub text: String,
}

pub type Binds = BTreeMap<String, TokenStream>;

fn is_meta(s: &str) -> bool {
    s.starts_with("__") && !s.starts_with("__vx") && !s.starts_with("__fresh") && s.len() > 2
}
pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn bind(b: &mut Binds, k: &str, t: TokenStream) -> bool {
    if let Some(o) = b.get(k) {
        return o.to_string() == t.to_string();
    }
    b.insert(k.to_string(), t);
    true
}
pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => strip(x),
            _ => e,
        },
        _ => e,
    }
}
fn meta_of(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            let s = p.path.segments[0].ident.to_string();
            if is_meta(&s) {
                return Some(s);
            }
        }
    }
    None
}
fn args<'a, I: Iterator<Item = &'a Expr>, J: Iterator<Item = &'a Expr>>(p: I, e: J, b: &mut Binds) -> bool {
    let p: Vec<_> = p.collect();
    let e: Vec<_> = e.collect();
    p.len() == e.len() && p.iter().zip(e.iter()).all(|(x, y)| mexpr(x, y, b))
}
pub fn mpat(p: &Pat, e: &Pat, b: &mut Binds) -> bool {
    match (p, e) {
        (Pat::Ident(i), _) if is_meta(&i.ident.to_string()) && i.subpat.is_none() => {
            bind(b, &i.ident.to_string(), e.to_token_stream())
        }
        (Pat::Type(a), Pat::Type(c)) => mpat(&a.pat, &c.pat, b) && ts(&a.ty) == ts(&c.ty),
        (Pat::TupleStruct(a), Pat::TupleStruct(c)) => {
            ts(&a.path) == ts(&c.path)
                && a.elems.len() == c.elems.len()
                && a.elems.iter().zip(c.elems.iter()).all(|(x, y)| mpat(x, y, b))
        }
        (Pat::Tuple(a), Pat::Tuple(c)) => {
            a.elems.len() == c.elems.len() && a.elems.iter().zip(c.elems.iter()).all(|(x, y)| mpat(x, y, b))
        }
        _ => ts(p) == ts(e),
    }
}
fn block_meta(bl: &Block) -> Option<String> {
    if bl.stmts.len() == 1 {
        if let Stmt::Macro(m) = &bl.stmts[0] {
            let s = ts(&m.mac.path);
            if is_meta(&s) {
                return Some(s);
            }
        }
    }
    None
}
fn mblock(p: &Block, e: &Block, b: &mut Binds) -> bool {
    if let Some(m) = block_meta(p) {
        let st = &e.stmts;
        return bind(b, &m, quote!(#(#st)*));
    }
    if p.stmts.len() != e.stmts.len() {
        return false;
    }
    p.stmts.iter().zip(e.stmts.iter()).all(|(x, y)| match (x, y) {
        (Stmt::Expr(x, s), Stmt::Expr(y, t)) => s.is_some() == t.is_some() && mexpr(x, y, b),
        _ => ts(x) == ts(y),
    })
}
pub fn mexpr(p: &Expr, e: &Expr, b: &mut Binds) -> bool {
    if let Some(m) = meta_of(p) {
        return bind(b, &m, strip(e).to_token_stream());
    }
    let p = strip(p);
    if let Some(m) = meta_of(p) {
        return bind(b, &m, strip(e).to_token_stream());
    }
    let e = strip(e);
    match (p, e) {
        (Expr::MethodCall(x), Expr::MethodCall(y)) => {
            let xm = x.method.to_string();
            let mok = if is_meta(&xm) { bind(b, &xm, y.method.to_token_stream()) } else { x.method == y.method };
            mok && (x.turbofish.is_none() || x.turbofish.as_ref().map(ts) == y.turbofish.as_ref().map(ts))
                && mexpr(&x.receiver, &y.receiver, b)
                && args(x.args.iter(), y.args.iter(), b)
        }
        (Expr::Call(x), Expr::Call(y)) => mexpr(&x.func, &y.func, b) && args(x.args.iter(), y.args.iter(), b),
        (Expr::Reference(x), Expr::Reference(y)) => {
            x.mutability.is_some() == y.mutability.is_some() && mexpr(&x.expr, &y.expr, b)
        }
        (Expr::Field(x), Expr::Field(y)) => ts(&x.member) == ts(&y.member) && mexpr(&x.base, &y.base, b),
        (Expr::Index(x), Expr::Index(y)) => mexpr(&x.expr, &y.expr, b) && mexpr(&x.index, &y.index, b),
        (Expr::Unary(x), Expr::Unary(y)) => ts(&x.op) == ts(&y.op) && mexpr(&x.expr, &y.expr, b),
        (Expr::Binary(x), Expr::Binary(y)) => {
            ts(&x.op) == ts(&y.op) && mexpr(&x.left, &y.left, b) && mexpr(&x.right, &y.right, b)
        }
        (Expr::Assign(x), Expr::Assign(y)) => mexpr(&x.left, &y.left, b) && mexpr(&x.right, &y.right, b),
        (Expr::Try(x), Expr::Try(y)) => mexpr(&x.expr, &y.expr, b),
        (Expr::Cast(x), Expr::Cast(y)) => ts(&x.ty) == ts(&y.ty) && mexpr(&x.expr, &y.expr, b),
        (Expr::Tuple(x), Expr::Tuple(y)) => args(x.elems.iter(), y.elems.iter(), b),
        (Expr::Array(x), Expr::Array(y)) => args(x.elems.iter(), y.elems.iter(), b),
        (Expr::Range(x), Expr::Range(y)) => {
            let f = |p: &Option<Box<Expr>>, e: &Option<Box<Expr>>, b: &mut Binds| match (p, e) {
                (None, None) => true,
                (Some(p), Some(e)) => mexpr(p, e, b),
                _ => false,
            };
            ts(&x.limits) == ts(&y.limits) && f(&x.start, &y.start, b) && f(&x.end, &y.end, b)
        }
        (Expr::Closure(x), Expr::Closure(y)) => {
            x.inputs.len() == y.inputs.len()
                && x.inputs.iter().zip(y.inputs.iter()).all(|(p, e)| mpat(p, e, b))
                && mexpr(&x.body, &y.body, b)
        }
        (Expr::ForLoop(x), Expr::ForLoop(y)) => {
            mpat(&x.pat, &y.pat, b) && mexpr(&x.expr, &y.expr, b) && mblock(&x.body, &y.body, b)
        }
        (Expr::While(x), Expr::While(y)) => mexpr(&x.cond, &y.cond, b) && mblock(&x.body, &y.body, b),
        (Expr::Loop(x), Expr::Loop(y)) => mblock(&x.body, &y.body, b),
        (Expr::Let(x), Expr::Let(y)) => mpat(&x.pat, &y.pat, b) && mexpr(&x.expr, &y.expr, b),
        (Expr::Block(x), Expr::Block(y)) => mblock(&x.block, &y.block, b),
        (Expr::Return(x), Expr::Return(y)) => match (&x.expr, &y.expr) {
            (None, None) => true,
            (Some(x), Some(y)) => mexpr(x, y, b),
            _ => false,
        },
        (Expr::If(x), Expr::If(y)) => {
            mexpr(&x.cond, &y.cond, b) && mblock(&x.then_branch, &y.then_branch, b)
                && match (&x.else_branch, &y.else_branch) {
                    (None, None) => true,
                    (Some((_, x)), Some((_, y))) => mexpr(x, y, b),
                    _ => false,
                }
        }
        _ => ts(p) == ts(e),
    }
}
fn atomic(t: &TokenStream) -> bool {
    // something that needs no parentheses when spliced
    match syn::parse2::<Expr>(t.clone()) {
        Ok(e) => matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Paren(_) | Expr::Index(_) | Expr::Block(_) | Expr::Tuple(_) | Expr::Macro(_)),
        Err(_) => true,
    }
}
/// Substitute metavariables in a template
pub fn subst(t: TokenStream, b: &Binds) -> TokenStream {
    let toks: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Ident(id) if b.contains_key(&id.to_string()) => {
                let v = b[&id.to_string()].clone();
                // `__body!()` / `__body!();` splices statements
                if i + 2 < toks.len() && toks[i + 1].to_string() == "!" {
                    out.extend(v);
                    i += 3;
                    if i < toks.len() && toks[i].to_string() == ";" {
                        i += 1;
                    }
                    continue;
                }
                if atomic(&v) {
                    out.extend(v);
                } else {
                    out.extend(quote!((#v)));
                }
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(
                    if g.delimiter() == Delimiter::None { Delimiter::Parenthesis } else { g.delimiter() },
                    subst(g.stream(), b),
                );
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
pub fn apply(r: &Rule, e: &Expr) -> Option<Expr> {
    let mut b = Binds::new();
    if !mexpr(&r.pat, e, &mut b) {
        return None;
    }
    let t = subst(r.tmpl.clone(), &b);
    Some(syn::parse2(t.clone()).unwrap_or_else(|er| panic!("rule `{}` produced unparsable `{}`: {er}", r.text, t)))
}
