//! The mechanical passes over one function.
use crate::rules::{self, ts};
use crate::unit::*;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Made {
    pub text: String,
    pub errors: Vec<String>,
    pub binders: Vec<String>,
    pub skeleton: Vec<String>,
    pub callees: Vec<String>,
    pub used: Vec<String>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
}

fn pexpr(t: TokenStream) -> Expr {
    syn::parse2(t.clone()).unwrap_or_else(|e| panic!("cannot parse `{t}`: {e}"))
}
fn pblock(t: TokenStream) -> Block {
    syn::parse2(t.clone()).unwrap_or_else(|e| panic!("cannot parse block `{t}`: {e}"))
}

// ---------------------------------------------------------------- attributes
struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
}

// ------------------------------------------------------------ nested macros
struct InlineMacros(BTreeMap<String, TokenStream>);
impl VisitMut for InlineMacros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(b) = m.mac.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *e = pexpr(quote!((#b)));
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn nested_macros(b: &mut Block) -> BTreeMap<String, TokenStream> {
    let mut m = BTreeMap::new();
    b.stmts.retain(|s| {
        let (id, mac) = match s {
            Stmt::Item(Item::Macro(i)) => (i.ident.clone(), &i.mac),
            _ => return true,
        };
        if let (true, Some(id)) = (mac.path.is_ident("macro_rules"), id) {
            let t: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
            // () => { body }
            if t.len() >= 4 && t[0].to_string().replace(' ', "") == "()" {
                if let TokenTree::Group(g) = &t[3] {
                    m.insert(id.to_string(), g.stream());
                    return false;
                }
            }
            panic!("nested macro {id} not supported");
        }
        true
    });
    m
}

// -------------------------------------------------- return / ? elimination
fn has_ret(t: &TokenStream) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    if let Ok(b) = syn::parse2::<Block>(quote!({#t})) {
        v.visit_block(&b);
    }
    v.0
}
fn blk(st: &[Stmt]) -> Block {
    pblock(quote!({#(#st)*}))
}
/// Turn early returns into nesting. None when a return sits where that is impossible.
pub fn elim_returns(b: &Block) -> Option<Block> {
    if !has_ret(&b.to_token_stream()) {
        return Some(b.clone());
    }
    let st = &b.stmts;
    for (i, s) in st.iter().enumerate() {
        if !has_ret(&s.to_token_stream()) {
            continue;
        }
        let pre = &st[..i];
        let rest = &st[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let v = r.expr.as_ref().map(|e| e.to_token_stream()).unwrap_or_default();
                return elim_returns(&pblock(quote!({#(#pre)* #v}))).filter(|b| !has_ret(&b.to_token_stream()));
            }
            Stmt::Expr(Expr::If(f), semi) => {
                let c = &f.cond;
                if has_ret(&c.to_token_stream()) {
                    return None;
                }
                let t = branch(&f.then_branch.stmts, rest, semi.is_some())?;
                let e = match &f.else_branch {
                    None => branch(&[], rest, true)?,
                    Some((_, e)) => match &**e {
                        Expr::Block(x) => branch(&x.block.stmts, rest, semi.is_some())?,
                        e => branch(&[Stmt::Expr(e.clone(), None)], rest, semi.is_some())?,
                    },
                };
                return Some(pblock(quote!({#(#pre)* if #c #t else #e})));
            }
            Stmt::Expr(Expr::Match(m), semi) => {
                let c = &m.expr;
                if has_ret(&c.to_token_stream()) {
                    return None;
                }
                let mut arms = vec![];
                for a in &m.arms {
                    let p = &a.pat;
                    let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                    let bd = branch(&[Stmt::Expr((*a.body).clone(), None)], rest, semi.is_some() || !rest.is_empty())?;
                    arms.push(quote!(#p #g => #bd,));
                }
                return Some(pblock(quote!({#(#pre)* match #c {#(#arms)*}})));
            }
            Stmt::Expr(Expr::Block(x), _) => {
                if x.label.is_some() {
                    return None;
                }
                let bd = branch(&x.block.stmts, rest, true)?;
                return Some(pblock(quote!({#(#pre)* #bd})));
            }
            Stmt::Local(l) => {
                let Some(init) = &l.init else { return None };
                let p = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    let e = &init.expr;
                    if has_ret(&e.to_token_stream()) {
                        return None;
                    }
                    let d = elim_returns(&blk(&[Stmt::Expr((**d).clone(), None)]))?;
                    let r = elim_returns(&blk(rest))?;
                    return Some(pblock(quote!({#(#pre)* match #e { #p => #r, _ => #d }})));
                }
                if let Expr::Match(m) = &*init.expr {
                    let c = &m.expr;
                    if has_ret(&c.to_token_stream()) {
                        return None;
                    }
                    let mut arms = vec![];
                    for a in &m.arms {
                        let ap = &a.pat;
                        let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                        let bd = &a.body;
                        let bd = if has_ret(&bd.to_token_stream()) {
                            elim_returns(&blk(&[Stmt::Expr((**bd).clone(), None)]))?
                        } else {
                            elim_returns(&pblock(quote!({ let #p = #bd; #(#rest)* })))?
                        };
                        arms.push(quote!(#ap #g => #bd,));
                    }
                    return Some(pblock(quote!({#(#pre)* match #c {#(#arms)*}})));
                }
                return None;
            }
            _ => return None,
        }
    }
    None
}
fn branch(st: &[Stmt], rest: &[Stmt], _semi: bool) -> Option<Block> {
    // st then rest; if st always returns, rest is dropped
    let b = blk(st);
    if diverges(&b) {
        return elim_returns(&b);
    }
    if rest.is_empty() {
        return elim_returns(&b);
    }
    let mut st = st.to_vec();
    if let Some(Stmt::Expr(_, s)) = st.last_mut() {
        *s = Some(Default::default());
    }
    elim_returns(&pblock(quote!({#(#st)* #(#rest)*})))
}
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => ediv(e),
        _ => false,
    }
}
fn ediv(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Call(c) if ts(&c.func) == FAIL => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(f) => {
            diverges(&f.then_branch)
                && match &f.else_branch {
                    Some((_, e)) => ediv(e),
                    None => false,
                }
        }
        Expr::Match(m) => m.arms.iter().all(|a| ediv(&a.body)),
        _ => false,
    }
}

// --------------------------------------------------------------- ? operator
struct Quest {
    option: bool,
    n: usize,
}
impl VisitMut for Quest {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            let v = format_ident!("vx_q{}", self.n);
            self.n += 1;
            *e = if self.option {
                pexpr(quote!(match #x { Some(#v) => #v, None => { return None; } }))
            } else {
                pexpr(quote!(match #x { Ok(#v) => #v, Err(vx_err) => { return Err(vx_err); } }))
            };
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn is_option(r: &ReturnType) -> bool {
    match r {
        ReturnType::Type(_, t) => ty_name(t) == "Option",
        _ => false,
    }
}
fn quest(b: &mut Block, r: &ReturnType) {
    Quest { option: is_option(r), n: 0 }.visit_block_mut(b)
}

// ------------------------------------------------------------- substitution
struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(r) = self.0.get(&i.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = subst_tokens(m.tokens.clone(), self.0);
    }
}
fn subst_tokens(t: TokenStream, m: &BTreeMap<String, Expr>) -> TokenStream {
    let mut prev_dot = false;
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if !prev_dot && m.contains_key(&i.to_string()) => m[&i.to_string()].to_token_stream(),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), subst_tokens(g.stream(), m))).into(),
            t => {
                prev_dot = t.to_string() == ".";
                t.into()
            }
        })
        .collect()
}
fn simple(e: &Expr) -> bool {
    match rules::strip(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        _ => false,
    }
}
fn pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

/// `helper(..)?` stands for the body of the helper whose failures are failures of the caller
const FAIL: &str = "__vx_return_err";
struct FailMark;
impl VisitMut for FailMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = pexpr(quote!(__vx_try(#x)));
            return;
        }
        if let Expr::Return(r) = e {
            if let Some(Expr::Call(c)) = r.expr.as_deref() {
                if ts(&c.func) == "Err" {
                    let a = &c.args;
                    *e = pexpr(quote!(__vx_return_err(#a)));
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
struct FailUnmark;
impl VisitMut for FailUnmark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if ts(&c.func) == FAIL {
                let a = &c.args;
                *e = pexpr(quote!(return Err(#a)));
            } else if ts(&c.func) == "__vx_try" {
                let a = &c.args[0];
                *e = pexpr(quote!(#a?));
            }
        }
    }
}
fn tails(b: &mut Block, f: &mut dyn FnMut(&mut Expr)) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        etails(e, f);
    }
}
fn etails(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    match e {
        Expr::Block(x) if x.label.is_none() => tails(&mut x.block, f),
        Expr::If(i) if i.else_branch.is_some() => {
            tails(&mut i.then_branch, f);
            etails(&mut i.else_branch.as_mut().unwrap().1, f);
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| etails(&mut a.body, f)),
        Expr::Return(_) => {}
        _ => f(e),
    }
}
fn unwrapped(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    FailMark.visit_block_mut(&mut b);
    let mut b = elim_returns(&b)?;
    tails(&mut b, &mut |e| {
        if let Expr::Call(c) = &*e {
            let n = ts(&c.func);
            let a = &c.args;
            if n == "Ok" {
                *e = pexpr(quote!(#a));
                return;
            }
            if n == "Err" {
                *e = pexpr(quote!(return Err(#a)));
                return;
            }
            if n == FAIL {
                return;
            }
        }
        let x = e.clone();
        *e = pexpr(quote!(#x?));
    });
    FailUnmark.visit_block_mut(&mut b);
    Some(b)
}
fn err_type(r: &ReturnType) -> Option<String> {
    let ReturnType::Type(_, t) = r else { return None };
    let Type::Path(p) = &**t else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "Result" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    Some(a.args.iter().nth(1).map(|x| ts(x)).unwrap_or_default())
}

// ------------------------------------------------------------------ inliner
struct Inliner<'a> {
    nested: BTreeMap<String, ItemFn>,
    closures: BTreeMap<String, ExprClosure>,
    cands: &'a [(String, Found)],
    self_name: String,
    /// parameters and the names of their types
    typed: BTreeMap<String, String>,
    contracted: &'a BTreeSet<String>,
    noinline: &'a BTreeSet<String>,
    me: String,
    /// return type
    ret: ReturnType,
    depth: usize,
    inlined: Vec<String>,
    errors: Vec<String>,
}
fn free_idents(e: &Expr) -> BTreeSet<String> {
    fn go(t: TokenStream, o: &mut BTreeSet<String>) {
        for x in t {
            match x {
                TokenTree::Ident(i) => {
                    o.insert(i.to_string());
                }
                TokenTree::Group(g) => go(g.stream(), o),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    go(e.to_token_stream(), &mut o);
    o
}
fn ref_of(a: &Expr, i: &Ident) -> bool {
    matches!(rules::strip(a), Expr::Reference(r) if r.mutability.is_none() && ts(&r.expr) == i.to_string())
}
fn binds(b: &Block, i: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool);
    impl<'b> Visit<'b> for V<'_> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.1 |= p.ident == *self.0;
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            // patterns in matches!(..)
            self.1 |= m.path.is_ident("matches") && m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| *self.0 == w).count() > 1;
        }
    }
    let mut v = V(i, false);
    v.visit_block(b);
    v.1
}
/// `(&x).m()` is `x.m()`, `*(&x)` is `x`
struct PlainRecv;
impl VisitMut for PlainRecv {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        fn plain(e: &Expr) -> Option<Expr> {
            match e {
                Expr::Paren(p) => match &*p.expr {
                    Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Path(_)) => Some((*r.expr).clone()),
                    _ => None,
                },
                _ => None,
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                if let Some(x) = plain(&m.receiver) {
                    *m.receiver = x;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(x) = plain(&u.expr) {
                    *e = x;
                }
            }
            _ => {}
        }
    }
}
/// `body` with parameters bound to arguments, as a block expression
fn beta(params: &[(Pat, Option<Type>)], args: &[Expr], body: &Block, subst_self: Option<Expr>, force: &BTreeSet<String>) -> Expr {
    let mut m = BTreeMap::new();
    let mut lets = vec![];
    let mut names: BTreeSet<String> = BTreeSet::new();
    if let Some(s) = subst_self {
        if ts(&s) != "self" {
            m.insert("self".to_string(), s);
        }
    }
    for (k, ((p, t), a)) in params.iter().zip(args).enumerate() {
        match pat_ident(p) {
            Some(i) if force.contains(&i.to_string()) => {
                m.insert(i.to_string(), rules::strip(a).clone());
            }
            // f(&x) for fn f(x: &T): x in the body means &x
            Some(i) if ref_of(a, &i) && !binds(body, &i) => {
                m.insert(i.to_string(), pexpr(quote!((&#i))));
            }
            id => {
                let conflict = args[k + 1..].iter().any(|a| {
                    let f = free_idents(a);
                    id.as_ref().map(|i| f.contains(&i.to_string())).unwrap_or(true) && !simple(a)
                });
                if conflict && id.is_none() {
                    panic!("cannot inline: pattern parameter");
                }
                let same = id.as_ref().map(|i| i.to_string() == ts(a)).unwrap_or(false);
                if !same {
                    let _ = &names;
                    let ty = t.as_ref().filter(|t| !ts(*t).contains("impl ") && !ts(*t).contains('\'')).map(|t| quote!(: #t));
                    lets.push(quote!(let #p #ty = #a;));
                }
                if let Some(i) = id {
                    names.insert(i.to_string());
                }
            }
        }
    }
    let mut b = body.clone();
    Subst(&m).visit_block_mut(&mut b);
    PlainRecv.visit_block_mut(&mut b);
    let st = &b.stmts;
    pexpr(quote!({#(#lets)* #(#st)*}))
}
impl Inliner<'_> {
    fn fn_params(sig: &Signature) -> Vec<(Pat, Option<Type>)> {
        sig.inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(((*t.pat).clone(), Some((*t.ty).clone()))),
                _ => None,
            })
            .collect()
    }
    fn prep(&mut self, name: &str, sig: &Signature, block: &Block) -> Option<Block> {
        let mut b = block.clone();
        StripAttrs.visit_block_mut(&mut b);
        quest(&mut b, &sig.output);
        match elim_returns(&b) {
            Some(b) => Some(b),
            None => {
                self.errors.push(format!("uncontracted helper {name} has an early return that cannot be inlined"));
                None
            }
        }
    }
    fn find(&self, name: &str, recv: &Option<Expr>) -> Option<(Signature, Block)> {
        Some(if let (Some(f), None) = (self.nested.get(name), recv) {
            (f.sig.clone(), (*f.block).clone())
        } else {
            if self.contracted.contains(name) || self.noinline.contains(name) || name == self.me {
                return None;
            }
            let key = match recv {
                Some(r) => format!("{}::{}", self.typed.get(&ts(r)).unwrap_or(&self.self_name), name),
                None => name.to_string(),
            };
            let f = self.cands.iter().find(|(n, _)| *n == key)?;
            (f.1.sig.clone(), f.1.block.clone())
        })
    }
    fn call(&mut self, name: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let (sig, block) = self.find(name, &recv)?;
        if self.depth > 6 {
            self.errors.push(format!("helper {name}: inlining too deep"));
            return None;
        }
        let block = self.prep(name, &sig, &block)?;
        self.put(name, sig, block, recv, args)
    }
    /// the call of a helper: name, receiver, arguments
    fn callee(&self, e: &Expr) -> Option<(String, Option<Expr>, Vec<Expr>)> {
        match rules::strip(e) {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() == 1 => {
                    Some((p.path.segments[0].ident.to_string(), None, c.args.iter().cloned().collect()))
                }
                _ => None,
            },
            Expr::MethodCall(m) if ts(&m.receiver) == "self" || self.typed.contains_key(&ts(&m.receiver)) => {
                Some((m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    /// `helper(..)?` where the helper fails with the error type of the function
    fn call_try(&mut self, e: &Expr) -> Option<Expr> {
        let (name, recv, args) = self.callee(e)?;
        if self.depth > 6 || self.closures.contains_key(&name) {
            return None;
        }
        let (sig, block) = self.find(&name, &recv)?;
        let (a, b) = (err_type(&sig.output)?, err_type(&self.ret)?);
        if a != b {
            return None;
        }
        let mut block = block;
        StripAttrs.visit_block_mut(&mut block);
        let block = unwrapped(&block)?;
        self.put(&name, sig, block, recv, args)
    }
    /// the value of a helper that is the value of the function
    fn call_tail(&mut self, e: &Expr) -> Option<Expr> {
        let (name, recv, args) = self.callee(e)?;
        if self.depth > 6 || self.closures.contains_key(&name) {
            return None;
        }
        let (sig, block) = self.find(&name, &recv)?;
        if ts(&sig.output) != ts(&self.ret) || !matches!(sig.output, ReturnType::Type(..)) {
            return None;
        }
        let mut block = block;
        StripAttrs.visit_block_mut(&mut block);
        // only where nesting cannot do it
        let mut q = block.clone();
        quest(&mut q, &sig.output);
        if !has_ret(&q.to_token_stream()) {
            return None;
        }
        self.put(&name, sig, block, recv, args)
    }
    fn put(&mut self, name: &str, sig: Signature, block: Block, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let params = Self::fn_params(&sig);
        if params.len() != args.len() {
            return None;
        }
        // closure-typed parameters and receivers are substituted, not bound
        let mut force = BTreeSet::new();
        let mut saved = vec![];
        for ((p, _), a) in params.iter().zip(&args) {
            if let (Some(i), Expr::Closure(c)) = (pat_ident(p), rules::strip(a)) {
                saved.push((i.to_string(), self.closures.insert(i.to_string(), c.clone())));
                force.insert(i.to_string());
            } else if let (Some(i), "self") = (pat_ident(p), ts(rules::strip(a)).as_str()) {
                force.insert(i.to_string());
            }
        }
        // const generics of nested functions keep their names (GREEDY); the closure parameter is
        // inlined while visiting the body
        let keep: Vec<(Pat, Option<Type>)> = params.clone();
        let mut m = force.clone();
        for (n, _) in &saved {
            m.remove(n);
        }
        let (kp, ka): (Vec<_>, Vec<_>) = keep
            .into_iter()
            .zip(args)
            .filter(|((p, _), _)| pat_ident(p).map(|i| !saved.iter().any(|(n, _)| i == n)).unwrap_or(true))
            .unzip();
        let mut e = beta(&kp, &ka, &block, recv, &m);
        self.inlined.push(name.to_string());
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        for (n, o) in saved {
            match o {
                Some(c) => self.closures.insert(n, c),
                None => self.closures.remove(&n),
            };
        }
        Some(e)
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a nested function passed by name
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                let Expr::Path(p) = &*a else { continue };
                let Some(id) = p.path.get_ident() else { continue };
                let Some(f) = self.nested.get(&id.to_string()) else { continue };
                let ps: Vec<Ident> = (0..f.sig.inputs.len()).map(|k| format_ident!("vx_e{}", k)).collect();
                *a = pexpr(quote!(|#(#ps),*| #id(#(#ps),*)));
            }
        }
        if let Expr::Try(t) = e {
            let x = (*t.expr).clone();
            if let Some(r) = self.call_try(&x) {
                *e = r;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() == 1 {
                        if let Some(cl) = self.closures.get(&segs[0]).cloned() {
                            let params: Vec<(Pat, Option<Type>)> = cl
                                .inputs
                                .iter()
                                .map(|p| match p {
                                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                                    p => (p.clone(), None),
                                })
                                .collect();
                            let body = match &*cl.body {
                                Expr::Block(b) => b.block.clone(),
                                b => pblock(quote!({#b})),
                            };
                            let Some(body) = elim_returns(&body) else {
                                self.errors.push(format!("closure {} has an early return that cannot be inlined", segs[0]));
                                return;
                            };
                            let mut force = BTreeSet::new();
                            for ((p, _), a) in params.iter().zip(&args) {
                                if let (Some(i), "self") = (pat_ident(p), ts(rules::strip(a)).as_str()) {
                                    force.insert(i.to_string());
                                }
                            }
                            let mut r = beta(&params, &args, &body, None, &force);
                            self.depth += 1;
                            if self.depth < 10 {
                                self.visit_expr_mut(&mut r);
                            }
                            self.depth -= 1;
                            *e = r;
                            return;
                        }
                        if let Some(r) = self.call(&segs[0], None, args) {
                            *e = r;
                        }
                    } else if segs.len() == 2 && (segs[0] == "Self" || segs[0] == self.self_name) {
                        // Self::helper(args): only without receiver
                        let key = format!("{}::{}", self.self_name, segs[1]);
                        if let Some((_, f)) = self.cands.iter().find(|(n, _)| *n == key) {
                            if f.sig.receiver().is_none() && !self.contracted.contains(&segs[1]) && !self.noinline.contains(&segs[1]) {
                                let (sig, block) = (f.sig.clone(), f.block.clone());
                                if let Some(b) = self.prep(&segs[1], &sig, &block) {
                                    self.inlined.push(segs[1].clone());
                                    let mut r = beta(&Self::fn_params(&sig), &args, &b, None, &BTreeSet::new());
                                    self.depth += 1;
                                    if self.depth < 6 {
                                        self.visit_expr_mut(&mut r);
                                    }
                                    self.depth -= 1;
                                    *e = r;
                                }
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if ts(&m.receiver) == "self" || self.typed.contains_key(&ts(&m.receiver)) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let name = m.method.to_string();
                    if let Some(r) = self.call(&name, Some((*m.receiver).clone()), args) {
                        *e = r;
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// --------------------------------------------------------- standard macros
struct StdMacros {
    /// format! gives the text and not only a message
    cat: bool,
}
fn split_comma(t: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![TokenStream::new()];
    for x in t {
        if x.to_string() == "," {
            v.push(TokenStream::new());
        } else {
            v.last_mut().unwrap().extend([x]);
        }
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v
}
/// the text of a format string whose holes are plain
fn pieces(lit: &str, args: &[TokenStream]) -> Option<TokenStream> {
    let mut parts: Vec<TokenStream> = vec![];
    let mut text = String::new();
    let (mut rest, mut pos) = (lit, 0);
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("{{") || rest.starts_with("}}") {
            text.push(c);
            rest = &rest[2..];
        } else if c == '{' {
            let j = rest.find('}')?;
            let n = &rest[1..j];
            if n.contains(':') || n.starts_with(|c: char| c.is_ascii_digit()) {
                return None;
            }
            if !text.is_empty() {
                let l = std::mem::take(&mut text);
                parts.push(quote!(vx_disp(&#l)));
            }
            if n.is_empty() {
                let x = args.get(pos)?;
                pos += 1;
                parts.push(quote!(vx_disp(&(#x))));
            } else {
                let id = format_ident!("{}", n);
                parts.push(quote!(vx_disp(&(#id))));
            }
            rest = &rest[j + 1..];
        } else {
            text.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    if !text.is_empty() {
        parts.push(quote!(vx_disp(&#text)));
    }
    let mut it = parts.into_iter();
    let first = it.next().unwrap_or(quote!(vx_disp(&"")));
    Some(it.fold(first, |x, y| quote!(vx_cat(#x, #y))))
}
impl VisitMut for StdMacros {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if !n.starts_with("__") {
                let mac = m.mac.clone();
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            let t = m.mac.tokens.clone();
            let new = match n.as_str() {
                "matches" => {
                    let a = split_comma(t);
                    let x = &a[0];
                    let p = &a[1..];
                    Some(quote!((match #x { #(#p),* => true, _ => false })))
                }
                "assert" | "debug_assert" => {
                    let c = &split_comma(t)[0];
                    Some(quote!(if !(#c) { vx_fail(); }))
                }
                "assert_eq" | "debug_assert_eq" => {
                    let a = split_comma(t);
                    let (x, y) = (&a[0], &a[1]);
                    Some(quote!(if !(#x == #y) { vx_fail(); }))
                }
                "vec" if !t.is_empty() && !t.to_string().contains(';') => {
                    let a: Vec<TokenStream> = split_comma(t).into_iter().filter(|x| !x.is_empty()).collect();
                    Some(quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#a);)* vx_v }))
                }
                "unreachable" | "panic" | "todo" | "unimplemented" => Some(quote!(vx_panic())),
                "write" => {
                    // the pieces are put together, then written
                    let a = split_comma(t);
                    let f = &a[0];
                    let lit: LitStr = syn::parse2(a[1].clone()).unwrap();
                    let Some(all) = pieces(&lit.value(), &a[2..]) else { panic!("write! with {:?} is not supported", lit.value()) };
                    Some(quote!(#f.write_str(#all.as_str())))
                }
                "format" if self.cat && syn::parse2::<LitStr>(split_comma(t.clone())[0].clone()).is_ok_and(|l| pieces(&l.value(), &split_comma(t.clone())[1..]).is_some()) => {
                    let a = split_comma(t);
                    let lit: LitStr = syn::parse2(a[0].clone()).unwrap();
                    pieces(&lit.value(), &a[1..])
                }
                "format_args" => {
                    let a = split_comma(t);
                    let lit = syn::parse2::<LitStr>(a[0].clone());
                    if a.len() == 2 && lit.is_ok_and(|l| l.value() == "{}") {
                        let x = &a[1];
                        Some(quote!(vx_args(#x)))
                    } else {
                        None
                    }
                }
                "format" => {
                    let a = split_comma(t);
                    let mut toks: Vec<TokenStream> = a.iter().skip(1).cloned().collect();
                    let lit = a[0].to_string();
                    let lit = lit.trim_matches('"').to_string();
                    // inline {name} arguments
                    let mut rest = lit.as_str();
                    let mut shape = String::new();
                    let mut pos = 0;
                    let mut ordered = vec![];
                    while let Some(i) = rest.find('{') {
                        if rest[i..].starts_with("{{") {
                            shape.push_str(&rest[..i + 2]);
                            rest = &rest[i + 2..];
                            continue;
                        }
                        let j = rest[i..].find('}').unwrap() + i;
                        shape.push_str(&rest[..i]);
                        let n = &rest[i + 1..j];
                        let (nm, fl) = n.split_once(':').map(|(a, b)| (a, format!(":{b}"))).unwrap_or((n, String::new()));
                        shape.push_str(&format!("{{{fl}}}"));
                        if nm.is_empty() {
                            ordered.push(toks.get(pos).cloned().unwrap_or_default());
                            pos += 1;
                        } else {
                            let id = format_ident!("{}", nm);
                            ordered.push(quote!(#id));
                        }
                        rest = &rest[j + 1..];
                    }
                    shape.push_str(rest);
                    toks = ordered;
                    Some(quote!(vx_format(#shape, #(#toks),*)))
                }
                _ => None,
            };
            if let Some(t) = new {
                *e = pexpr(t);
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ----------------------------------------------------------------- rules
struct Rules<'a> {
    u: &'a Unit,
    me: String,
    fresh: usize,
    used: Vec<String>,
    budget: usize,
}
fn freshen(t: TokenStream, n: usize) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i.to_string().starts_with("__fresh_") => {
                TokenTree::Ident(Ident::new(&format!("vx_{}{}", &i.to_string()[8..], n), Span::call_site()))
            }
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), freshen(g.stream(), n))),
            t => t,
        })
        .collect()
}
impl VisitMut for Rules<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // whole-expression rules first (top-down), then children, then again
        let mut again = true;
        while again {
            again = false;
            if self.budget == 0 {
                panic!("rewriting does not terminate");
            }
            for r in &self.u.rules {
                if !r.only.is_empty() && !r.only.contains(&self.me) {
                    continue;
                }
                if let Some(n) = rules::apply(r, e) {
                    let t = n.to_token_stream();
                    let has = t.to_string().contains("__fresh_");
                    let n = pexpr(freshen(t, self.fresh));
                    if has {
                        self.fresh += 1;
                    }
                    if ts(&n) == ts(e) {
                        continue;
                    }
                    *e = n;
                    self.used.push(r.text.split_whitespace().collect::<Vec<_>>().join(" "));
                    self.budget -= 1;
                    again = true;
                    break;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let before = ts(e);
        for r in &self.u.rules {
            if !r.only.is_empty() && !r.only.contains(&self.me) {
                continue;
            }
            if let Some(n) = rules::apply(r, e) {
                if ts(&n) != before {
                    self.budget = self.budget.saturating_sub(1);
                    if self.budget == 0 {
                        panic!("rewriting does not terminate");
                    }
                    return self.visit_expr_mut(e);
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ------------------------------------------------ matching on strings
struct Strings;
fn str_lits(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Reference(r) => str_lits(&r.pat),
        Pat::Paren(r) => str_lits(&r.pat),
        Pat::Or(o) => {
            let v: Option<Vec<_>> = o.cases.iter().map(str_lits).collect();
            Some(v?.concat())
        }
        _ => None,
    }
}
fn is_strlit(e: &Expr) -> bool {
    matches!(rules::strip(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
impl VisitMut for Strings {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) if m.arms.iter().any(|a| str_lits(&a.pat).is_some()) => {
                let x = &m.expr;
                let mut chain: Option<TokenStream> = None;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let b = if let Expr::Block(b) = &**b { b.to_token_stream() } else { quote!({ #b }) };
                    let g = a.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
                    match (str_lits(&a.pat), &a.pat, &a.guard) {
                        (Some(l), _, _) => {
                            let el = chain.take().map(|c| quote!(else #c));
                            chain = Some(quote!({ if (#(vx_streq(&vx_m, #l))||*) #g #b #el }));
                        }
                        (None, Pat::Wild(_), None) => chain = Some(b),
                        _ => panic!("match on strings with another pattern"),
                    }
                }
                let c = chain.unwrap();
                *e = pexpr(quote!(match #x { vx_m => #c }));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_strlit(&b.left) || is_strlit(&b.right)) => {
                let (x, l) = if is_strlit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let n = matches!(b.op, BinOp::Ne(_));
                let r = quote!(vx_streq(&#x, #l));
                *e = pexpr(if n { quote!((!#r)) } else { r });
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ------------- pass `chain`: a match on literals with guards as an if-chain
struct Chain(usize);
impl VisitMut for Chain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Match(m) = e else { return };
        if m.arms.iter().all(|a| a.guard.is_none()) {
            return;
        }
        fn lits(p: &Pat) -> Option<Vec<TokenStream>> {
            match p {
                Pat::Lit(l) => Some(vec![l.to_token_stream()]),
                Pat::Paren(p) => lits(&p.pat),
                Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                _ => None,
            }
        }
        let v = Ident::new(&format!("vx_c{}", self.0), proc_macro2::Span::call_site());
        let mut out: Option<TokenStream> = None;
        for a in m.arms.iter().rev() {
            let (bind, test) = match &a.pat {
                Pat::Wild(_) => (quote!(), None),
                Pat::Ident(i) if i.by_ref.is_none() => {
                    let (mu, id) = (&i.mutability, &i.ident);
                    let t = match &i.subpat {
                        Some((_, p)) => match lits(p) {
                            Some(l) => Some(l),
                            None => return,
                        },
                        None => None,
                    };
                    (quote!(let #mu #id = #v;), t)
                }
                p => match lits(p) {
                    Some(l) => (quote!(), Some(l)),
                    None => return,
                },
            };
            let t = test.map(|l| quote!((#(#v == #l)||*)));
            let g = a.guard.as_ref().map(|(_, g)| if bind.is_empty() { quote!((#g)) } else { quote!({ #bind #g }) });
            let c = match (t, g) {
                (Some(t), Some(g)) => Some(quote!(#t && #g)),
                (Some(t), None) => Some(t),
                (None, g) => g,
            };
            let b = &a.body;
            out = Some(match c {
                None => quote!({ #bind #b }),
                Some(c) => {
                    let Some(o) = out else { return };
                    quote!({ if #c { #bind #b } else #o })
                }
            });
        }
        let (Some(o), s) = (out, &m.expr) else { return };
        self.0 += 1;
        *e = pexpr(quote!({ let #v = #s; #o }));
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// --------------------------------- `break value` in a loop that is the tail
struct TailBreak(usize);
impl VisitMut for TailBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.0 += 1;
                visit_mut::visit_expr_mut(self, e);
                self.0 -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Break(b) if self.0 == 0 && b.label.is_none() => {
                if let Some(v) = &b.expr {
                    *e = pexpr(quote!(return #v));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn tail_break(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        TailBreak(0).visit_block_mut(&mut l.body);
    }
}

// ------------------------------------------------------------- while let
/// `a | b if g => e` becomes two arms
struct SplitOr;
/// a pattern without `|`, for each of its alternatives in order
fn pat_cases(p: &Pat) -> Vec<Pat> {
    fn all<'a>(ps: impl Iterator<Item = &'a Pat>) -> Vec<Vec<Pat>> {
        let mut out = vec![vec![]];
        for p in ps {
            let cs = pat_cases(p);
            out = out.into_iter().flat_map(|o: Vec<Pat>| cs.iter().map(move |c| { let mut o = o.clone(); o.push(c.clone()); o })).collect();
        }
        out
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(pat_cases).collect(),
        Pat::Paren(q) => pat_cases(&q.pat),
        Pat::Reference(r) => pat_cases(&r.pat).into_iter().map(|c| { let mut r = r.clone(); *r.pat = c; Pat::Reference(r) }).collect(),
        Pat::TupleStruct(t) => all(t.elems.iter())
            .into_iter()
            .map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::TupleStruct(t) })
            .collect(),
        Pat::Tuple(t) if t.elems.len() > 1 => all(t.elems.iter())
            .into_iter()
            .map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::Tuple(t) })
            .collect(),
        Pat::Ident(i) => match &i.subpat {
            Some((at, q)) => pat_cases(q)
                .into_iter()
                .map(|c| { let mut i = i.clone(); i.subpat = Some((*at, Box::new(c))); Pat::Ident(i) })
                .collect(),
            None => vec![p.clone()],
        },
        _ => vec![p.clone()],
    }
}
impl VisitMut for SplitOr {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let mut out = vec![];
        for a in std::mem::take(&mut m.arms) {
            let ps = if a.guard.is_some() { pat_cases(&a.pat) } else { vec![a.pat.clone()] };
            if ps.len() < 2 {
                out.push(a);
                continue;
            }
            for p in ps {
                let mut b = a.clone();
                b.pat = p;
                b.comma = Some(Default::default());
                out.push(b);
            }
        }
        m.arms = out;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
struct WhileLet;
impl VisitMut for WhileLet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e {
            if let Expr::Let(l) = rules::strip(&w.cond) {
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                let lb = &w.label;
                *e = pexpr(quote!(#lb loop { match #x { #p => #b, _ => { break; } } }));
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct EndAtReturn;
impl VisitMut for EndAtReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => pexpr(quote!({ let vx_ret = #x; __vx_at!("end"); return vx_ret })),
                None => pexpr(quote!({ __vx_at!("end"); return })),
            };
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// the kinds of the loops as written
struct RawLoops(Vec<String>);
impl<'a> Visit<'a> for RawLoops {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(w) if matches!(*w.cond, Expr::Let(_)) => self.0.push("written: while let".into()),
            Expr::While(_) => self.0.push("written: while".into()),
            Expr::ForLoop(_) => self.0.push("written: for".into()),
            Expr::Loop(_) => self.0.push("written: loop".into()),
            _ => {}
        }
        visit::visit_expr(self, e)
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

// --------------------------------------------------------------- renaming
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.starts_with(|c: char| c.is_lowercase() || c == '_') {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p)
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
struct Rename(BTreeMap<String, String>);
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p)
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) {
                p.path = Ident::new(n, i.span()).into();
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn rename_map(cur: &[String], old: &[String]) -> Option<BTreeMap<String, String>> {
    if cur.len() != old.len() || cur == old {
        return None;
    }
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (c, o) in cur.iter().zip(old) {
        match m.get(c) {
            Some(x) if x != o => return None,
            _ => {
                m.insert(c.clone(), o.clone());
            }
        }
    }
    // injective
    let v: BTreeSet<_> = m.values().collect();
    if v.len() != m.len() {
        return None;
    }
    Some(m)
}

// ------------------------------------------------------------ calls, anchors
struct Calls {
    v: Vec<String>,
    deep: bool,
}
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.v.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            self.v.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        visit::visit_expr_return(self, r);
        self.v.push("return".into());
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.v.push("break".into());
    }
    fn visit_block(&mut self, b: &'a Block) {
        if self.deep {
            visit::visit_block(self, b)
        }
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        if self.deep {
            visit::visit_arm(self, a)
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if self.deep {
            visit::visit_expr_closure(self, c)
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn at(k: &str) -> Stmt {
    syn::parse2(quote!(__vx_at!(#k);)).unwrap_or_else(|_| {
        let b = pblock(quote!({ __vx_at!(#k); }));
        b.stmts[0].clone()
    })
}
struct Anchors<'a> {
    parts: &'a BTreeMap<String, String>,
    count: BTreeMap<String, usize>,
    loops: usize,
    depth: usize,
    skeleton: Vec<String>,
    hit: BTreeSet<String>,
    nval: usize,
}
impl Anchors<'_> {
    fn want(&mut self, k: String) -> Option<Stmt> {
        if self.parts.contains_key(&k) {
            self.hit.insert(k.clone());
            Some(at(&k))
        } else {
            None
        }
    }
    fn is_loop(e: &Expr) -> Option<&'static str> {
        match e {
            Expr::While(_) => Some("while"),
            Expr::Loop(_) => Some("loop"),
            Expr::ForLoop(_) => Some("for"),
            _ => None,
        }
    }
    fn body_loop(&mut self, b: &mut Block, kind: &str) {
        let k = self.loops;
        self.loops += 1;
        self.skeleton.push(format!("{}{}", "  ".repeat(self.depth), kind));
        self.depth += 1;
        self.visit_block_mut(b);
        self.depth -= 1;
        if let Some(m) = self.want(format!("loopend {k}")) {
            if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() {
                *s = Some(Default::default());
            }
            b.stmts.push(m);
        }
        if let Some(m) = self.want(format!("loopstart {k}")) {
            b.stmts.insert(0, m);
        }
        let m = pblock(quote!({ __vx_loop!(#k); })).stmts[0].clone();
        b.stmts.insert(0, m);
        self.hit.insert(format!("loop {k}"));
    }
}
impl VisitMut for Anchors<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                self.body_loop(&mut w.body, "while")
            }
            Expr::Loop(w) => self.body_loop(&mut w.body, "loop"),
            Expr::ForLoop(w) => {
                self.visit_expr_mut(&mut w.expr);
                self.body_loop(&mut w.body, "for")
            }
            Expr::Match(m) => {
                // arms without a block get one, so that anchors fit
                for a in m.arms.iter_mut() {
                    if !matches!(&*a.body, Expr::Block(_)) {
                        let b = &a.body;
                        *a.body = pexpr(quote!({#b}));
                    }
                }
                visit_mut::visit_expr_mut(self, e)
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, mut s) in old.into_iter().enumerate() {
            let mut c = Calls { v: vec![], deep: false };
            // direct calls of this statement
            match &s {
                Stmt::Expr(Expr::Block(_), _) => {}
                s => c.visit_stmt(s),
            }
            let mut before = vec![];
            let mut after = vec![];
            for name in c.v {
                let k = self.count.entry(name.clone()).or_default();
                let id = format!("{name}#{k}");
                *k += 1;
                if let Some(m) = self.want(format!("before {id}")) {
                    before.push(m)
                }
                if let Some(m) = self.want(format!("after {id}")) {
                    after.push(m)
                }
            }
            let lk = match &s {
                Stmt::Expr(e, _) if Self::is_loop(e).is_some() => Some(self.loops),
                _ => None,
            };
            if let Some(k) = lk {
                if let Some(m) = self.want(format!("beforeloop {k}")) {
                    before.push(m)
                }
            }
            self.visit_stmt_mut(&mut s);
            if let Some(k) = lk {
                if let Some(m) = self.want(format!("afterloop {k}")) {
                    after.push(m)
                }
            }
            b.stmts.extend(before);
            if !after.is_empty() && i + 1 == n {
                match s {
                    Stmt::Expr(e, None) if !matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) => {
                        let v = format_ident!("vx_v{}", self.nval);
                        self.nval += 1;
                        b.stmts.push(pblock(quote!({ let #v = #e; })).stmts[0].clone());
                        b.stmts.extend(after);
                        b.stmts.push(Stmt::Expr(pexpr(quote!(#v)), None));
                    }
                    s => {
                        b.stmts.push(s);
                        b.stmts.extend(after);
                    }
                }
            } else {
                b.stmts.push(s);
                b.stmts.extend(after);
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn const_let(c: &ItemConst) -> Stmt {
    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
    pblock(quote!({ let #i: #t = #e; })).stmts[0].clone()
}
pub fn make(
    fd: &Found,
    d: &FnDir,
    u: &Unit,
    cands: &[(String, Found)],
    contracted: &BTreeSet<String>,
    pristine: Option<&Pristine>,
    consts: &BTreeMap<String, ItemConst>,
) -> Made {
    let skipped = u.skip.contains(&d.name);
    let skip_d;
    let d = if skipped {
        let mut x = d.clone();
        x.parts.clear();
        x.attr = x.attr.replace("#[verifier::external_body]", "") + "\n#[verifier::external_body]\n";
        let keep: Vec<&str> = x.spec.lines().take_while(|l| !l.trim_start().starts_with("decreases")).collect();
        x.spec = keep.join("\n") + "\n";
        skip_d = x;
        &skip_d
    } else {
        d
    };
    let mut b = if skipped { pblock(quote!({ std::process::abort() })) } else { fd.block.clone() };
    let mut notes = vec![];
    StripAttrs.visit_block_mut(&mut b);
    let macros = nested_macros(&mut b);
    if !macros.is_empty() {
        notes.push(format!("local macros expanded: {:?}", macros.keys().collect::<Vec<_>>()));
    }
    // nested functions, constants
    let mut nested = BTreeMap::new();
    let mut local_use: Vec<Stmt> = vec![];
    b.stmts.retain(|s| match s {
        Stmt::Item(Item::Fn(f)) => {
            let mut f = f.clone();
            InlineMacros(macros.clone()).visit_block_mut(&mut f.block);
            StripAttrs.visit_block_mut(&mut f.block);
            nested.insert(f.sig.ident.to_string(), f);
            false
        }
        Stmt::Item(Item::Use(_)) => {
            local_use.push(s.clone());
            true
        }
        // extracted on their own
        Stmt::Item(Item::Struct(i)) if u.has_item(&i.ident.to_string()) => false,
        Stmt::Item(Item::Enum(i)) if u.has_item(&i.ident.to_string()) => false,
        Stmt::Item(Item::Impl(i)) if u.has_item(&crate::unit::ty_name(&i.self_ty)) => false,
        _ => true,
    });
    InlineMacros(macros).visit_block_mut(&mut b);
    // constants become local lets
    for s in b.stmts.iter_mut() {
        if let Stmt::Item(Item::Const(c)) = s {
            *s = const_let(c);
        }
    }
    // local closures
    let mut closures = BTreeMap::new();
    b.stmts.retain(|s| {
        if let Stmt::Local(l) = s {
            if let (Some(i), Some(init)) = (pat_ident(&l.pat), &l.init) {
                let mut e = rules::strip(&init.expr);
                if let Expr::Reference(r) = e {
                    e = rules::strip(&r.expr);
                }
                if let Expr::Closure(c) = e {
                    closures.insert(i.to_string(), c.clone());
                    return false;
                }
            }
        }
        true
    });
    if !closures.is_empty() {
        notes.push(format!("local closures inlined: {:?}", closures.keys().collect::<Vec<_>>()));
    }
    let mut inl = Inliner {
        nested,
        closures,
        cands,
        self_name: fd.self_name.clone(),
        typed: fd
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => {
                    let mut ty = &*t.ty;
                    while let Type::Reference(r) = ty {
                        ty = &r.elem;
                    }
                    match (&*t.pat, ty) {
                        (Pat::Ident(i), Type::Path(p)) => Some((i.ident.to_string(), p.path.segments.last()?.ident.to_string())),
                        _ => None,
                    }
                }
                _ => None,
            })
            .collect(),
        contracted,
        noinline: &u.noinline,
        me: fd.sig.ident.to_string(),
        ret: fd.sig.output.clone(),
        depth: 0,
        inlined: vec![],
        errors: vec![],
    };
    for _ in 0..4 {
        let mut again = false;
        tails(&mut b, &mut |e| {
            if let Some(r) = inl.call_tail(e) {
                *e = r;
                again = true;
            }
        });
        if !again {
            break;
        }
    }
    inl.visit_block_mut(&mut b);
    let mut errors = inl.errors;
    let inlined = inl.inlined;
    let mut raw = RawLoops(vec![]);
    raw.visit_block(&b);
    StdMacros { cat: d.passes.iter().any(|p| p == "format") }.visit_block_mut(&mut b);
    Strings.visit_block_mut(&mut b);
    let mut ru = Rules { u, me: fd.sig.ident.to_string(), fresh: 0, used: vec![], budget: 3000 };
    ru.visit_block_mut(&mut b);
    let mut used = ru.used;
    used.sort();
    used.dedup();
    StdMacros { cat: d.passes.iter().any(|p| p == "format") }.visit_block_mut(&mut b);
    quest(&mut b, &fd.sig.output);
    tail_break(&mut b);
    if d.passes.iter().any(|p| p == "chain") {
        Chain(0).visit_block_mut(&mut b);
    }
    if d.passes.iter().any(|p| p == "noreturn") {
        match elim_returns(&b) {
            Some(x) => b = x,
            None => errors.push("early returns cannot be turned into nesting".into()),
        }
    }
    // what the proof says at the end of the body, it says at each return that is new
    let was = pristine.map(|p| p.callees.iter().any(|c| c == "return")).unwrap_or(true);
    if d.parts.contains_key("end") && !was && has_ret(&b.to_token_stream()) {
        match elim_returns(&b) {
            Some(x) => b = x,
            None => EndAtReturn.visit_block_mut(&mut b),
        }
        notes.push("early returns nested".into());
    }
    WhileLet.visit_block_mut(&mut b);
    SplitOr.visit_block_mut(&mut b);
    // rename
    let mut bs = Binders(vec![]);
    for a in &fd.sig.inputs {
        if let FnArg::Typed(t) = a {
            bs.visit_pat(&t.pat)
        }
    }
    bs.visit_block(&b);
    let cur = bs.0;
    let mut sig = fd.sig.clone();
    let mut ren = None;
    if let Some(p) = pristine {
        if let Some(m) = rename_map(&cur, &p.binders) {
            Rename(m.clone()).visit_block_mut(&mut b);
            Rename(m.clone()).visit_signature_mut(&mut sig);
            ren = Some(m);
        }
    }
    // a local that hides a function the contracts speak of (old, a spec function) gets another name
    let hides: BTreeMap<String, String> = cur
        .iter()
        .filter(|c| {
            let call = format!("{c}(");
            let hit = |t: &str| t.match_indices(&call).any(|(i, _)| !t[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.'));
            hit(&d.spec) || d.parts.values().any(|t| hit(t))
        })
        .map(|c| (c.clone(), format!("vx_{c}")))
        .collect();
    if !hides.is_empty() && ren.is_none() {
        Rename(hides).visit_block_mut(&mut b);
    }
    let mut renamed = false;
    if let Some(m) = &ren {
        let ch: Vec<String> = m.iter().filter(|(a, b)| a != b).map(|(a, b)| format!("{a}->{b}")).collect();
        if !ch.is_empty() {
            renamed = true;
            notes.push(format!("locals renamed: {}", ch.join(", ")));
        }
    }
    // `mut x: T` parameters: the parameter keeps its first value, the body works on vx_x
    if d.passes.iter().any(|p| p == "mutparam") {
        let mut m = BTreeMap::new();
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &mut *t.pat {
                    if i.mutability.take().is_some() {
                        m.insert(i.ident.to_string(), format!("vx_{}", i.ident));
                    }
                }
            }
        }
        Rename(m.clone()).visit_block_mut(&mut b);
        for (k, n) in m {
            let (k, n) = (format_ident!("{k}"), format_ident!("{n}"));
            b.stmts.insert(0, pblock(quote!({ let mut #n = #k; })).stmts[0].clone());
        }
    }
    // `mut self`: the verifier wants the binding in the body
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            Rename(BTreeMap::from([("self".to_string(), "vx_self".to_string())])).visit_block_mut(&mut b);
            b.stmts.insert(0, pblock(quote!({ let mut vx_self = self; })).stmts[0].clone());
        }
    }
    // module-level constants that are not extracted on their own
    let used_ids = free_idents(&pexpr(quote!(#b)));
    for (n, c) in consts {
        let own = u.secs.iter().any(|s| matches!(s, Sec::Item { kind, name, .. } if kind == "const" && name == n));
        if used_ids.contains(n) && !own {
            b.stmts.insert(0, const_let(c));
        }
    }
    let mut calls = Calls { v: vec![], deep: true };
    calls.visit_block(&b);
    let mut callees = calls.v;
    callees.sort();
    callees.dedup();
    // anchors
    let mut an = Anchors {
        parts: &d.parts,
        count: BTreeMap::new(),
        loops: 0,
        depth: 0,
        skeleton: raw.0,
        hit: BTreeSet::new(),
        nval: 0,
    };
    let endm = an.want("end".into());
    an.visit_block_mut(&mut b);
    if let Some(m) = endm {
        match b.stmts.pop() {
            Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::ForLoop(_)) => {
                b.stmts.push(pblock(quote!({ let vx_ret = #e; })).stmts[0].clone());
                b.stmts.push(m);
                b.stmts.push(Stmt::Expr(pexpr(quote!(vx_ret)), None));
            }
            Some(s) => {
                b.stmts.push(s);
                b.stmts.push(m);
            }
            None => b.stmts.push(m),
        }
    }
    if let Some(m) = an.want("start".into()) {
        b.stmts.insert(0, m);
    }
    for k in d.parts.keys() {
        if !an.hit.contains(k) {
            errors.push(format!("lost anchor: @{k}"));
        }
    }
    let mut skeleton = an.skeleton;
    // which local an invariant means is a guess then
    if renamed && !skeleton.is_empty() {
        skeleton.push("locals renamed".into());
    }
    // print
    let stm = &b.stmts;
    let body = rustfmt(&tmap(&quote!(fn vx_body() { #(#stm)* }).to_string(), &u.typemap));
    let open = body.find('{').unwrap();
    let mut body = body[open..].to_string();
    // every canary sits under its own unknown, so that one does not make the next vacuous
    let canary = |k: usize| format!("{{ proof {{ if vx_canary({k}) {{ /*canary*/ assert(false); }} }}\n");
    // loops
    for k in 0..an.loops {
        let m = format!("__vx_loop!({k}usize);");
        let i = body.find(&m).unwrap_or_else(|| panic!("loop marker {k} lost"));
        let br = body[..i].rfind('{').unwrap();
        let spec = d.parts.get(&format!("loop {k}")).cloned().unwrap_or_default();
        body = format!("{}\n{}{}{}", &body[..br].trim_end(), spec, if u.canary { canary(k + 1) } else { body[br..i].trim_end().to_string() }, &body[i + m.len()..]);
    }
    for (k, t) in &d.parts {
        let m = format!("__vx_at!(\"{k}\");");
        body = body.replace(&m, t);
    }
    if u.canary && !skipped {
        let o = body.find('{').unwrap();
        // `hide(f);` has to stay first in the body
        let mut at = o + 1;
        loop {
            let rest = &body[at..];
            let t = rest.trim_start();
            if !t.starts_with("hide(") { break; }
            let Some(e) = t.find(";") else { break };
            at += rest.len() - t.len() + e + 1;
        }
        let c = canary(0);
        body.insert_str(at, &c[1..]);
    }
    // signature
    let mut sm: Vec<(String, String)> = d.sigmap.clone();
    sm.extend(u.typemap.iter().cloned());
    let name = d.rename.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut ins = vec![];
    let mut pre = String::new();
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let mut r = r.clone();
                r.attrs.clear();
                ins.push(r.to_token_stream().to_string())
            }
            FnArg::Typed(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                let mut s = String::new();
                match &*t.pat {
                    Pat::Ident(i) => s.push_str(&i.to_token_stream().to_string()),
                    p => {
                        let n = format!("vx_p{}", ins.len());
                        pre.push_str(&format!("let {} = {};\n", p.to_token_stream(), n));
                        s.push_str(&n)
                    }
                }
                s.push_str(": ");
                s.push_str(&tmap(&t.ty.to_token_stream().to_string(), &sm));
                ins.push(s)
            }
        }
    }
    if !pre.is_empty() {
        let o = body.find('{').unwrap();
        body.insert_str(o + 1, &format!("\n{pre}"));
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let t = tmap(&t.to_token_stream().to_string(), &sm);
            match &d.ret {
                Some(r) => format!(" -> ({r}: {t})"),
                None => format!(" -> {t}"),
            }
        }
    };
    let gen = match &d.generics {
        Some(g) => g.clone(),
        None => {
            let p = &sig.generics.params;
            if p.is_empty() {
                String::new()
            } else {
                format!("<{}>", tmap(&p.to_token_stream().to_string(), &sm))
            }
        }
    };
    let attr = &d.attr;
    let mut text = format!("\n// extracted: fn {} from {}\n", d.name, u.sources[&d.src]);
    let head = match (&d.imp, &fd.head) {
        (Some(i), _) if i == "none" => None,
        (Some(i), _) => Some(i.clone()),
        (None, Some((g, t, _))) => {
            Some(format!("impl{} {}", if g.is_empty() { String::new() } else { format!("<{}>", tmap(g, &u.typemap)) }, tmap(t, &u.typemap)))
        }
        (None, None) => None,
    };
    if let Some(h) = &head {
        text.push_str(&format!("{h} {{\n"));
    }
    text.push_str(attr);
    text.push_str(&format!("pub fn {name}{gen}({}){ret}\n{}{}\n", ins.join(", "), d.spec, body));
    if head.is_some() {
        text.push_str("}\n");
    }
    Made { text, errors, binders: cur, skeleton, callees, used, notes, inlined }
}
