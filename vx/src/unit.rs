//! Unit files: what to extract, contracts, rules.
use crate::rules::Rule;
use crate::xform;
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct Pristine {
    pub binders: Vec<String>,
    pub skeleton: Vec<String>,
    pub callees: Vec<String>,
}
pub fn parse_pristine(s: &str) -> BTreeMap<String, Pristine> {
    let v: Value = serde_json::from_str(s).unwrap();
    let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    v.as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| {
            (k.clone(), Pristine { binders: strs(&v["binders"]), skeleton: strs(&v["skeleton"]), callees: strs(&v["callees"]) })
        })
        .collect()
}

#[derive(Default, Clone)]
pub struct FnDir {
    pub src: String,
    pub name: String,  // path as written: Impl::name, name, or outer::name for trait defaults
    pub ret: Option<String>,
    pub rename: Option<String>,
    pub imp: Option<String>, // override of the impl header
    pub generics: Option<String>,
    pub passes: Vec<String>,
    pub spec: String,
    pub attr: String,
    pub parts: BTreeMap<String, String>, // "loop 0" -> text, "before foo#0" -> text
    pub sigmap: Vec<(String, String)>,
    pub line: usize,
}
pub enum Sec {
    Text(String),
    Item { src: String, kind: String, name: String, derive: Option<String>, attr: String },
    Fn(FnDir),
}
#[derive(Default)]
pub struct Unit {
    pub sources: BTreeMap<String, String>,
    pub secs: Vec<Sec>,
    pub rules: Vec<Rule>,
    pub typemap: Vec<(String, String)>,
    pub noinline: BTreeSet<String>,
    pub canary: bool,
    /// functions whose body is out of reach: only their contract is used
    pub skip: BTreeSet<String>,
}
pub struct Out {
    pub code: String,
    pub meta: Value,
    pub pristine: Value,
}

fn keep(line: &str, prop: &str) -> Option<String> {
    // `[C03,C04] text` is kept only for these properties
    let t = line.trim_start();
    if t.starts_with("[C") {
        if let Some(e) = t.find("] ") {
            let l: Vec<&str> = t[1..e].split(',').map(|x| x.trim()).collect();
            if l.iter().all(|x| x.len() >= 3 && x[1..].chars().all(|c| c.is_ascii_digit())) {
                return if prop == "ALL" || l.contains(&prop) { Some(t[e + 2..].to_string()) } else { None };
            }
        }
    }
    Some(line.to_string())
}

pub fn load(path: &str) -> String {
    // `@@ include file`
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut o = String::new();
    for l in s.lines() {
        if let Some(f) = l.strip_prefix("@@ include ") {
            o.push_str(&load(dir.join(f.trim()).to_str().unwrap()));
        } else {
            o.push_str(l);
        }
        o.push('\n');
    }
    o
}

pub fn parse(text: &str, prop: &str) -> Unit {
    let mut u = Unit::default();
    let lines: Vec<String> = text.lines().filter_map(|l| keep(l, prop)).collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let Some(h) = l.strip_prefix("@@ ") else {
            if !l.trim().is_empty() && !l.trim_start().starts_with('#') {
                panic!("unit line {i}: text outside a section: {l}");
            }
            continue;
        };
        let start = i;
        while i < lines.len() && !lines[i].starts_with("@@ ") {
            i += 1;
        }
        let body = lines[start..i].join("\n");
        let (kw, rest) = h.split_once(' ').unwrap_or((h, ""));
        let rest = rest.trim();
        match kw {
            "source" => {
                let (a, b) = rest.split_once(' ').unwrap();
                u.sources.insert(a.into(), b.trim().into());
            }
            "prelude" | "text" => u.secs.push(Sec::Text(body)),
            "typemap" => {
                let (a, b) = rest.split_once("~>").unwrap();
                u.typemap.push((norm(a), b.trim().into()));
            }
            "noinline" => u.noinline.extend(rest.split_whitespace().map(String::from)),
            "item" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let derive = w.iter().find_map(|x| x.strip_prefix("derive=")).map(String::from);
                u.secs.push(Sec::Item { src: w[0].into(), kind: w[1].into(), name: w[2].into(), derive, attr: body });
            }
            "rw" => {
                let full = format!("{rest}\n{body}");
                let (only, full) = if full.starts_with('[') {
                    let e = full.find(']').unwrap();
                    (full[1..e].split(',').map(|x| x.trim().to_string()).collect(), full[e + 1..].to_string())
                } else {
                    (vec![], full)
                };
                let (p, t) = full.split_once("~>").unwrap_or_else(|| panic!("rule without ~>: {full}"));
                let pat: Expr = parse_str(p.trim()).unwrap_or_else(|e| panic!("pattern `{p}`: {e}"));
                let tmpl: TokenStream = t.trim().parse().unwrap_or_else(|e| panic!("template `{t}`: {e}"));
                u.rules.push(Rule { pat, tmpl, only, text: full.trim().to_string() });
            }
            "fn" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let mut f = FnDir { src: w[0].into(), name: w[1].into(), line: start, ..Default::default() };
                for x in &w[2..] {
                    if let Some(r) = x.strip_prefix("ret=") {
                        f.ret = Some(r.into())
                    } else if let Some(r) = x.strip_prefix("as=") {
                        f.rename = Some(r.into())
                    } else if let Some(r) = x.strip_prefix("pass=") {
                        f.passes.extend(r.split(',').map(String::from))
                    } else {
                        panic!("fn option {x}")
                    }
                }
                let mut cur: Option<String> = None;
                for b in body.lines() {
                    if let Some(d) = b.strip_prefix('@') {
                        let d = d.trim();
                        if let Some(r) = d.strip_prefix("impl ") {
                            f.imp = Some(r.into());
                            cur = None
                        } else if let Some(r) = d.strip_prefix("sig ") {
                            let (a, b) = r.split_once("~>").unwrap();
                            f.sigmap.push((norm(a), b.trim().into()));
                            cur = None
                        } else if let Some(r) = d.strip_prefix("generics ") {
                            f.generics = Some(r.into());
                            cur = None
                        } else if let Some(r) = d.strip_prefix("attr ") {
                            f.attr.push_str(r);
                            f.attr.push('\n');
                            cur = None
                        } else {
                            cur = Some(d.into());
                            if d != "spec" {
                                f.parts.entry(d.into()).or_default();
                            }
                        }
                    } else {
                        match cur.as_deref() {
                            None => {
                                if !b.trim().is_empty() && !b.trim_start().starts_with('#') {
                                    panic!("fn {}: stray text `{b}`", f.name)
                                }
                            }
                            Some("spec") => {
                                f.spec.push_str(b);
                                f.spec.push('\n')
                            }
                            Some(c) => {
                                let e = f.parts.get_mut(c).unwrap();
                                e.push_str(b);
                                e.push('\n')
                            }
                        }
                    }
                }
                u.secs.push(Sec::Fn(f));
            }
            _ => panic!("unknown section {kw}"),
        }
    }
    u
}

pub fn norm(s: &str) -> String {
    match s.trim().parse::<TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.trim().to_string(),
    }
}

/// A function found in the sources
#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub head: Option<(String, String, Option<String>)>, // generics params+where, self type, trait
    pub self_name: String,
}
pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_name(&r.elem),
        t => t.to_token_stream().to_string(),
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}
impl Unit {
    pub fn has_item(&self, n: &str) -> bool {
        self.secs.iter().any(|s| matches!(s, Sec::Item { name, .. } if name == n))
    }
}
/// functions of the items, then methods of types declared inside function bodies
pub fn collect(items: &[Item], prefix: &str, out: &mut Vec<(String, Found)>) {
    collect1(items, prefix, out);
    for it in items {
        let mut bl: Vec<&Block> = vec![];
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => bl.push(&f.block),
            Item::Impl(im) => {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        bl.push(&f.block)
                    }
                }
            }
            _ => {}
        }
        for b in bl {
            let its: Vec<Item> =
                b.stmts.iter().filter_map(|s| if let Stmt::Item(i @ Item::Impl(_)) = s { Some(i.clone()) } else { None }).collect();
            collect1(&its, prefix, out);
        }
    }
}
fn collect1(items: &[Item], prefix: &str, out: &mut Vec<(String, Found)>) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => out.push((
                f.sig.ident.to_string(),
                Found { sig: f.sig.clone(), block: (*f.block).clone(), head: None, self_name: String::new() },
            )),
            // a constant is a function without parameters
            Item::Const(c) => {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                let sig: Signature = parse_quote!(fn #n() -> #t);
                let block: Block = parse_quote!({ #e });
                out.push((n.to_string(), Found { sig, block, head: None, self_name: String::new() }));
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(its, &format!("{prefix}{}::", m.ident), out)
                }
            }
            Item::Impl(im) => {
                let tn = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let (_, _, wh) = im.generics.split_for_impl();
                        let g = im.generics.params.to_token_stream().to_string();
                        let _ = wh;
                        let fd = Found {
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            head: Some((g, im.self_ty.to_token_stream().to_string(), tr.clone())),
                            self_name: tn.clone(),
                        };
                        if let Some(tr) = &tr {
                            out.push((format!("{tr}@{tn}::{}", f.sig.ident), fd.clone()));
                        }
                        out.push((format!("{tn}::{}", f.sig.ident), fd));
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            out.push((
                                format!("{}::{}", t.ident, f.sig.ident),
                                Found {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    head: Some((String::new(), t.ident.to_string(), None)),
                                    self_name: t.ident.to_string(),
                                },
                            ));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
pub fn find_item(items: &[Item], kind: &str, name: &str) -> Option<Item> {
    for it in items {
        let ok = match it {
            Item::Enum(e) => kind == "enum" && e.ident == name,
            Item::Struct(e) => kind == "struct" && e.ident == name,
            Item::Const(e) => kind == "const" && e.ident == name,
            Item::Type(e) => kind == "type" && e.ident == name,
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_item(its, kind, name) {
                        return Some(x);
                    }
                }
                false
            }
            // an item handed to a macro
            Item::Macro(m) if m.ident.is_none() => {
                if let Ok(f) = syn::parse2::<File>(m.mac.tokens.clone()) {
                    if let Some(x) = find_item(&f.items, kind, name) {
                        return Some(x);
                    }
                }
                false
            }
            _ => false,
        };
        if ok {
            return Some(it.clone());
        }
    }
    // items nested in function bodies
    for it in items {
        let mut bl: Vec<&Block> = vec![];
        match it {
            Item::Fn(f) => bl.push(&f.block),
            Item::Impl(im) => {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        bl.push(&f.block)
                    }
                }
            }
            _ => {}
        }
        for b in bl {
            let its: Vec<Item> = b.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
            if !its.is_empty() {
                if let Some(x) = find_item(&its, kind, name) {
                    return Some(x);
                }
            }
        }
    }
    None
}

pub fn strip_item(it: &mut Item) {
    let pb: Visibility = parse_quote!(pub);
    match it {
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = pb;
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear()
                }
            }
        }
        Item::Struct(e) => {
            e.attrs.clear();
            e.vis = pb.clone();
            for f in e.fields.iter_mut() {
                f.attrs.clear();
                f.vis = pb.clone();
            }
        }
        Item::Const(e) => {
            e.attrs.clear();
            e.vis = pb
        }
        Item::Type(e) => {
            e.attrs.clear();
            e.vis = pb
        }
        _ => {}
    }
}
/// replace token sequences
pub fn tmap(s: &str, m: &[(String, String)]) -> String {
    let Ok(t) = s.parse::<TokenStream>() else { return s.to_string() };
    let mut v = flat(t);
    for (a, b) in m {
        let a: Vec<String> = flat(a.parse().unwrap()).into_iter().map(|x| x.0).collect();
        let mut i = 0;
        while i + a.len() <= v.len() {
            if v[i..i + a.len()].iter().map(|x| &x.0).eq(a.iter()) {
                let r = flat(b.parse().unwrap());
                let n = r.len();
                v.splice(i..i + a.len(), r);
                i += n;
            } else {
                i += 1;
            }
        }
    }
    let mut o = String::new();
    for (t, joint) in v {
        o.push_str(&t);
        if !joint {
            o.push(' ');
        }
    }
    o
}
fn flat(t: TokenStream) -> Vec<(String, bool)> {
    use proc_macro2::*;
    let mut o = vec![];
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (l, r) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push((l.into(), false));
                o.extend(flat(g.stream()));
                o.push((r.into(), false));
            }
            TokenTree::Punct(p) => o.push((p.as_char().to_string(), p.spacing() == Spacing::Joint)),
            t => o.push((t.to_string(), false)),
        }
    }
    o
}

pub fn rustfmt(code: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=150"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    c.stdin.take().unwrap().write_all(code.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        panic!("rustfmt: {}\n{}", String::from_utf8_lossy(&o.stderr), code);
    }
    String::from_utf8(o.stdout).unwrap()
}

pub fn generate(u: &Unit, repo: &str, pristine: &BTreeMap<String, Pristine>) -> Out {
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut all: BTreeMap<String, Vec<(String, Found)>> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut consts: BTreeMap<String, BTreeMap<String, ItemConst>> = BTreeMap::new();
    for (a, p) in &u.sources {
        let s = std::fs::read_to_string(format!("{repo}/{p}")).unwrap_or_else(|e| panic!("source {p}: {e}"));
        match parse_file(&s) {
            Ok(f) => {
                let mut v = vec![];
                collect(&f.items, "", &mut v);
                let mut c = BTreeMap::new();
                for i in &f.items {
                    if let Item::Const(k) = i {
                        let mut k = k.clone();
                        k.attrs.clear();
                        c.insert(k.ident.to_string(), k);
                    }
                }
                consts.insert(a.clone(), c);
                all.insert(a.clone(), v);
                files.insert(a.clone(), f);
            }
            Err(e) => panic!("source {p} does not parse: {e}"),
        }
    }
    // which names are under contract: never inlined
    let contracted: BTreeSet<String> = u
        .secs
        .iter()
        .filter_map(|s| if let Sec::Fn(f) = s { Some(f.name.rsplit("::").next().unwrap().to_string()) } else { None })
        .collect();
    let mut code = String::new();
    let mut fns = vec![];
    let mut pr = serde_json::Map::new();
    for s in &u.secs {
        match s {
            Sec::Text(t) => {
                code.push_str(t);
                code.push('\n');
            }
            Sec::Item { src, kind, name, derive, attr } => {
                let Some(mut it) = find_item(&files[src].items, kind, name) else {
                    errors.push(format!("lost anchor: {kind} {name} in {}", u.sources[src]));
                    continue;
                };
                strip_item(&mut it);
                let t = tmap(&it.to_token_stream().to_string(), &u.typemap);
                code.push_str(&format!("\n// extracted: {kind} {name} from {}\n", u.sources[src]));
                if let Some(d) = derive {
                    code.push_str(&format!("#[derive({d})]\n"));
                }
                if !attr.trim().is_empty() {
                    code.push_str(attr);
                    code.push('\n');
                }
                code.push_str(&rustfmt(&t));
            }
            Sec::Fn(d) => {
                let cands = &all[&d.src];
                let Some((_, fd)) = cands.iter().find(|(n, _)| *n == d.name) else {
                    errors.push(format!("lost anchor: fn {} in {}", d.name, u.sources[&d.src]));
                    continue;
                };
                let p = pristine.get(&d.name);
                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    xform::make(fd, d, u, cands, &contracted, p, &consts[&d.src])
                })) {
                    Ok(r) => r,
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        errors.push(format!("fn {}: {m}", d.name));
                        continue;
                    }
                };
                let l0 = code.lines().count() + 1;
                code.push_str(&r.text);
                code.push('\n');
                let l1 = code.lines().count();
                errors.extend(r.errors.iter().map(|e| format!("fn {}: {e}", d.name)));
                pr.insert(d.name.clone(), json!({"binders": r.binders, "skeleton": r.skeleton, "callees": r.callees}));
                let skel_changed = p.map(|p| p.skeleton != r.skeleton).unwrap_or(false);
                fns.push(json!({"fn": d.name, "source": u.sources[&d.src], "from": l0, "to": l1,
                    "rules": r.used, "notes": r.notes, "skeleton": r.skeleton, "skeleton_changed": skel_changed,
                    "inlined": r.inlined, "new_callees": p.map(|p| r.callees.iter().filter(|c| !p.callees.contains(c)).cloned().collect::<Vec<_>>()).unwrap_or_default() }));
            }
        }
    }
    Out { code, meta: json!({"fns": fns, "errors": errors}), pristine: Value::Object(pr) }
}
