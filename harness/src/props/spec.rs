//! C12: specification items against their documented meaning; look-ups against a plain map.
//! C19: serialisation.
use crate::gen::*;
use crate::{Case, Res};
use mitex_spec::query::{CommandSpecItem as Q, CommandSpecRepr as QRepr};
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem as I, ContextFeature as F, EnvShape, GlobStr};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Pat { None, Fixed(u8), Range(u8, u8), Greedy, Glob(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum V { Right(Pat, Option<String>), Left1(Option<String>), Infix(Option<String>), Env(Pat, &'static str, Option<String>) }

fn pat(p: &ArgPattern) -> Pat {
    match p {
        ArgPattern::None => Pat::None,
        ArgPattern::FixedLenTerm { len } => Pat::Fixed(*len),
        ArgPattern::RangeLenTerm { min, max } => Pat::Range(*min, *max),
        ArgPattern::Greedy => Pat::Greedy,
        ArgPattern::Glob { pattern } => Pat::Glob(pattern.0.to_string()),
    }
}
fn feat(f: &F) -> &'static str {
    match f {
        F::None => "none", F::IsMath => "math", F::IsMatrix => "matrix", F::IsCases => "cases", F::IsFigure => "figure",
        F::IsTable => "table", F::IsItemize => "itemize", F::IsEnumerate => "enumerate",
    }
}
pub fn view(i: &I) -> V {
    match i {
        I::Cmd(c) => match &c.args {
            ArgShape::Right { pattern } => V::Right(pat(pattern), c.alias.clone()),
            ArgShape::Left1 => V::Left1(c.alias.clone()),
            ArgShape::InfixGreedy => V::Infix(c.alias.clone()),
        },
        I::Env(e) => V::Env(pat(&e.args), feat(&e.ctx_feature), e.alias.clone()),
    }
}
fn name(r: &mut Rng) -> String {
    let base = ["", "a", "frac", "matrix", "Matrix", "α", "a*", "\\frac", "x y", "text.with(style: \"a\")", "b", "sum"];
    let mut s = r.pick(&base).to_string();
    if r.below(3) == 0 {
        s.push_str(r.pick(&base[1..]));
    }
    s
}
fn glob(r: &mut Rng) -> String {
    r.pick(&["", "t", "{,b}t", "{,b,p}t", "*", "{b,}{t,tt}", "tt", "é*", "!t"]).to_string()
}
fn num(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 1, 2, 3, 7, 9, 10, 127, 128, 254, 255])
}
fn feature(r: &mut Rng) -> F {
    match r.below(8) { 0 => F::None, 1 => F::IsMath, 2 => F::IsMatrix, 3 => F::IsCases, 4 => F::IsFigure, 5 => F::IsTable, 6 => F::IsItemize, _ => F::IsEnumerate }
}
fn pattern(r: &mut Rng) -> (ArgPattern, Pat) {
    match r.below(5) {
        0 => (ArgPattern::None, Pat::None),
        1 => { let n = num(r); (ArgPattern::FixedLenTerm { len: n }, Pat::Fixed(n)) }
        2 => { let (a, b) = (num(r), num(r)); (ArgPattern::RangeLenTerm { min: a, max: b }, Pat::Range(a, b)) }
        3 => (ArgPattern::Greedy, Pat::Greedy),
        _ => { let g = glob(r); (ArgPattern::Glob { pattern: GlobStr(g.as_str().into()) }, Pat::Glob(g)) }
    }
}
fn optname(r: &mut Rng) -> Option<String> {
    if r.below(2) == 0 { None } else { Some(name(r)) }
}
fn shape(r: &mut Rng) -> (ArgShape, fn(Pat, Option<String>) -> V, Pat) {
    match r.below(4) {
        0 => (ArgShape::Left1, |_, a| V::Left1(a), Pat::None),
        1 => (ArgShape::InfixGreedy, |_, a| V::Infix(a), Pat::None),
        _ => { let (p, q) = pattern(r); (ArgShape::Right { pattern: p }, V::Right, q) }
    }
}
/// a shorthand item and what it means
fn item(r: &mut Rng) -> (Q, V) {
    let a = name(r);
    match r.below(14) {
        0 => { let (s, f, p) = shape(r); let o = optname(r); (Q::Cmd(CmdShape { args: s, alias: o.clone() }), f(p, o)) }
        1 => {
            let (p, q) = pattern(r); let f = feature(r); let o = optname(r); let fv = feat(&f);
            (Q::Env(EnvShape { args: p, ctx_feature: f, alias: o.clone() }), V::Env(q, fv, o))
        }
        2 => (Q::Symbol, V::Right(Pat::None, None)),
        3 => (Q::Command0, V::Right(Pat::Fixed(0), None)),
        4 => (Q::Command1, V::Right(Pat::Fixed(1), None)),
        5 => (Q::Command2, V::Right(Pat::Fixed(2), None)),
        6 => (Q::CmdLeft1, V::Left1(None)),
        7 => (Q::EnvMatrix, V::Env(Pat::None, "matrix", None)),
        8 => (Q::EnvNormal, V::Env(Pat::None, "none", None)),
        9 => {
            let g = glob(r); let f = feature(r); let fv = feat(&f);
            (Q::EnvGlob { pattern: g.clone(), alias: a.clone(), ctx_feature: f }, V::Env(Pat::Glob(g), fv, Some(a)))
        }
        10 => (Q::SymAlias { alias: a.clone() }, V::Right(Pat::None, Some(a))),
        11 => (Q::CmdGreedy { alias: a.clone() }, V::Right(Pat::Greedy, Some(a))),
        12 => (Q::CmdInfix { alias: a.clone() }, V::Infix(Some(a))),
        _ => { let g = glob(r); (Q::CmdGlob { pattern: g.clone(), alias: a.clone() }, V::Right(Pat::Glob(g), Some(a))) }
    }
}
fn built(r: &mut Rng) -> (I, V) {
    use mitex_spec::preludes::command::*;
    let a = name(r);
    let n = num(r);
    let g = glob(r);
    let al = Some(a.clone());
    match r.below(19) {
        0 => (define_command(n), V::Right(Pat::Fixed(n), None)),
        1 => (define_glob_command(&g, &a), V::Right(Pat::Glob(g), al)),
        2 => { let f = feature(r); let fv = feat(&f); (define_glob_env(&g, &a, f), V::Env(Pat::Glob(g), fv, al)) }
        3 => (define_symbol(&a), V::Right(Pat::None, al)),
        4 => (define_command_with_alias(n, &a), V::Right(Pat::Fixed(n), al)),
        5 => (define_greedy_command(&a), V::Right(Pat::Greedy, al)),
        6 => (define_matrix_env(Some(n), &a), V::Env(Pat::Fixed(n), "matrix", al)),
        7 => (define_matrix_env(None, &a), V::Env(Pat::None, "matrix", al)),
        8 => (define_normal_env(Some(n), &a), V::Env(Pat::Fixed(n), "none", al)),
        9 => (define_normal_env(None, &a), V::Env(Pat::None, "none", al)),
        10 => (TEX_CMD0, V::Right(Pat::Fixed(0), None)),
        11 => (TEX_CMD1, V::Right(Pat::Fixed(1), None)),
        12 => (TEX_CMD2, V::Right(Pat::Fixed(2), None)),
        13 => (TEX_SYMBOL, V::Right(Pat::None, None)),
        14 => (TEX_LEFT1_OPEARTOR, V::Left1(None)),
        15 => (TEX_GREEDY_OPERATOR, V::Right(Pat::Greedy, None)),
        16 => (TEX_INFIX_OPERATOR, V::Infix(None)),
        17 => (TEX_MATRIX_ENV, V::Env(Pat::None, "matrix", None)),
        _ => (TEX_NORMAL_ENV, V::Env(Pat::None, "none", None)),
    }
}
pub fn cases(th: bool, seed: u64) -> Iter {
    from_fn(if th { 1_000_000 } else { 60_000 }, seed, |r, i| Case { s: String::new(), n: vec![r.next(), (i % 3) as u64] })
}
fn lookups(s: &CommandSpec, model: &BTreeMap<String, V>, r: &mut Rng) -> Res {
    let mut names: Vec<String> = model.keys().cloned().collect();
    for _ in 0..6 {
        let mut n = name(r);
        if r.below(3) == 0 {
            n.make_ascii_uppercase();
        }
        names.push(n);
    }
    for n in names {
        let w = model.get(&n);
        let g = s.get(&n).map(view);
        if g.as_ref() != w {
            return Err(format!("get({n:?}) gives {g:?} and should give {w:?}"));
        }
        let c = s.get_cmd(&n).map(|c| view(&I::Cmd(c.clone())));
        let wc = w.filter(|v| !matches!(v, V::Env(..)));
        if c.as_ref() != wc {
            return Err(format!("get_cmd({n:?}) gives {c:?} and should give {wc:?}"));
        }
        let e = s.get_env(&n).map(|c| view(&I::Env(c.clone())));
        let we = w.filter(|v| matches!(v, V::Env(..)));
        if e.as_ref() != we {
            return Err(format!("get_env({n:?}) gives {e:?} and should give {we:?}"));
        }
    }
    let mut got: Vec<(String, V)> = s.items().map(|(k, v)| (k.to_string(), view(v))).collect();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let want: Vec<(String, V)> = model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if got != want {
        return Err(format!("items() gives {got:?} and should give {want:?}"));
    }
    Ok(!model.is_empty())
}
pub fn check(c: &Case) -> Res {
    let (Some(&sd), Some(&mode)) = (c.n.first(), c.n.get(1)) else { return Err("malformed case".into()) };
    let mut r = Rng::new(sd);
    let mut model = BTreeMap::new();
    let n = r.below(6);
    let s: CommandSpec = match mode {
        0 => {
            let mut m = HashMap::new();
            for _ in 0..n {
                let k = name(&mut r);
                let (q, v) = item(&mut r);
                m.insert(k.clone(), q);
                model.insert(k, v);
            }
            QRepr { commands: m }.into()
        }
        1 => {
            let mut b = mitex_spec::preludes::command::SpecBuilder::default();
            for _ in 0..n {
                let k = name(&mut r);
                let (q, v) = built(&mut r);
                b.add_command(&k, q);
                model.insert(k, v);
            }
            b.build()
        }
        _ => {
            let mut m = rustc_hash::FxHashMap::default();
            for _ in 0..n {
                let k = name(&mut r);
                let (q, v) = item(&mut r);
                m.insert(k.clone(), I::from(q));
                model.insert(k, v);
            }
            CommandSpec::new(m)
        }
    };
    lookups(&s, &model, &mut r)
}
