//! C10: histories of a snapshot map against a stack of plain maps
use crate::gen::*;
use crate::{Case, Res};
use mitex_lexer::snapshot_map::SnapshotMap;
use mitex_lexer::{Lexer, MacroEngine};
use std::collections::BTreeMap;

const KEYS: u64 = 3;
pub fn cases(th: bool, seed: u64) -> Iter {
    // op = kind + 6*key + 18*value
    let short: Vec<u64> = vec![0, 18, 6, 24, 1, 7, 2, 3, 4];
    let n = short.len();
    let k = if th { 7 } else { 6 };
    let ex = (0..=k).flat_map(move |len| {
        let short = short.clone();
        (0..n.pow(len)).map(move |mut i| {
            let mut v = vec![];
            for _ in 0..len {
                v.push(short[i % n]);
                i /= n;
            }
            Case { s: String::new(), n: v }
        })
    });
    chain(vec![
        Box::new(ex),
        from_fn(if th { 2_000_000 } else { 100_000 }, seed, |r, _| {
            let len = 3 + r.below(40);
            Case { s: String::new(), n: (0..len).map(|_| r.below(72) as u64).collect() }
        }),
        from_fn(if th { 20_000 } else { 2_000 }, seed + 1, |r, _| {
            let len = 3 + r.below(30);
            Case { s: "engine".into(), n: (0..len).map(|_| r.below(72) as u64).collect() }
        }),
    ])
}
pub fn check(c: &Case) -> Res {
    if c.s == "engine" {
        return engine(c);
    }
    let mut m: SnapshotMap<u64, u64> = SnapshotMap::default();
    let mut model: BTreeMap<u64, u64> = BTreeMap::new();
    let mut stack = vec![];
    let mut logged = 0usize;
    let mut rolled = false;
    for (i, op) in c.n.iter().enumerate() {
        let (kind, key, val) = (op % 6, op / 6 % KEYS, op / 18);
        match kind {
            0 => {
                let new = m.insert(key, val);
                logged += 1;
                if new != model.insert(key, val).is_none() {
                    return Err(format!("step {i}: insert of {key} answered {new}"));
                }
            }
            1 => {
                let had = m.remove(key);
                let want = model.remove(&key).is_some();
                logged += want as usize;
                if had != want {
                    return Err(format!("step {i}: remove of {key} answered {had}"));
                }
            }
            2 => stack.push((m.snapshot(), model.clone(), logged)),
            3 => {
                if let Some((s, old, l)) = stack.pop() {
                    m.rollback_to(s);
                    rolled |= old != model;
                    model = old;
                    logged = l;
                }
            }
            // committing the outermost snapshot is allowed only when nothing was logged before it
            4 => {
                if stack.len() >= 2 || stack.first().is_some_and(|s| s.2 == 0) {
                    let root = stack.len() == 1;
                    let (s, _, _) = stack.pop().unwrap();
                    m.commit(s);
                    if root {
                        logged = 0;
                    }
                }
            }
            _ => {}
        }
        for k in 0..KEYS {
            if m.get(&k) != model.get(&k) {
                return Err(format!("step {i}: {k} is {:?} and should be {:?}", m.get(&k), model.get(&k)));
            }
        }
    }
    // whatever is still open goes back to where it was
    while let Some((s, old, _)) = stack.pop() {
        m.rollback_to(s);
        for k in 0..KEYS {
            if m.get(&k) != old.get(&k) {
                return Err(format!("rollback: {k} is {:?} and was {:?}", m.get(&k), old.get(&k)));
            }
        }
    }
    Ok(rolled)
}
/// the scopes of the macro engine
fn engine(c: &Case) -> Res {
    use mitex_lexer::MacroifyStream;
    const NAMES: [&str; 3] = ["sa", "sb", "sc"];
    let src: Vec<String> = (0..4).map(|v| format!("\\newcommand{{\\v}}{{{v}}}\\v")).collect();
    let vals: Vec<_> = src
        .iter()
        .map(|s| {
            let mut l = Lexer::new_with_bumper(s, super::lex::spec(), MacroEngine::new(super::lex::spec()));
            while l.eat().is_some() {}
            l.get_macro("v").or_else(|| l.get_macro("\\v"))
        })
        .collect();
    if vals.iter().any(|v| v.is_none()) {
        return Err("a macro that was defined is not found".into());
    }
    let vals: Vec<_> = vals.into_iter().flatten().collect();
    let shown: Vec<String> = vals.iter().map(|v| format!("{v:?}")).collect();
    let mut e = MacroEngine::new(super::lex::spec());
    let mut model: BTreeMap<&str, usize> = BTreeMap::new();
    let mut stack = vec![];
    let mut rolled = false;
    for (i, op) in c.n.iter().enumerate() {
        let (kind, key, val) = (op % 6, NAMES[(op / 6 % KEYS) as usize], (op / 18 % 4) as usize);
        match kind {
            0 | 1 => {
                e.add_macro(key, vals[val].clone());
                model.insert(key, val);
            }
            2 | 4 => stack.push((e.create_scope(), model.clone())),
            3 => {
                if let Some((s, old)) = stack.pop() {
                    e.restore(s);
                    rolled |= old != model;
                    model = old;
                }
            }
            _ => {}
        }
        for k in NAMES {
            let g = e.get_macro(k).map(|m| format!("{m:?}"));
            if g.as_ref() != model.get(k).map(|v| &shown[*v]) {
                return Err(format!("step {i}: {k} is {g:?} and should be {:?}", model.get(k)));
            }
        }
    }
    Ok(rolled)
}
