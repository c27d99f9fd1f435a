//! C11: glob matching answers on everything and is exact on plain patterns.
use crate::gen::*;
use crate::{Case, Res};
use mitex_glob::{glob_match, glob_match_prefix, glob_match_with_captures};

fn split(s: &str) -> (String, String) {
    let (a, b) = s.split_once('\u{0}').unwrap_or((s, ""));
    (a.into(), b.into())
}
fn case(p: &str, t: &str) -> Case {
    Case::s(format!("{p}\u{0}{t}"))
}
pub fn check(c: &Case) -> Res {
    let k = c.n.first().copied().unwrap_or(1) as usize;
    let (p, t) = split(&c.s);
    let (p, t) = (p.repeat(k), t.repeat(c.n.get(1).copied().unwrap_or(1) as usize));
    let full = glob_match(&p, &t);
    let pre = glob_match_prefix(&p, &t);
    let cap = glob_match_with_captures(&p, &t);
    if cap.is_some() != full {
        return Err(format!("with captures the answer is {}, without {full}", cap.is_some()));
    }
    let plain = p.trim_start_matches('!');
    let odd = (p.len() - plain.len()) % 2 == 1;
    if plain.contains(|c| "*?[]{},\\!".contains(c)) {
        return Ok(true);
    }
    if full != ((plain == t) != odd) {
        return Err(format!("glob_match({p:?}, {t:?}) is {full}"));
    }
    if pre != (plain.starts_with(&t) != odd) {
        return Err(format!("glob_match_prefix({p:?}, {t:?}) is {pre}"));
    }
    Ok(!t.is_empty())
}
const P: &[&str] = &["*", "**", "?", "[", "]", "{", "}", ",", "!", "\\", "a", "b", "/", "-", "^"];
const L: &[&str] = &["a", "b", "t", "p", "/", "!", "é", " ", "-", "^", ".", "ab"];
const Q: &[&str] = &["*", "**/", "/**", "?", "[a]", "[^b-", "[!", "]", "{", "{a,", "{,", "}", ",", "{a,b}", "!", "\\", "a", "b", "/", "é", "{*,", "[]"];
const T: &[&str] = &["a", "b", "/", "é", "]", ",", "{", "\\", "t"];
pub fn cases(th: bool, seed: u64) -> Iter {
    let pairs = |p: &'static [&'static str], k: usize, t: &'static [&'static str], j: usize| -> Iter {
        Box::new(exhaustive(p, k).flat_map(move |a| exhaustive(t, j).map(move |b| case(&a.s, &b.s))))
    };
    chain(vec![
        pairs(L, 3, L, 3),
        pairs(P, if th { 5 } else { 4 }, &["a", "b", "/"], 3),
        from_fn(if th { 20_000_000 } else { 1_500_000 }, seed, |r, _| {
            let (mut p, mut t) = (String::new(), String::new());
            for _ in 0..r.below(12) {
                p.push_str(r.pick(Q));
            }
            for _ in 0..r.below(8) {
                t.push_str(r.pick(T));
            }
            case(&p, &t)
        }),
        from_fn(if th { 2_000_000 } else { 200_000 }, seed + 1, |r, _| {
            let (mut p, mut t) = ("!".repeat(r.below(4)), String::new());
            for _ in 0..r.below(12) {
                p.push_str(r.pick(L));
            }
            match r.below(4) {
                0 => t = p.trim_start_matches('!').into(),
                1 => {
                    let q: Vec<char> = p.trim_start_matches('!').chars().collect();
                    t = q[..r.below(q.len() + 1)].iter().collect();
                }
                2 => t = format!("{}{}", p.trim_start_matches('!'), r.pick(L)),
                _ => {
                    for _ in 0..r.below(6) {
                        t.push_str(r.pick(L));
                    }
                }
            }
            case(&p, &t)
        }),
        // deep and long
        Box::new(exhaustive(&["{", "{a,", "{,", "*", "**/", "[", "!", "\\", "a", "?", "{a}", "/"], 2).flat_map(|a| {
            [2u64, 5, 9, 10, 11, 12, 20, 100].into_iter().flat_map(move |k| {
                let a = a.s.clone();
                [0u64, 1, 10, 11, 100].into_iter().map(move |j| Case { s: format!("{a}\u{0}a"), n: vec![k, j] })
            })
        })),
    ])
}
