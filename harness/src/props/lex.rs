use crate::gen::*;
use crate::{Case, Res};
use logos::Logos;
use mitex_lexer::{CommandName, Lexer, Token};
use mitex_spec::CommandSpec;

pub fn spec() -> CommandSpec {
    mitex_spec_gen::DEFAULT_SPEC.clone()
}
pub const AL: &[&str] = &[
    "a", "bc", "αβ", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "'", "\"", ";", "#", "*", "@", "_",
    "$", "$$", "\\\\", "\\alpha", "\\begin{x}", "\\end{x}", "\\begin", "\\if", "\\fi", "\\(", "\\]", "\\é", "\\ ", "1",
];
/// the tokens of an input, straight from the generated lexer
pub fn raw(s: &str) -> Vec<(Token, String)> {
    raw_with(s, spec())
}
pub fn raw_with(s: &str, spec: CommandSpec) -> Vec<(Token, String)> {
    let mut l = Token::lexer_with_extras(s, (spec, 0..0));
    let mut v = vec![];
    while let Some(t) = l.next() {
        let t = t.expect("lexer error token");
        let txt = match t {
            Token::CommandName(CommandName::BeginEnvironment | CommandName::EndEnvironment) => s[l.extras.1.clone()].to_string(),
            _ => l.slice().to_string(),
        };
        v.push((t, txt));
    }
    v
}
pub fn c01_cases(th: bool, seed: u64) -> Iter {
    let k = if th { 8 } else { 3 };
    let n = if th { 60 } else { 6 };
    let sizes = [1usize, 2, 3, 84, 85, 86, 126, 127, 128, 168, 169, 170, 171, 172, 252, 255, 256, 257, 338, 339, 340, 341, 342, 509, 510, 511, 512, 850];
    let mut v: Vec<Iter> = vec![Box::new(exhaustive(AL, 3).flat_map(move |c| {
        (0..k).map(move |m| Case { s: c.s.clone(), n: vec![m] })
    }))];
    let _ = k;
    for (j, sz) in sizes.iter().enumerate() {
        let sz = *sz;
        v.push(from_fn(n * 20, seed + j as u64 * 77, move |r, i| {
            let mut s = String::new();
            for _ in 0..sz {
                s.push_str(r.pick(AL));
            }
            Case { s, n: vec![if i % 3 == 0 { 0 } else { r.next() }] }
        }));
    }
    chain(v)
}
/// n[0] = 0: eat only; otherwise seed of the operations
pub fn c01(c: &Case) -> Res {
    let want = raw(&c.s);
    let mut model: std::collections::VecDeque<(Token, &str)> = want.iter().map(|(t, s)| (*t, s.as_str())).collect();
    let mut l: Lexer = Lexer::new(&c.s, spec());
    let mut r = Rng::new(c.n.first().copied().unwrap_or(0));
    let ops = c.n.first().copied().unwrap_or(0) != 0;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 10 * c.s.len() + 100 {
            return Err("the stream does not end".into());
        }
        // looking ahead
        let looks = if ops { r.below(3) } else { 1 };
        for _ in 0..looks {
            if l.peek() != model.front().map(|x| x.0) {
                return Err(format!("peek gives {:?} where {:?} is next", l.peek(), model.front()));
            }
            if l.peek_text() != model.front().map(|x| x.1) {
                return Err(format!("peek_text gives {:?} where {:?} is next", l.peek_text(), model.front()));
            }
            if l.peek_char() != model.front().and_then(|x| x.1.chars().next()) {
                return Err(format!("peek_char gives {:?} where {:?} is next", l.peek_char(), model.front()));
            }
        }
        if ops && r.below(2) == 0 {
            // take a prefix
            if let Some((k, t)) = model.front().cloned() {
                let chars: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len(), t.len() + 1]).collect();
                let n = *r.pick(&chars);
                l.consume_utf8_bytes(n);
                model.pop_front();
                if n < t.len() {
                    model.push_front((k, &t[n..]));
                }
            } else {
                l.consume_utf8_bytes(r.below(3));
            }
        } else {
            let g = l.eat();
            let w = model.pop_front();
            if g != w {
                return Err(format!("eat gives {g:?} where {w:?} is next"));
            }
            if g.is_none() {
                // the end is stable
                if l.eat().is_some() || l.peek().is_some() {
                    return Err("a token after the end".into());
                }
                return Ok(want.len() >= 2);
            }
        }
    }
}
