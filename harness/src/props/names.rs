//! C02: a lexer written from the statement, on characters.
use super::lex::spec;
use crate::gen::*;
use crate::{Case, Res};
use mitex_lexer::{BraceKind, CommandName as C, IfCommandName as F, Lexer, Token as T};
use mitex_spec::preludes::command::*;
use mitex_spec::CommandSpec;
use std::sync::OnceLock;

/// 0: the default specification, 1: one with a few starred names
pub fn spec_of(n: u64) -> CommandSpec {
    static S: OnceLock<CommandSpec> = OnceLock::new();
    if n == 0 {
        return spec();
    }
    S.get_or_init(|| {
        let mut b = SpecBuilder::default();
        for k in ["a", "a*", "ab*", "*", "@*", "a@b*", "é*", "begin*", "fi*", "if*", "if"] {
            b.add_command(k, TEX_CMD1);
        }
        b.add_command("env*", TEX_NORMAL_ENV);
        b.build()
    })
    .clone()
}
const KEY: &[(&str, F)] = &[
    ("if", F::If), ("iftypst", F::IfTypst), ("iffalse", F::IfFalse), ("iftrue", F::IfTrue), ("ifcase", F::IfCase), ("ifnum", F::IfNum),
    ("ifcat", F::IfCat), ("ifx", F::IfX), ("ifvoid", F::IfVoid), ("ifhbox", F::IfHBox), ("ifvbox", F::IfVBox), ("ifhmode", F::IfHMode),
    ("ifmmode", F::IfMMode), ("ifvmode", F::IfVMode), ("ifinner", F::IfInner), ("ifdim", F::IfDim), ("ifeof", F::IfEof), ("@ifstar", F::IfStar),
];
fn letter(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '@'
}
/// (kind, text) of every token
pub fn lex(s: &str, spec: &CommandSpec) -> Vec<(T, String)> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let take = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    let run = |mut i: usize, f: &dyn Fn(char) -> bool| {
        while i < c.len() && f(c[i]) {
            i += 1;
        }
        i
    };
    let special = |x: char| x.is_whitespace() || "\\%{},$[]()~/_*@'\";&^#".contains(x);
    while i < c.len() {
        let x = c[i];
        let (k, e) = match x {
            '\n' | '\r' => (T::LineBreak, run(i, &|c| c == '\n' || c == '\r')),
            x if x.is_whitespace() => (T::Whitespace, run(i, &|c| c.is_whitespace() && c != '\n' && c != '\r')),
            '%' => (T::LineComment, run(i, &|c| c != '\n' && c != '\r')),
            '{' => (T::Left(BraceKind::Curly), i + 1),
            '[' => (T::Left(BraceKind::Bracket), i + 1),
            '(' => (T::Left(BraceKind::Paren), i + 1),
            '}' => (T::Right(BraceKind::Curly), i + 1),
            ']' => (T::Right(BraceKind::Bracket), i + 1),
            ')' => (T::Right(BraceKind::Paren), i + 1),
            ',' => (T::Comma, i + 1),
            '~' => (T::Tilde, i + 1),
            '/' => (T::Slash, i + 1),
            '&' => (T::Ampersand, i + 1),
            '^' => (T::Caret, i + 1),
            '\'' => (T::Apostrophe, i + 1),
            '"' => (T::Ditto, i + 1),
            ';' => (T::Semicolon, i + 1),
            '#' => (T::Hash, i + 1),
            '*' => (T::Asterisk, i + 1),
            '@' => (T::AtSign, i + 1),
            '_' => (T::Underscore, i + 1),
            '$' => (T::Dollar, if c.get(i + 1) == Some(&'$') { i + 2 } else { i + 1 }),
            '\\' => match c.get(i + 1) {
                None => (T::CommandName(C::Generic), i + 1),
                Some('\\') => (T::NewLine, i + 2),
                Some(y) if y.is_whitespace() => (T::CommandName(C::Generic), i + 1),
                Some('(' | '[') => (T::CommandName(C::BeginMath), i + 2),
                Some(')' | ']') => (T::CommandName(C::EndMath), i + 2),
                Some(&y) if !letter(y) => (T::CommandName(C::Generic), i + 2),
                Some(_) => {
                    let mut e = run(i + 1, &letter);
                    if c.get(e) == Some(&'*') && spec.get(&take(i + 1, e + 1)).is_some() {
                        e += 1;
                    }
                    let name = take(i + 1, e);
                    let kind = match name.as_str() {
                        "else" => C::Else,
                        "fi" => C::EndIf,
                        "left" => C::Left,
                        "right" => C::Right,
                        "begin" | "end" => {
                            let b = name == "begin";
                            // blanks, line ends and comments
                            let skip = |mut i: usize| loop {
                                i = run(i, &|c| c.is_whitespace());
                                if c.get(i) == Some(&'%') {
                                    i = run(i, &|c| c != '\n' && c != '\r');
                                } else {
                                    return i;
                                }
                            };
                            let o = skip(e);
                            let mut found = None;
                            if c.get(o) == Some(&'{') {
                                let mut n = run(o + 1, &letter);
                                if c.get(n) == Some(&'*') {
                                    n += 1;
                                }
                                let q = skip(n);
                                if c.get(q) == Some(&'}') {
                                    found = Some((o + 1, n, q + 1));
                                }
                            }
                            match found {
                                Some((a, n, q)) => {
                                    out.push((T::CommandName(if b { C::BeginEnvironment } else { C::EndEnvironment }), take(a, n)));
                                    i = q;
                                    continue;
                                }
                                None if b => C::ErrorBeginEnvironment,
                                None => C::ErrorEndEnvironment,
                            }
                        }
                        n => KEY.iter().find(|k| k.0 == n).map(|k| C::If(k.1)).unwrap_or(C::Generic),
                    };
                    (T::CommandName(kind), e)
                }
            },
            _ => (T::Word, run(i, &|c| !special(c))),
        };
        out.push((k, take(i, e)));
        i = e;
    }
    out
}
const AL: &[&str] = &[
    "\\", "a", "b", "@", "*", "é", "α", "\u{3000}", " ", "\n", "\r\n", "%", "%c\n", "%é\r", "{", "}", "begin", "end", "if", "iftypst", "iffalse", "fi",
    "else", "left", "right", "env", "1", "(", "]", "\\begin", "\\end", "{a}", "{a*}", "{é}", "{ab ", "$", "\u{a0}", "~", "\t", "\u{1F600}", "B",
];
const ALS: &[&str] = &[
    "\\alpha", "\\operatorname", "\\ifx", "\\ifnum", "\\ifcase", "\\ifcat", "\\ifvoid", "\\ifhbox", "\\ifvbox", "\\ifhmode", "\\ifmmode", "\\ifvmode",
    "\\ifinner", "\\ifdim", "\\ifeof", "\\@ifstar", "\\iftrue", "\\iffalse", "\\iftypst", "\\if", "\\else", "\\fi", "\\left", "\\right", "*", "x", "@", " ",
    "\\begin {a}", "\\end%\n{b*}", "\\begin{matrix }", "\\begin{ }", "\\begin{}", "\\begin{a@b}", "\\begin{a1}", "\\begin{a**}", "{", ",", "'", "\"", ";", "#",
    "[", "^", "/", "&", "_",
];
pub fn cases(th: bool, seed: u64) -> Iter {
    let with = |it: Iter| -> Iter { Box::new(it.flat_map(|c| (0..2).map(move |k| Case { s: c.s.clone(), n: vec![k] }))) };
    chain(vec![
        with(exhaustive(AL, 3)),
        with(exhaustive(ALS, 2)),
        with(random(AL, 4, 14, if th { 3_000_000 } else { 300_000 }, seed)),
        with(random(ALS, 3, 10, if th { 500_000 } else { 50_000 }, seed + 5)),
    ])
}
pub fn check(c: &Case) -> Res {
    let Some(&k) = c.n.first() else { return Err("malformed case".into()) };
    let sp = spec_of(k);
    let want = lex(&c.s, &sp);
    let mut l: Lexer = Lexer::new(&c.s, sp);
    for (i, w) in want.iter().enumerate() {
        let g = l.eat();
        if g != Some((w.0, w.1.as_str())) {
            return Err(format!("token {i} is {g:?} and should be {w:?}"));
        }
    }
    if let Some(g) = l.eat() {
        return Err(format!("{g:?} after the end"));
    }
    Ok(want.iter().any(|w| matches!(w.0, T::CommandName(_))))
}
