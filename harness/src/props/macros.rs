//! C07, C08, C09: a reference expander on reference tokens.
use super::lex::spec;
use super::names;
use crate::gen::*;
use crate::{Case, Res};
use mitex_lexer::{BraceKind::*, CommandName as C, IfCommandName as F, Lexer, MacroEngine, Token as T};
use std::collections::{HashMap, VecDeque};

type Tk = (T, String);
/// (tokens, whether the limit was reached)
fn engine(s: &str, limit: usize) -> (Vec<Tk>, bool) {
    let mut l = Lexer::new_with_bumper(s, spec(), MacroEngine::new(spec()));
    let mut v = vec![];
    while let Some((k, t)) = l.eat() {
        v.push((k, t.to_string()));
        if v.len() > limit {
            return (v, true);
        }
    }
    (v, false)
}
// ------------------------------------------------------------------ C07
#[derive(Clone)]
struct Def {
    env: bool,
    n: usize,
    opt: Option<Vec<Tk>>,
    def: Vec<Tk>,
    end: Vec<Tk>,
}
struct Ref {
    q: VecDeque<Tk>,
    macros: HashMap<String, Def>,
    out: Vec<Tk>,
    /// from this output on the statement says nothing
    open: Option<usize>,
    steps: usize,
    used: bool,
}
/// the use or definition is given up
struct Stop;
const DECL: &[&str] = &[
    "newcommand", "newcommand*", "renewcommand", "renewcommand*", "providecommand", "providecommand*", "DeclareRobustCommand", "DeclareRobustCommand*",
    "newenvironment", "newenvironment*", "renewenvironment", "renewenvironment*",
];
const BUDGET: usize = 6000;
impl Ref {
    fn skip_blanks(&mut self) {
        while self.q.front().is_some_and(|t| t.0.is_trivia()) {
            self.q.pop_front();
        }
    }
    fn undefined(&mut self) {
        self.open = self.open.or(Some(self.out.len()));
    }
    fn at(&self) -> Option<T> {
        self.q.front().map(|t| t.0)
    }
    fn group(&mut self, b: mitex_lexer::BraceKind) -> Vec<Tk> {
        let mut lv = 0i32;
        let mut v = vec![];
        loop {
            let Some(t) = self.q.pop_front() else {
                self.undefined();
                return v;
            };
            if lv == 0 && t.0 == T::Right(b) {
                return v;
            }
            match t.0 {
                T::Left(Curly) => lv += 1,
                T::Right(Curly) => lv -= 1,
                _ => {}
            }
            if lv < 0 {
                self.undefined();
            }
            v.push(t);
        }
    }
    /// the closing brace, with blanks before it
    fn close(&mut self, b: mitex_lexer::BraceKind) -> Result<(), Stop> {
        self.q.pop_front();
        if self.at().is_some_and(|t| t.is_trivia()) {
            self.undefined();
        }
        self.skip_blanks();
        match self.at() {
            None => Err(Stop),
            Some(t) if t == T::Right(b) => {
                self.q.pop_front();
                Ok(())
            }
            _ => {
                self.undefined();
                Ok(())
            }
        }
    }
    fn def_body(v: Vec<Tk>) -> Vec<Tk> {
        let mut out: Vec<Tk> = vec![];
        let mut it = v.into_iter().peekable();
        while let Some(t) = it.next() {
            if t.0 == T::Hash {
                if let Some(nx) = it.peek() {
                    let d = nx.1.chars().next().unwrap_or(' ');
                    if nx.0 == T::Word && ('1'..='9').contains(&d) {
                        let nx = it.next().unwrap();
                        out.push((T::MacroArg(d as u8 - b'0'), String::new()));
                        if nx.1.len() > 1 {
                            out.push((T::Word, nx.1[1..].to_string()));
                        }
                        continue;
                    }
                }
            }
            out.push(t);
        }
        out
    }
    fn declare(&mut self, name: &str) -> Result<(), Stop> {
        let name = name.trim_end_matches('*');
        let env = name.ends_with("environment");
        self.skip_blanks();
        if self.at() != Some(T::Left(Curly)) {
            return Err(Stop);
        }
        self.q.pop_front();
        self.skip_blanks();
        let t = self.q.front().cloned();
        let key = match &t {
            Some((T::Word, w)) if env => Some(w.clone()),
            Some((T::CommandName(k), w)) if !env => {
                if *k != C::Generic {
                    self.undefined();
                }
                w.strip_prefix('\\').map(|w| w.to_string())
            }
            _ => None,
        };
        self.close(Curly)?;
        let Some(key) = key else { return Err(Stop) };
        let mut n = 0;
        let mut opt = None;
        let mut state = 0;
        let def = loop {
            match (state, self.at()) {
                (_, None) => return Err(Stop),
                (0, Some(T::Left(Bracket))) => {
                    self.q.pop_front();
                    if self.at().is_some_and(|t| t.is_trivia()) {
                        self.undefined();
                    }
                    self.skip_blanks();
                    let k = self.q.front().filter(|t| t.0 == T::Word && t.1.len() == 1).and_then(|t| t.1.parse::<u8>().ok());
                    let big = self.q.front().filter(|t| t.0 == T::Word).and_then(|t| t.1.parse::<u8>().ok()).filter(|k| *k <= 9);
                    if k.is_none() {
                        self.undefined();
                    }
                    self.close(Bracket)?;
                    n = big.ok_or(Stop)? as usize;
                    state = 1;
                }
                (1, Some(T::Left(Bracket))) => {
                    self.q.pop_front();
                    opt = Some(self.group(Bracket));
                    state = 2;
                }
                (_, Some(T::Left(Curly))) => {
                    self.q.pop_front();
                    break self.group(Curly);
                }
                _ => {
                    self.undefined();
                    break vec![self.q.pop_front().unwrap()];
                }
            }
        };
        let mut end = None;
        if env {
            if self.at() == Some(T::Left(Curly)) {
                self.q.pop_front();
                end = Some(Self::def_body(self.group(Curly)));
            } else {
                return Err(Stop);
            }
        }
        let def = Self::def_body(def);
        let there = self.macros.contains_key(&key) || DECL.contains(&key.as_str());
        match name {
            "providecommand" if there => return Ok(()),
            "providecommand" => {}
            "renewcommand" | "renewenvironment" if there => {}
            "newcommand" | "DeclareRobustCommand" | "newenvironment" if !there => {}
            _ => {
                self.undefined();
                self.out.push((T::Error, key.clone()));
            }
        }
        self.macros.insert(key, Def { env, n, opt, def, end: end.unwrap_or_default() });
        Ok(())
    }
    fn args(&mut self, d: &Def) -> Result<Vec<Vec<Tk>>, Stop> {
        let mut a: Vec<Vec<Tk>> = vec![];
        while a.len() < d.n {
            self.skip_blanks();
            match self.q.pop_front() {
                Some((T::Left(Curly), _)) => {
                    let g = self.group(Curly);
                    a.push(g);
                }
                Some((T::Word, w)) => {
                    let c = w.chars().next().unwrap();
                    let rest = w[c.len_utf8()..].to_string();
                    if !rest.is_empty() {
                        self.q.push_front((T::Word, rest));
                    }
                    a.push(vec![(T::Word, c.to_string())]);
                }
                Some(t) => a.push(vec![t]),
                None => match &d.opt {
                    Some(o) if a.len() + 1 == d.n => a.push(o.clone()),
                    _ => return Err(Stop),
                },
            }
        }
        Ok(a)
    }
    fn subst(&mut self, def: &[Tk], a: &[Vec<Tk>]) -> Vec<Tk> {
        let mut v = vec![];
        let mut it = def.iter();
        while let Some(t) = it.next() {
            match t.0 {
                T::MacroArg(i) => match a.get(i as usize - 1) {
                    Some(x) => v.extend(x.iter().cloned()),
                    None => self.undefined(),
                },
                T::CommandName(C::Generic) if t.1 == "\\mitexrecurse" => {
                    self.undefined();
                    let mut bc = 0;
                    for e in it.by_ref() {
                        match e.0 {
                            T::Left(Curly) => {
                                if bc > 0 {
                                    v.push(e.clone());
                                }
                                bc += 1;
                            }
                            T::Right(Curly) => {
                                bc -= 1;
                                if bc == 0 {
                                    break;
                                }
                                v.push(e.clone());
                            }
                            _ if bc != 0 => v.push(e.clone()),
                            k if !k.is_trivia() => {
                                v.push(e.clone());
                                break;
                            }
                            _ => {}
                        }
                    }
                }
                _ => v.push(t.clone()),
            }
        }
        v
    }
    fn front(&mut self, v: Vec<Tk>) {
        for t in v.into_iter().rev() {
            self.q.push_front(t);
        }
    }
    fn one(&mut self) -> Result<bool, Stop> {
        let Some(t) = self.q.pop_front() else { return Ok(false) };
        match t.0 {
            T::CommandName(C::Generic) => {
                let name = t.1[1..].to_string();
                if DECL.contains(&name.as_str()) {
                    self.declare(&name)?;
                    return Ok(true);
                }
                if let Some(d) = self.macros.get(&name).filter(|d| !d.env).cloned() {
                    self.used = true;
                    let a = self.args(&d)?;
                    let v = self.subst(&d.def, &a);
                    self.front(v);
                    return Ok(true);
                }
            }
            T::CommandName(C::BeginEnvironment) => {
                if let Some(d) = self.macros.get(&t.1).filter(|d| d.env).cloned() {
                    self.used = true;
                    let a = self.args(&d)?;
                    let mut lv = 0;
                    let mut body = vec![];
                    loop {
                        let Some(e) = self.q.pop_front() else { return Err(Stop) };
                        match e.0 {
                            T::CommandName(C::BeginEnvironment) => lv += 1,
                            T::CommandName(C::EndEnvironment) if lv == 0 => {
                                if e.1 != t.1 {
                                    self.q.push_front(e);
                                    return Err(Stop);
                                }
                                break;
                            }
                            T::CommandName(C::EndEnvironment) => lv -= 1,
                            _ => {}
                        }
                        body.push(e);
                    }
                    let mut v = self.subst(&d.def, &a);
                    v.extend(body);
                    let e = self.subst(&d.end, &a);
                    v.extend(e);
                    self.front(v);
                    return Ok(true);
                }
            }
            _ => {}
        }
        self.out.push(t);
        Ok(true)
    }
    fn run(s: &str) -> Ref {
        let mut r = Ref { q: names::lex(s, &spec()).into(), macros: HashMap::new(), out: vec![], open: None, steps: 0, used: false };
        while r.steps < BUDGET {
            r.steps += 1;
            match r.one() {
                Ok(true) => {}
                Ok(false) => break,
                Err(Stop) => r.undefined(),
            }
            if r.q.len() > 20000 || r.out.len() > 20000 {
                r.steps = BUDGET;
            }
        }
        r
    }
}
fn eq(a: &Tk, b: &Tk) -> bool {
    a == b
}
pub fn c07(c: &Case) -> Res {
    // n[0] words come first, so that the pieces meet the end of the page
    let s = "w ".repeat(c.n.first().copied().unwrap_or(0) as usize) + &c.s;
    let r = Ref::run(&s);
    if r.steps >= BUDGET {
        return Ok(false); // expands without end
    }
    let lim = r.out.len() + 3000;
    let (got, _) = engine(&s, lim);
    let n = r.open.unwrap_or(got.len().max(r.out.len()));
    for i in 0..n {
        match (got.get(i), r.out.get(i)) {
            (Some(a), Some(b)) if eq(a, b) => {}
            (a, b) => return Err(format!("token {i} is {a:?} and should be {b:?}; handed out: {:?}", got.iter().skip(i.saturating_sub(3)).take(12).map(|t| t.1.as_str()).collect::<Vec<_>>())),
        }
    }
    Ok(r.used)
}
const D7: &[&str] = &[
    "\\newcommand{\\x}{a}", "\\newcommand{\\x}[1]{#1}", "\\newcommand{\\x}[2]{#2-#1}", "\\newcommand{\\x}[1]{\\y{#1}#}", "\\newcommand{\\y}[1]{<#1>}",
    "\\newenvironment{e}[1]{B#1}{E#1}", "\\x", "\\y", "{ab}", "{", "}", "cde", " ", "\\begin{e}", "\\end{e}", "\\hat", "#", "é", "%c\n", "1",
];
const DEFTOK: &[&str] = &[
    "#1", "#2", "#3", "#9", "#0", "#1a", "#12", "##1", "##", "#", "# 1", "#a", "#é", "{#1}", "{a}", "{{}}", "{", "}", "a", " ", "\\x", "\\y", "\\z", "\\alpha",
    "é", "bc", "[", "]", "%\n", "\\begin{e}", "\\end{e}", "\\begin{m}", "\\end{m}", "1", "0", "\\}", "\\newcommand{\\w}{#1}", "\\w", "_", "$", "#2#1",
];
const USE: &[&str] = &[
    "\\x", "\\y", "\\z", "\\w", "{ab}", "{{a}b}", "{}", "{\\x}", "{\\y1}", "cd", "é", "αβγδ", " ", "\n", "%c\n", "[", "]", "1", "\\hat", "\\{", "$", "^", "&",
    "\\begin{e}", "\\end{e}", "\\begin{f}", "\\end{f}", "\\begin{m}", "\\end{m}", "{", "}", "#", "#1", "k", "lm", "\\\\",
];
fn rand_def(r: &mut Rng) -> String {
    let mut s = String::new();
    let kinds = ["\\newcommand", "\\newcommand", "\\newcommand*", "\\renewcommand", "\\providecommand", "\\DeclareRobustCommand", "\\newenvironment", "\\renewenvironment"];
    let k = kinds[r.below(kinds.len())];
    s.push_str(k);
    let env = k.ends_with("environment");
    if env {
        s.push_str(["{e}", "{f}", "{e}"][r.below(3)]);
    } else {
        let m = if r.below(8) == 0 { 8 } else { 4 };
        s.push_str(["{\\x}", "{\\y}", "{\\z}", "{\\x}", "{ \\x}", "{\\begin{a}}", "{x}", "\\x"][r.below(m)]);
    }
    match r.below(8) {
        0 | 1 => {}
        2 => s.push_str("[1][dd]"),
        3 => s.push_str("[3]"),
        4 => s.push_str(["[9]", "[0]", "[2][]", "[10]", "[a]", "[", "[2"][r.below(7)]),
        5 | 6 => s.push_str("[2]"),
        _ => s.push_str("[1]"),
    }
    for _ in 0..if env { 2 } else { 1 } {
        s.push('{');
        for _ in 0..r.below(6) {
            s.push_str(r.pick(DEFTOK));
        }
        s.push('}');
    }
    s
}
pub fn c07_cases(th: bool, seed: u64) -> Iter {
    chain(vec![
        list((0..5).map(|k| Case { s: "\\newcommand{\\x}[2]{#2 #1}\\x ab\\x{c}{d}".into(), n: vec![k] }).collect()),
        exhaustive(D7, if th { 4 } else { 3 }),
        from_fn(if th { 4_000_000 } else { 400_000 }, seed, |r, i| {
            let mut s = String::new();
            for _ in 0..1 + r.below(3) {
                s.push_str(&rand_def(r));
                if r.below(4) == 0 {
                    s.push_str(r.pick(USE));
                }
            }
            for _ in 0..1 + r.below(9) {
                s.push_str(r.pick(USE));
            }
            let n = match i % 20 {
                0 => 75 + r.below(15) as u64,
                1 => 155 + r.below(25) as u64,
                _ => 0,
            };
            Case { s, n: vec![n] }
        }),
    ])
}
// ------------------------------------------------------------------ C08
/// what is handed on: the kept tokens, a block of literal Typst code as its opener and \fi
fn taken(q: &mut VecDeque<Tk>, out: &mut Vec<Tk>, top: bool) -> Result<T, ()> {
    loop {
        let Some(t) = q.pop_front() else { return if top { Ok(T::Error) } else { Err(()) } };
        match t.0 {
            T::CommandName(C::Else | C::EndIf) if top => out.push(t),
            T::CommandName(C::Else | C::EndIf) => return Ok(t.0),
            T::CommandName(C::If(k)) => {
                let mut a = vec![];
                let mut b = vec![];
                let els = taken(q, &mut a, false)? == T::CommandName(C::Else);
                if els && taken(q, &mut b, false)? == T::CommandName(C::Else) {
                    return Err(()); // a second \else
                }
                match k {
                    F::IfTrue => out.extend(a),
                    F::IfFalse => out.extend(b),
                    F::IfTypst => {
                        out.push(t);
                        out.extend(a);
                        out.push((T::CommandName(C::EndIf), "\\fi".into()));
                    }
                    _ => {
                        out.push(t);
                        out.extend(a);
                        if els {
                            out.push((T::CommandName(C::Else), "\\else".into()));
                            out.extend(b);
                        }
                        out.push((T::CommandName(C::EndIf), "\\fi".into()));
                    }
                }
            }
            _ => out.push(t),
        }
    }
}
/// takes the blocks away that the parser drops as comments
fn strip_comments(v: Vec<Tk>) -> Vec<Tk> {
    let mut out = vec![];
    let mut nest: Option<usize> = None;
    for t in v {
        match (nest, t.0) {
            (None, T::CommandName(C::If(F::IfFalse))) => nest = Some(0),
            (None, _) => out.push(t),
            (Some(n), T::CommandName(C::If(_))) => nest = Some(n + 1),
            (Some(0), T::CommandName(C::EndIf)) => nest = None,
            (Some(n), T::CommandName(C::EndIf)) => nest = Some(n - 1),
            _ => {}
        }
    }
    out
}
/// definitions and uses that a skipped branch must hide are compared by their effect
pub fn c08(c: &Case) -> Res {
    let s = "w ".repeat(c.n.first().copied().unwrap_or(0) as usize) + &c.s;
    let toks = names::lex(&s, &spec());
    let cond = toks.iter().any(|t| matches!(t.0, T::CommandName(C::If(_))));
    let (got, over) = engine(&s, 20 * toks.len() + 100);
    if over {
        return Err("more tokens than the input explains".into());
    }
    let mut want = vec![];
    if taken(&mut toks.into(), &mut want, true).is_err() {
        return Ok(false); // an open conditional or a second \else: only that it ends
    }
    // the macro \m{..} of the cases: a definition that is kept changes what follows
    let mut r = Ref { q: want.into(), macros: HashMap::new(), out: vec![], open: None, steps: 0, used: false };
    let want = loop {
        let f = r.q.front().map(|t| t.0);
        match f {
            Some(T::CommandName(C::If(_) | C::Else | C::EndIf)) => {
                let t = r.q.pop_front().unwrap();
                r.out.push(t);
                continue;
            }
            _ => {}
        }
        match r.one() {
            Ok(true) => {}
            Ok(false) => break std::mem::take(&mut r.out),
            Err(Stop) => return Ok(false),
        }
        r.steps += 1;
        if r.steps > 5000 {
            return Ok(false);
        }
    };
    if r.open.is_some() {
        return Ok(false);
    }
    let got = strip_comments(got);
    if got != want {
        let i = (0..).find(|&i| got.get(i) != want.get(i)).unwrap();
        return Err(format!("token {i} is {:?} and should be {:?}", got.get(i), want.get(i)));
    }
    // and through the parser; what is in literal Typst code is not read by it
    let nested = want.iter().scan(0, |d, t| { match t.0 { T::CommandName(C::If(F::IfTypst)) => *d = 1, T::CommandName(C::EndIf) => *d = 0, _ => {} } Some((*d, t.0)) })
        .any(|(d, t)| d == 1 && matches!(t, T::CommandName(C::If(k)) if k != F::IfTypst)) || s.matches("\\iftypst").count() > 0 && s.matches("\\if").count() > 1;
    if !nested {
        let t = mitex_parser::parse(&s, spec());
        let text = |t: &mitex_parser::syntax::SyntaxNode| -> String {
            t.descendants_with_tokens()
                .filter_map(|e| e.into_token())
                .filter(|t| !t.parent_ancestors().any(|p| p.kind() == mitex_parser::syntax::SyntaxKind::ItemBlockComment))
                .filter(|t| !t.text().trim().is_empty() && !t.text().starts_with('%'))
                .map(|t| t.text().to_string())
                .collect()
        };
        let mut w = String::new();
        let mut typst: Option<usize> = None;
        for t in &want {
            match (typst, t.0) {
                (None, T::CommandName(C::If(F::IfTypst))) => typst = Some(0),
                (Some(n), T::CommandName(C::If(_))) => {
                    typst = Some(n + 1);
                    w += &t.1
                }
                (Some(0), T::CommandName(C::EndIf)) => typst = None,
                (Some(n), T::CommandName(C::EndIf)) => {
                    typst = Some(n - 1);
                    w += &t.1
                }
                _ if t.0.is_trivia() => {}
                _ => w += &t.1,
            }
        }
        let g = text(&t);
        if g != w {
            return Err(format!("the document has {g:?} and should have {w:?}"));
        }
    }
    Ok(cond)
}
const D8: &[&str] = &[
    "\\iffalse", "\\iftrue", "\\iftypst", "\\ifx", "\\else", "\\fi", "a", " ", "{", "}", "\\alpha",
];
const D8M: &[&str] = &["\\newcommand{\\m}{k}", "\\m", "\\iffalse", "\\iftrue", "\\else", "\\fi", "b", "\\newcommand{\\q}[1]{(#1)}", "\\q", "\\iftypst", "{c}", "\\ifnum"];
/// a balanced nest of conditionals
fn nest(r: &mut Rng, d: usize, s: &mut String) {
    for _ in 0..r.below(4) {
        if d > 0 && r.below(2) == 0 {
            s.push_str(["\\iffalse ", "\\iftrue ", "\\iftypst ", "\\ifx ", "\\ifhbox ", "\\if ", "\\@ifstar "][r.below(7)]);
            nest(r, d - 1, s);
            if r.below(2) == 0 {
                s.push_str("\\else ");
                nest(r, d - 1, s);
            }
            s.push_str("\\fi ");
        } else {
            s.push_str(["a", "b ", "c", "{d}", "\\alpha ", "$", "\\begin{matrix}", "&", "\\m ", "\\newcommand{\\m}{k}", "^", "%\n"][r.below(12)]);
        }
    }
}
pub fn c08_cases(th: bool, seed: u64) -> Iter {
    let pages = |it: Iter| -> Iter {
        Box::new(it.flat_map(|c| (0..16u64).map(move |k| Case { s: c.s.clone(), n: vec![if k < 8 { 78 + k } else { 160 + k }] })))
    };
    chain(vec![
        exhaustive(D8, if th { 6 } else { 5 }),
        exhaustive(D8M, if th { 5 } else { 4 }),
        from_fn(if th { 2_000_000 } else { 200_000 }, seed, |r, i| {
            let mut s = String::new();
            nest(r, 4, &mut s);
            let n = match i % 10 {
                0 => 70 + r.below(20) as u64,
                1 => 150 + r.below(30) as u64,
                _ => 0,
            };
            Case { s, n: vec![n] }
        }),
        pages(from_fn(if th { 4000 } else { 600 }, seed + 3, |r, _| {
            let mut s = String::new();
            nest(r, 3, &mut s);
            Case::s(s)
        })),
        random(D8, 6, 30, if th { 1_000_000 } else { 100_000 }, seed + 1),
    ])
}
// ------------------------------------------------------------------ C09
pub fn c09(c: &Case) -> Res {
    let s = c.s.repeat(c.n.first().copied().unwrap_or(1) as usize);
    let plain: Vec<Tk> = super::lex::raw_with(&s, spec());
    let macros = plain.iter().any(|t| match t.0 {
        T::CommandName(C::If(_)) => true,
        T::CommandName(C::Generic) => DECL.contains(&&t.1[1..]),
        _ => false,
    });
    if macros {
        return Ok(false);
    }
    let (got, _) = engine(&s, plain.len() + 10);
    if got != plain {
        let i = (0..).find(|&i| got.get(i) != plain.get(i)).unwrap();
        return Err(format!("token {i} is {:?} and without macros {:?}", got.get(i), plain.get(i)));
    }
    let a = mitex_parser::parse(&s, spec());
    let b = mitex_parser::parse_without_macro(&s, spec());
    if a.green() != b.green() {
        return Err("the two trees differ".into());
    }
    Ok(plain.len() > 1)
}
const D9: &[&str] = &[
    "a", "bc", "{", "}", "[", "]", "(", ")", "\\else", "\\fi", "\\alpha", "\\frac", "\\begin{matrix}", "\\end{matrix}", "\\begin{newcommand}", "#", "#1", "$", "&",
    "\\\\", "^", "_", " ", "\n", "%c\n", "\\AtEndOfClass", "\\mitexrecurse", "\\left", "\\right", "\\limits", "\\begin", "\\[", "\\]", "é", "\\displaystyle", "\\sqrt",
    "\\sum", "\\over", "'", "\\", "\\ ", "\\text", "\\DeclareTextCommand", "\\begin{itemize}", "\\item", "~",
];
pub fn c09_cases(th: bool, seed: u64) -> Iter {
    let rep = |it: Iter| -> Iter { Box::new(it.flat_map(|c| [84u64, 85, 86, 168, 169, 170, 171, 172, 338, 340, 341].into_iter().map(move |k| Case { s: c.s.clone(), n: vec![k] }))) };
    chain(vec![
        exhaustive(D9, if th { 3 } else { 2 }),
        random(D9, 3, 20, if th { 1_500_000 } else { 150_000 }, seed),
        rep(exhaustive(D9, 1)),
        random(D9, 160, 190, if th { 60_000 } else { 6_000 }, seed + 1),
        random(D9, 330, 360, if th { 30_000 } else { 3_000 }, seed + 2),
        random(D9, 500, 1200, if th { 10_000 } else { 600 }, seed + 3),
    ])
}
