//! C13 to C16: the converter
use super::tree;
use crate::gen::*;
use crate::{Case, Res};
use mitex_parser::syntax::SyntaxKind as K;
use mitex_parser::syntax::*;
use mitex_spec::preludes::command::*;
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature as F, EnvShape};
use rowan::ast::AstNode;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// 0: the default specification, 1: that of the tree checks, 2: the default one with own commands of every shape and
/// environments of every feature, and `\color` and `\displaystyle` as symbols; 3: as 2 and `\alpha`, `matrix` are unknown
pub fn spec_of(n: u64) -> CommandSpec {
    static S: OnceLock<[CommandSpec; 2]> = OnceLock::new();
    if n < 2 {
        return tree::spec_of(n);
    }
    S.get_or_init(|| {
        let make = |lack: &[&str]| {
            let mut b = SpecBuilder::default();
            for (k, v) in super::lex::spec().items() {
                if !lack.contains(&k) {
                    b.add_command(k, v.clone());
                }
            }
            let right = |p, a: Option<&str>| CommandSpecItem::Cmd(CmdShape { args: ArgShape::Right { pattern: p }, alias: a.map(|s| s.into()) });
            let env = |p, f, a: Option<&str>| CommandSpecItem::Env(EnvShape { args: p, ctx_feature: f, alias: a.map(|s| s.into()) });
            b.add_command("color", TEX_SYMBOL);
            b.add_command("displaystyle", TEX_SYMBOL);
            b.add_command("vone", right(ArgPattern::FixedLenTerm { len: 1 }, None));
            b.add_command("vtwo", right(ArgPattern::FixedLenTerm { len: 2 }, Some("#vtwo")));
            b.add_command("vopt", right(ArgPattern::Glob { pattern: "{,b}t".into() }, Some("vx")));
            b.add_command("vrange", right(ArgPattern::RangeLenTerm { min: 0, max: 2 }, None));
            // the name that the converter knows, as alias of another command and without it
            b.add_command("vsub", right(ArgPattern::FixedLenTerm { len: 1 }, Some("substack")));
            b.add_command("vsubs", right(ArgPattern::FixedLenTerm { len: 2 }, Some("substack")));
            b.add_command("substack", right(ArgPattern::FixedLenTerm { len: 1 }, Some("stk")));
            b.add_command("vgre", TEX_GREEDY_OPERATOR);
            b.add_command("vinf", TEX_INFIX_OPERATOR);
            b.add_command("vlone", TEX_LEFT1_OPEARTOR);
            for (n, f) in FEATURES {
                b.add_command(&format!("v{n}"), env(ArgPattern::None, f.clone(), None));
                b.add_command(&format!("w{n}"), env(ArgPattern::FixedLenTerm { len: 1 }, f.clone(), Some("ali")));
            }
            b.build()
        };
        [make(&[]), make(&["alpha", "matrix", "textbf", "itemize"])]
    })[n as usize - 2]
        .clone()
}
const FEATURES: &[(&str, F)] = &[
    ("none", F::None),
    ("math", F::IsMath),
    ("matrix", F::IsMatrix),
    ("cases", F::IsCases),
    ("figure", F::IsFigure),
    ("table", F::IsTable),
    ("itemize", F::IsItemize),
    ("enumerate", F::IsEnumerate),
];
fn convert(src: &str, math: bool, sp: u64) -> Result<String, String> {
    let s = if sp == 0 { None } else { Some(spec_of(sp)) };
    if math { mitex::convert_math(src, s) } else { mitex::convert_text(src, s) }
}
/// the names of the default specification by shape; names with letters only
pub struct Names {
    sym: Vec<String>,
    fixed: Vec<(String, u8)>,
    opt: Vec<String>,
    other: Vec<String>,
    env: Vec<(String, EnvShape)>,
}
pub fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| {
        let sp = super::lex::spec();
        let all: BTreeMap<String, CommandSpecItem> = sp.items().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let mut n = Names { sym: vec![], fixed: vec![], opt: vec![], other: vec![], env: vec![] };
        for (k, v) in all {
            // (not what the macro engine reads)
            let engine = k.starts_with("if") || ["newcommand", "newenv", "providecommand", "def", "Declare"].iter().any(|e| k.contains(e)) || ["fi", "else", "let"].contains(&k.as_str());
            if engine {
                continue;
            }
            let word = k.chars().all(|c| c.is_ascii_alphabetic());
            let special = ["item", "label", "includegraphics", "color", "textcolor", "colorbox", "caption", "centering", "begin", "end", "left", "right", "substack"];
            match v {
                CommandSpecItem::Cmd(c) if word && !special.contains(&k.as_str()) => match c.args {
                    ArgShape::Right { pattern: ArgPattern::None | ArgPattern::FixedLenTerm { len: 0 } } => n.sym.push(k),
                    ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => n.fixed.push((k, len)),
                    ArgShape::Right { pattern: ArgPattern::Glob { pattern } } if ["{,b}t"].contains(&&*pattern.0) => n.opt.push(k),
                    _ => n.other.push(k),
                },
                CommandSpecItem::Cmd(_) => n.other.push(k),
                CommandSpecItem::Env(e) => n.env.push((k, e)),
            }
        }
        n
    })
}
fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    r.pick(v)
}
#[derive(Clone, Copy, PartialEq)]
enum Cx {
    Text,
    Math,
}
const W: &[&str] = &["a", "bc", "x", "n1", "é", "Zz"];
const PT: &[&str] = &["'", ",", "/", "#", "*", "@", "\"", ";", "(", ")", "~", "&", "\\\\", ".", "-", "%c\n", "\n", " "];
/// well-formed pieces of a document; every command has all its arguments
fn piece(r: &mut Rng, cx: Cx, d: usize) -> String {
    let leaf = d == 0;
    match r.below(if leaf { 4 } else { 24 }) {
        0 | 1 => format!("{} ", pick(r, W)),
        2 => format!("{}{}", pick(r, PT), pick(r, &["", " ", "\n"])),
        3 => format!("\\{} ", pick(r, &names().sym)),
        4 => format!("{{{}}}", body(r, cx, d)),
        5 | 6 => {
            let (a, b) = if cx == Cx::Text { *pick(r, &[("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")]) } else { *pick(r, &[("\\(", "\\)"), ("\\[", "\\]")]) };
            format!("{a}{}{b}", body(r, Cx::Math, d))
        }
        7 => {
            let k = pick(r, &["itemize", "enumerate"]);
            let mut s = format!("\\begin{{{k}}}");
            for _ in 0..1 + r.below(3) {
                s += &format!("{}\\item {}", pick(r, &["", "\n", " "]), body(r, cx, d));
            }
            format!("{s}\\end{{{k}}}")
        }
        8 => {
            let k = pick(r, &["quote", "abstract"]);
            format!("\\begin{{{k}}}{}\\end{{{k}}}", body(r, cx, d))
        }
        9 => format!(
            "\\begin{{figure}}{}{}{}\\end{{figure}}",
            body(r, cx, d),
            if r.below(2) == 0 { format!("\\caption{{{}}}", body(r, cx, d)) } else { String::new() },
            pick(r, &["", "\\centering ", "\\includegraphics[width=3cm]{p}"])
        ),
        10 => {
            let mut s = format!("\\begin{{tabular}}{{{}}}", pick(r, &["c", "|l|r|", "lcr"]));
            for _ in 0..1 + r.below(4) {
                s += &body(r, cx, d);
                s += pick(r, &["&", "\\\\", "\\\\ \\hline ", " "]);
            }
            s + "\\end{tabular}"
        }
        11 | 12 | 13 => {
            let k = pick(r, &["matrix", "pmatrix", "cases", "aligned", "align", "gather", "vmatrix", "equation"]);
            format!("\\begin{{{k}}}{}{}{}\\end{{{k}}}", body(r, Cx::Math, d), pick(r, &["", "&", "\\\\"]), body(r, Cx::Math, d))
        }
        14 => format!("\\frac{{{}}}{{{}}}", body(r, cx, d), body(r, cx, d)),
        15 => format!("\\sqrt{}{{{}}}", pick(r, &["", "[3]", "[n]"]), body(r, cx, d)),
        16 => format!("a{}{{{}}}", pick(r, &["_", "^"]), body(r, cx, d)),
        17 => format!("\\left({}\\right)", body(r, Cx::Math, d)),
        18 => format!("\\text{{{}}}", body(r, cx, d)),
        19 => format!("{{\\displaystyle {}}}", body(r, cx, d)),
        20 => format!("{{{} \\over {}}}", body(r, cx, d), body(r, cx, d)),
        21 => format!("\\substack{{{}\\\\{}}}", body(r, cx, d), body(r, cx, d)),
        22 => match r.below(4) {
            0 => format!("\\{}{{{}}}", pick(r, &["textbf", "textit", "mathbb", "section", "hat"]), body(r, cx, d)),
            1 => format!("\\textcolor{{red}}{{{}}}", body(r, cx, d)),
            2 => format!("{{\\color{{red}} {}}}", body(r, cx, d)),
            _ => format!("{{{}\\limits_{{{}}}}}", pick(r, &["\\sum", "a", "{x}"]), body(r, cx, d)),
        },
        _ => {
            let n = names();
            let (k, len) = pick(r, &n.fixed).clone();
            let mut s = format!("\\{k}");
            for _ in 0..len {
                s += &format!("{{{}}}", body(r, cx, d));
            }
            if r.below(3) == 0 && !n.opt.is_empty() {
                s = format!("\\{}{}{{{}}}", pick(r, &n.opt), pick(r, &["", "[z]"]), body(r, cx, d));
            }
            s
        }
    }
}
fn body(r: &mut Rng, cx: Cx, d: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(3) + 1 {
        s += &piece(r, cx, d.saturating_sub(1));
    }
    s
}
/// a document with holes: a well-formed context around `inner`, and the mode inside it
fn context(r: &mut Rng, cx: Cx, d: usize, inner: &mut dyn FnMut(&mut Rng, Cx) -> String) -> String {
    if d == 0 {
        return inner(r, cx);
    }
    let math = |r: &mut Rng, inner: &mut dyn FnMut(&mut Rng, Cx) -> String| context(r, Cx::Math, d - 1, inner);
    let s = match r.below(20) {
        0 => format!("{{{}}}", context(r, cx, d - 1, inner)),
        1 if cx == Cx::Text => format!("${}$", math(r, inner)),
        2 if cx == Cx::Text => format!("$${}$$", math(r, inner)),
        3 => format!("\\({}\\)", math(r, inner)),
        1 | 2 => format!("\\[{}\\]", math(r, inner)),
        4 | 5 => {
            let k = *pick(r, &["itemize", "enumerate"]);
            format!("\\begin{{{k}}}\\item a {}\n\\item {}\\end{{{k}}}", context(r, cx, d - 1, inner), pick(r, W))
        }
        6 => {
            let k = *pick(r, &["quote", "abstract"]);
            format!("\\begin{{{k}}}{} b\\end{{{k}}}", context(r, cx, d - 1, inner))
        }
        7 => format!("\\begin{{figure}}a {}\\caption{{c}}\\end{{figure}}", context(r, cx, d - 1, inner)),
        8 => format!("\\begin{{figure}}a \\caption{{{}}}\\end{{figure}}", context(r, cx, d - 1, inner)),
        9 => format!("\\begin{{tabular}}{{lc}}a & {} \\\\ b & c\\\\\\end{{tabular}}", context(r, cx, d - 1, inner)),
        10..=13 => {
            let k = *pick(r, &["matrix", "pmatrix", "cases", "aligned", "align", "gather", "equation"]);
            format!("\\begin{{{k}}}a & {} \\\\ b & c\\end{{{k}}}", math(r, inner))
        }
        14 => format!("\\frac{{a}}{{{}}}", context(r, cx, d - 1, inner)),
        15 => format!("\\{}{{{}}}", *pick(r, &["textbf", "textit", "sqrt", "hat", "text", "section"]), context(r, cx, d - 1, inner)),
        16 => format!("a{}{{{}}}", *pick(r, &["_", "^"]), context(r, cx, d - 1, inner)),
        17 => format!("\\left( {} \\right]", context(r, cx, d - 1, inner)),
        18 => format!("\\substack{{a \\\\ {}}}", context(r, cx, d - 1, inner)),
        _ => match r.below(4) {
            0 => format!("{{\\displaystyle {}}}", context(r, cx, d - 1, inner)),
            1 => format!("{{a \\over {}}}", context(r, cx, d - 1, inner)),
            2 => format!("\\textcolor{{red}}{{{}}}", context(r, cx, d - 1, inner)),
            _ => format!("{{\\color{{red}} {}}}", context(r, cx, d - 1, inner)),
        },
    };
    match r.below(4) {
        0 => format!("{} {s}", pick(r, W)),
        1 => format!("{s} {}", pick(r, W)),
        _ => s,
    }
}

// C13: the case is the two documents, with and without X, separated by NUL
const OM: &str = "OMEGAQZ";
fn tail(out: &str) -> Option<String> {
    let sp: String = OM.chars().map(|c| format!("{c} ")).collect();
    let i = out.rfind(OM).max(out.rfind(&sp))?;
    Some(out[i..].to_string())
}
pub fn c13(c: &Case) -> Res {
    let (with, without) = c.s.split_once('\u{0}').unwrap_or((&c.s, &c.s));
    let math = c.n.first() == Some(&1);
    let sp = c.n.get(1).copied().unwrap_or(0);
    let (Ok(a), Ok(b)) = (convert(with, math, sp), convert(without, math, sp)) else { return Ok(false) };
    if tail(&a) != tail(&b) {
        return Err(format!("what follows the construct is {:?} after it and {:?} without it, in {with:?}", tail(&a), tail(&b)));
    }
    Ok(true)
}
pub fn c13_cases(th: bool, seed: u64) -> Iter {
    let probe = "w & \\\\ ~ {u \\\\ v & \\substack{a \\\\ b}} \n z";
    from_fn(if th { 3_000_000 } else { 150_000 }, seed, move |r, _| {
        let top = if r.below(3) == 0 { Cx::Math } else { Cx::Text };
        let d = r.below(4);
        let s0 = context(r, top, d, &mut |r, cx| {
            let mut x = String::new();
            for _ in 0..1 + r.below(2) {
                let k = r.below(3);
                // a bare mark ends the scope of \color, \displaystyle and \over around it
                let p = piece(r, cx, k);
                x += if p.starts_with('&') || p.starts_with("\\\\") { "x" } else { &p };
            }
            if r.below(8) == 0 {
                x = own_piece(r);
            }
            let item = pick(r, &["", "", "\\item q"]);
            let f = pick(r, &["", "$y \\\\ y$", "\\(y ~\\)"]);
            let f = if cx == Cx::Math && f.starts_with('$') { "\\(y\\)" } else { f };
            format!("w \u{1}{x} \u{2}{OM} {probe} {f} {item}")
        });
        let (a, rest) = s0.split_once('\u{1}').unwrap();
        let (x, rest) = rest.split_once('\u{2}').unwrap();
        // a label is kept for the environment around it
        let sp = if x.contains("\\v") || x.contains("\\w") || x.contains("{v") || x.contains("{w") { 2 } else { 0 };
        Case { s: format!("{a}{x}{rest}\u{0}{a}{rest}"), n: vec![(top == Cx::Math) as u64, sp] }
    })
}
fn own_piece(r: &mut Rng) -> String {
    let (n, _) = *pick(r, FEATURES);
    let it = if n.contains("ize") || n.contains("enum") { "\\item " } else { "" };
    match r.below(8) {
        5 => format!("\\vsub{{{}}}", body(r, Cx::Math, 1)),
        6 => format!("\\vsubs{{{}}}{{{}}}", body(r, Cx::Math, 1), body(r, Cx::Math, 1)),
        7 => format!("\\vone{{a}}\\substack{{{}}}", body(r, Cx::Math, 1)),
        0 => format!("\\begin{{v{n}}}{it}{}\\end{{v{n}}}", body(r, Cx::Math, 1)),
        1 => format!("\\begin{{w{n}}}{{c}}{it}{}\\end{{w{n}}}", body(r, Cx::Text, 1)),
        2 => format!("\\vtwo{{{}}}{{{}}}", body(r, Cx::Math, 1), body(r, Cx::Text, 1)),
        3 => format!("{{\\vgre {} }}", body(r, Cx::Math, 1)),
        _ => format!("\\vopt[{}]{{{}}}", pick(r, W), body(r, Cx::Math, 1)),
    }
}

// C14: runs of leaves between two markers
#[derive(Clone, Copy, PartialEq, Debug)]
enum Env {
    None,
    Matrix,
    Cases,
    Group,
    Sub,
    Other,
    TableTop,
}
struct Doc {
    r: Rng,
    runs: Vec<(usize, bool, String, bool)>, // number, math, expected text, exact
}
fn mark(i: usize, math: bool, end: bool) -> String {
    let s = format!("Q{}{}Q", if end { 'E' } else { 'S' }, i.to_string().chars().map(|c| (b'A' + c as u8 - b'0') as char).collect::<String>());
    if math { s.chars().map(|c| format!("{c} ")).collect() } else { s }
}
impl Doc {
    /// leaves: source and what is written for it; true if there is a blank
    fn leaves(&mut self, math: bool, env: Env, d: usize) -> (String, String, bool) {
        let (mut src, mut out, mut blank) = (String::new(), String::new(), false);
        let n = 1 + self.r.below(5);
        let blanks = self.r.below(3) == 0;
        for _ in 0..n {
            let k = self.r.below(40);
            let (s, o): (String, String) = match k {
                0..=7 => {
                    let w = *pick(&mut self.r, &["a", "bc", "xyz", "é", "n12", "!?", "a-b", "Ω", "|", "<p>", "`", "0.5", ":=", "aé日b"]);
                    let o = if math { w.chars().map(|c| format!("{c} ")).collect() } else { w.to_string() };
                    // words that touch are one word: the same text
                    (w.into(), o)
                }
                8 | 9 => {
                    if math || !self.r.below(2) == 0 {
                        (",".into(), "\\,".into())
                    } else {
                        ("'".into(), "'".into())
                    }
                }
                10 => (",".into(), "\\,".into()),
                11 => ("/".into(), "\\/".into()),
                12 => ("#".into(), "\\#".into()),
                13 => ("*".into(), "\\*".into()),
                14 => ("@".into(), "\\@".into()),
                15 => ("\"".into(), "\\\"".into()),
                16 => (";".into(), "\\;".into()),
                17 => ("(".into(), "\\(".into()),
                18 => (")".into(), "\\)".into()),
                19 => ("[".into(), "\\[".into()),
                20 => ("]".into(), "\\]".into()),
                21 | 22 => ("~".into(), if math { "space.nobreak " } else { "\\~" }.into()),
                23..=25 if env != Env::TableTop => ("&".into(), if env == Env::Matrix { "zws ," } else { "&" }.into()),
                26..=28 if env != Env::TableTop => (
                    "\\\\".into(),
                    match env {
                        Env::Matrix => "zws ;",
                        Env::Cases => ",",
                        Env::Group => "",
                        _ => "\\ ",
                    }
                    .into(),
                ),
                29 if blanks => {
                    blank = true;
                    (pick(&mut self.r, &[" ", "\n", "\n\n", "  "]).to_string(), " ".into())
                }
                30 if blanks => {
                    blank = true;
                    (format!("%c {}{{\n", pick(&mut self.r, &["", "\\x", "$", "}"])), " ".into())
                }
                31 => ("%comment \\y { $\n".into(), "\n".into()),
                32..=34 if d > 0 => {
                    let e = if math && env != Env::Sub { Env::Group } else if env == Env::TableTop { Env::Other } else { env };
                    let (s, o, b) = self.leaves(math, e, d - 1);
                    blank |= b;
                    // (an empty one has a mark of its own in math)
                    if math { (format!("{{a{s}}}"), format!("a {o}")) } else { (format!("{{{s}}}"), o) }
                }
                35 | 36 if d > 0 && math => {
                    let (a, z) = *pick(&mut self.r, &[("\\(", "\\)"), ("\\[", "\\]")]);
                    let e = if env == Env::TableTop { Env::Other } else { env };
                    let (s, o, b) = self.leaves(math, e, d - 1);
                    blank |= b;
                    (format!("{a}{s}{z}"), o)
                }
                _ => ("a".into(), if math { "a " } else { "a" }.into()),
            };
            blank |= s.contains('\n');
            src += &s;
            // an empty math group (with comments only it is not empty)
            out += &o;
        }
        (src, out, blank)
    }
    fn run(&mut self, math: bool, env: Env) -> String {
        let i = self.runs.len();
        let (s, o, blank) = self.leaves(math, env, 2);
        self.runs.push((i, math, format!("{}{o}{}", mark(i, math, false), mark(i, math, true)), !blank));
        format!("{}{s}{}", mark(i, false, false), mark(i, false, true))
    }
    fn tree(&mut self, math: bool, env: Env, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.r.below(2) {
            s += &self.run(math, env);
            if d == 0 {
                continue;
            }
            let inner_env = if env == Env::TableTop { Env::Other } else { env };
            s += &match self.r.below(15) {
                0 => format!("{{{}}}", self.tree(math, if math && env != Env::Sub { Env::Group } else { inner_env }, d - 1)),
                1 | 2 if !math => {
                    let (a, z) = *pick(&mut self.r, &[("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")]);
                    format!("{a}{}{z}", self.tree(true, inner_env, d - 1))
                }
                1 | 2 => format!("\\({}\\)", self.tree(true, inner_env, d - 1)),
                3 => {
                    let k = *pick(&mut self.r, &["itemize", "enumerate"]);
                    format!("\\begin{{{k}}}\\item {}\\item {}\\end{{{k}}}", self.tree(math, Env::Other, d - 1), self.tree(math, Env::Other, d - 1))
                }
                4 => format!("\\begin{{quote}}{}\\end{{quote}}", self.tree(math, Env::Other, d - 1)),
                5 => format!("\\begin{{figure}}{}\\end{{figure}}", self.tree(math, Env::Other, d - 1)),
                6 => format!("\\begin{{tabular}}{{cc}}{} & {}\\\\\\end{{tabular}}", self.tree(math, Env::TableTop, d - 1), self.tree(math, Env::TableTop, d - 1)),
                7 | 8 => {
                    let k = *pick(&mut self.r, &["matrix", "pmatrix", "vmatrix", "bmatrix"]);
                    format!("\\begin{{{k}}}{}\\end{{{k}}}", self.tree(true, Env::Matrix, d - 1))
                }
                9 => format!("\\begin{{cases}}{}\\end{{cases}}", self.tree(true, Env::Cases, d - 1)),
                10 => {
                    let k = *pick(&mut self.r, &["aligned", "align", "gather", "equation"]);
                    format!("\\begin{{{k}}}{}\\end{{{k}}}", self.tree(true, Env::Other, d - 1))
                }
                11 if !math => format!("\\{}{{{}}}", *pick(&mut self.r, &["textbf", "textit", "section"]), self.tree(math, inner_env, d - 1)),
                11 => format!("\\sqrt{{{}}}", self.tree(math, if env == Env::Sub { env } else { Env::Group }, d - 1)),
                12 if math => format!("\\left({}\\right)", self.tree(math, inner_env, d - 1)),
                14 if math => format!("\\text{{{}}}", self.tree(false, inner_env, d - 1)),
                13 if math => format!("\\substack{{{}}}", self.tree(math, Env::Sub, d - 1)),
                _ => String::new(),
            };
        }
        s
    }
}
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// the case's number makes the document (kept with it so that a replay can be read)
fn c14_doc(seed: u64, math: bool) -> Doc2 {
    let mut d = Doc { r: Rng::new(seed), runs: vec![] };
    let depth = d.r.below(4);
    let src = d.tree(math, Env::None, depth);
    Doc2 { src, runs: d.runs }
}
struct Doc2 {
    src: String,
    runs: Vec<(usize, bool, String, bool)>,
}
pub fn c14(c: &Case) -> Res {
    if c.n.len() == 3 {
        return c14_one(c);
    }
    if c.n.len() == 4 {
        return c14_whole(c);
    }
    let math = c.n[1] == 1;
    let d = c14_doc(c.n[0], math);
    // (the text of the case is only for the reader)
    let out = convert(&d.src, math, 0).map_err(|e| format!("not converted: {e}: {:?}", d.src))?;
    for (i, m, want, exact) in &d.runs {
        let (a, z) = (mark(*i, *m, false), mark(*i, *m, true));
        let (Some(p), Some(q)) = (out.find(&a), out.find(&z)) else {
            return Err(format!("a word of the document is not in the output as {a:?}: {:?} gives {out:?}", d.src));
        };
        let got = &out[p..(q + z.len()).max(p)];
        let same = if *exact { got == want } else { squeeze(got) == squeeze(want) };
        if !same {
            return Err(format!("{got:?} is written instead of {want:?} in {:?}", d.src));
        }
    }
    // the delimiters of formulas in text are not written
    if ["\\(Q S", "\\[Q S", "$$Q S", "Q $$"].iter().any(|s| out.contains(s)) {
        return Err(format!("a delimiter of a formula is written: {:?} gives {out:?}", d.src));
    }
    Ok(true)
}
/// one word with a given character, alone
fn c14_one(c: &Case) -> Res {
    let math = c.n[1] == 1;
    let out = convert(&c.s, math, 0).map_err(|e| format!("not converted: {e}"))?;
    let want = if math { c.s.chars().map(|c| format!("{c} ")).collect() } else { c.s.clone() };
    if out != want {
        return Err(format!("{:?} is written as {out:?} and not as {want:?}", c.s));
    }
    Ok(true)
}
pub fn c14_cases(th: bool, seed: u64) -> Iter {
    // every character of the first planes that makes a word
    let chars = (0u32..0x3000).chain([0xD7FF, 0xE000, 0xFFFD, 0x1F600, 0x10FFFF]).filter_map(char::from_u32).filter(|c| {
        !c.is_whitespace() && !c.is_control() && !"{}[](),~/&^'\";#*@_$\\%!`\u{feff}".contains(*c) || *c == '!'
    });
    let words = chars.flat_map(|c| [0u64, 1].map(|m| Case { s: format!("{c}{c}a"), n: vec![0, m, 1] }));
    chain(vec![
        Box::new(words),
        from_fn(if th { 2_000_000 } else { 120_000 }, seed, move |r, _| {
            let s = r.next();
            let m = r.below(3) == 0;
            Case { s: c14_doc(s, m).src, n: vec![s, m as u64] }
        }),
        from_fn(if th { 6_000_000 } else { 500_000 }, seed ^ 77, move |r, _| {
            let cx = if r.below(3) == 0 { Cx::Math } else { Cx::Text };
            let mut s = String::new();
            match r.below(8) {
                0 => {
                    let k = 1 + r.below(4);
                    s = soup(r, k).s;
                }
                1 => s = own_piece(r),
                2 | 3 => s = context(r, cx, 3, &mut |r, cx| special(r, cx, 2)),
                _ => {
                    for _ in 0..1 + r.below(3) {
                        s += &special(r, cx, 2);
                    }
                }
            }
            let sp = if s.contains("\\v") || s.contains("\\w") || s.contains("{v") || s.contains("{w") { 2 } else { *pick(r, &[0, 0, 0, 2]) };
            Case { s, n: vec![0, (cx == Cx::Math) as u64, sp, 0] }
        }),
    ])
}
/// pieces of what the converter itself implements, in all their variants
fn special(r: &mut Rng, cx: Cx, d: usize) -> String {
    let gap = *pick(r, &["", "", " ", "\n", "\n  ", "%c\n"]);
    let b = if d == 0 { pick(r, W).to_string() } else if r.below(2) == 0 { body(r, cx, d - 1) } else { special(r, cx, d - 1) };
    let s = match r.below(16) {
        0 => format!("\\label{}{{{}}}", gap.trim_end_matches("%c\n"), pick(r, &["a", " b ", "eq:1", "", "{c}"])),
        1 => {
            let k = *pick(r, &["equation", "figure", "align", "quote", "itemize", "matrix", "cases", "enumerate"]);
            let it = if k == "itemize" || k == "enumerate" { "\\item " } else { "" };
            format!("\\begin{{{k}}}{it}{b}\\label{{{}}}{}\\end{{{k}}}", pick(r, &["l", "m"]), pick(r, &["", "\\label{n}", " x"]))
        }
        2 | 3 => {
            let mut o = vec![];
            for _ in 0..r.below(4) {
                let v = *pick(r, &["3cm", "0.5\\textwidth", "\\textheight", "2\\textheight", "", "a=b", " 1 "]);
                o.push(format!("{}{}{v}", pick(r, &["width", "height", " width ", "angle", "scale"]), pick(r, &["=", " = ", ""])));
            }
            let o = if r.below(4) == 0 { String::new() } else { format!("[{}{}]", o.join(","), pick(r, &["", " "])) };
            format!("\\includegraphics{o}{{{}}}", pick(r, &["p", " p/q.png ", "a b", ""]))
        }
        4 | 5 | 6 => {
            let mut t = format!("\\begin{{tabular}}{{{}}}", pick(r, &["c", "|l|r|", "lcr", "||c||", "", " l ", "c|", "rx"]));
            for _ in 0..r.below(6) {
                let cell = if r.below(3) == 0 { b.clone() } else { pick(r, W).to_string() };
                t += pick(r, &["", "", &cell, &cell, " ", "\n", "\\hline ", "\\toprule", "\\midrule ", "\\bottomrule\n", "$x$", "\\alpha "]);
                t += pick(r, &["&", "&", "\\\\", "\\\\\n", " "]);
            }
            format!("{t}{}\\end{{tabular}}", pick(r, &["", "a", "\\hline"]))
        }
        7 => {
            let mut t = String::new();
            for _ in 0..1 + r.below(3) {
                t += pick(r, &[&b, "\\caption{d}", "\\centering ", "\\caption{\\label{z}e}", "\\label{f}", "\n", "\\includegraphics{p}"]);
            }
            format!("\\begin{{figure}}{t}\\end{{figure}}")
        }
        8 => format!("\\{}{}{{{}}}{{{b}}}{}", pick(r, &["textcolor", "colorbox"]), pick(r, &["", "", "[rgb]", "[HTML]"]), pick(r, &["red", "0,1,0", "a b"]), gap),
        9 => format!("{{\\color{gap}{}{gap}{}{b}}}", pick(r, &["", "", "[rgb]", "[a b]", "[x", "[1,{2}]"]), pick(r, &["{red}", "red ", "", "{0,1}", "\\alpha "])),
        10 => {
            let k = *pick(r, &["itemize", "enumerate"]);
            format!("\\begin{{{k}}}{gap}\\item {b}\n \\item{gap}{}\n\\end{{{k}}}", special(r, cx, d.saturating_sub(1)))
        }
        11 => format!("{}{gap}{}{gap}{}", pick(r, &["", "{}", "x", "{x y}", "\\sum", "\\alpha", "("]), pick(r, &["_", "^", "'"]), pick(r, &["{a}", "b", "\\alpha ", "{}", "_c", "\\frac12"])),
        12 => format!("\\left{gap}{}{b}\\right{gap}{}", pick(r, &["(", ".", "\\{", "[", "|"]), pick(r, &[")", ".", "\\}", "]", "\\alpha", "|"])),
        13 => format!("{{{gap}}}"),
        14 => format!("\\iftypst#x{gap}y\\fi"),
        _ => b,
    };
    format!("{s}{}", pick(r, &["", "", " ", "\n", "\n x", "w"]))
}

// C14: the whole text, read off the tree
/// what a document is written as: the state that one piece leaves to the next, and the text so far
struct Writer<'a> {
    sp: &'a CommandSpec,
    math: bool,
    env: F2,
    indent: usize,
    after_break: bool,
    label: Option<String>,
    out: String,
}
#[derive(Clone, Copy, PartialEq)]
enum F2 {
    Plain,
    Math,
    Matrix,
    Cases,
    Figure,
    Table,
    Dashes,
    Numbers,
    Stack,
    Group,
}
/// the text between a pair of delimiters, if they are there
fn inside(n: &SyntaxNode, open: &str, close: &str) -> String {
    let mut t = n.text().to_string();
    if t.starts_with(open) {
        t.replace_range(..open.len(), "");
    }
    if t.ends_with(close) {
        t.truncate(t.len() - close.len());
    }
    t.trim().to_string()
}
fn node(e: &SyntaxElement) -> Option<SyntaxNode> {
    e.as_node().cloned()
}
/// the name of a command without its backslash
fn cmd_name(n: &SyntaxNode) -> Option<String> {
    n.children_with_tokens().find(|c| c.kind() == K::ClauseCommandName && c.as_token().is_some()).map(|t| t.as_token().unwrap().text()[1..].to_string())
}
fn args(n: &SyntaxNode) -> Vec<SyntaxNode> {
    n.children().filter(|c| c.kind() == K::ClauseArgument).collect()
}
impl Writer<'_> {
    fn put(&mut self, s: &str) {
        self.out += s;
    }
    fn at<T>(&mut self, math: bool, env: F2, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let (m, e, i) = (self.math, self.env, self.indent);
        self.math = math;
        self.env = env;
        let r = f(self);
        (self.math, self.env, self.indent) = (m, e, i);
        r
    }
    fn each(&mut self, n: impl Iterator<Item = SyntaxElement>) -> Option<()> {
        for c in n {
            self.elem(c)?;
        }
        Some(())
    }
    /// None: not converted
    fn elem(&mut self, e: SyntaxElement) -> Option<()> {
        let k = e.kind();
        if k == K::TokenWhiteSpace {
            if !std::mem::take(&mut self.after_break) {
                self.put(e.as_token()?.text());
            }
            return Some(());
        }
        self.after_break = false;
        match e {
            rowan::NodeOrToken::Token(t) => self.leaf(k, t.text()),
            rowan::NodeOrToken::Node(n) => self.node(k, &n),
        }
    }
    fn leaf(&mut self, k: K, t: &str) -> Option<()> {
        let fixed = match k {
            K::TokenWord if self.math => return Some(t.chars().for_each(|c| self.put(&format!("{c} ")))),
            K::TokenWord => t,
            K::TokenLBrace | K::TokenRBrace | K::TokenDollar | K::TokenBeginMath | K::TokenEndMath | K::TokenComment => "",
            K::TokenLineBreak => {
                let blanks = " ".repeat(self.indent);
                self.put(t);
                self.put(&blanks);
                self.after_break = true;
                ""
            }
            K::TokenApostrophe => "'",
            K::TokenComma => "\\,",
            K::TokenSlash => "\\/",
            K::TokenCaret => "\\^",
            K::TokenUnderscore => "\\_",
            K::TokenHash => "\\#",
            K::TokenAsterisk => "\\*",
            K::TokenAtSign => "\\@",
            K::TokenDitto => "\\\"",
            K::TokenSemicolon => "\\;",
            K::TokenLParen => "\\(",
            K::TokenRParen => "\\)",
            K::TokenLBracket => "\\[",
            K::TokenRBracket => "\\]",
            K::TokenTilde => ["\\~", "space.nobreak "][self.math as usize],
            K::TokenAmpersand => ["&", "zws ,"][(self.env == F2::Matrix) as usize],
            K::ItemNewLine => match self.env {
                F2::Matrix => "zws ;",
                F2::Cases => ",",
                F2::Group => "",
                _ => "\\ ",
            },
            K::TokenCommandSym => {
                let c = self.sp.get_cmd(&t[1..])?;
                let n = c.alias.clone().unwrap_or(t[1..].to_string());
                self.put(&n);
                ""
            }
            _ => return None,
        };
        self.put(fixed);
        Some(())
    }
    fn node(&mut self, k: K, n: &SyntaxNode) -> Option<()> {
        let kids: Vec<SyntaxElement> = n.children_with_tokens().collect();
        match k {
            K::ItemLR | K::ClauseArgument | K::ScopeRoot | K::ItemText | K::ItemBracket | K::ItemParen => self.each(kids.into_iter()),
            K::ItemBlockComment => Some(()),
            K::ItemTypstCode => Some(self.put(&n.text().to_string())),
            K::ItemFormula => {
                let open = kids[0].as_token()?.text().to_string();
                let close = kids.last()?.as_token().map(|t| t.text().to_string());
                let want = match &*open {
                    "\\(" => "\\)",
                    "\\[" => "\\]",
                    o => o,
                };
                // (a dollar alone closes itself)
                if close.as_deref() != Some(want) {
                    return None;
                }
                let text = !self.math;
                let one_line = open == "$" || open == "\\(";
                if text {
                    self.put(if one_line { "#math.equation(block: false, $" } else { "$ " });
                }
                let e = self.env;
                self.at(true, e, |w| w.each(kids.into_iter()))?;
                if text {
                    self.put(if one_line { "$);" } else { " $" });
                }
                Some(())
            }
            K::ItemCurly => {
                let empty = kids.iter().all(|c| matches!(c.kind(), K::TokenWhiteSpace | K::TokenLineBreak | K::TokenLBrace | K::TokenRBrace));
                let (m, e) = (self.math, self.env);
                self.at(m, if m && e != F2::Stack { F2::Group } else { e }, |w| w.each(kids.into_iter()))?;
                if m && empty {
                    self.put("zws ");
                }
                Some(())
            }
            K::ClauseLR => {
                let head = kids[0].as_token()?.text().to_string();
                if head == "\\left" {
                    self.put("lr(");
                }
                for c in kids.into_iter().skip(1) {
                    let dot = c.as_token().is_some_and(|t| t.kind() == K::TokenWord && t.text() == ".");
                    if !dot {
                        self.elem(c)?;
                    }
                    self.put(" ");
                }
                if head == "\\right" {
                    self.put(")");
                }
                Some(())
            }
            K::ItemAttachComponent if !self.math => self.each(kids.into_iter()),
            K::ItemAttachComponent => {
                let is = |c: &SyntaxElement, l: &[K]| c.as_token().is_some_and(|t| l.contains(&t.kind()));
                let Some(at) = kids.iter().position(|c| is(c, &[K::TokenUnderscore, K::TokenCaret])) else {
                    return self.each(kids.into_iter());
                };
                if kids[..at].iter().all(|c| is(c, &[K::TokenWhiteSpace])) {
                    self.each(kids[..at].iter().cloned())?;
                    self.put("zws");
                } else {
                    self.each(kids[..at].iter().cloned())?;
                }
                self.put(kids[at].as_token()?.text());
                self.put("(");
                self.each(kids[at + 1..].iter().cloned())?;
                self.put(")");
                Some(())
            }
            K::ItemCmd => self.cmd(n, &cmd_name(n)?),
            K::ItemEnv => self.environment(n),
            _ => None,
        }
    }
    fn cmd(&mut self, n: &SyntaxNode, name: &str) -> Option<()> {
        match name {
            "item" => {
                let mark = match self.env {
                    F2::Dashes => "- ",
                    F2::Numbers => "+ ",
                    _ => return None,
                };
                let s = format!("\n{}{mark}", " ".repeat(self.indent - 2));
                self.put(&s);
                Some(())
            }
            "label" => {
                let l = inside(args(n).first()?, "{", "}");
                if matches!(self.env, F2::Plain | F2::Dashes | F2::Numbers) {
                    if !self.math {
                        self.put(&format!("<{l}>"));
                    }
                } else {
                    self.label = Some(l);
                }
                Some(())
            }
            "includegraphics" => {
                let first = |k: K| args(n).into_iter().find(|a| a.first_child().is_some_and(|c| c.kind() == k));
                let path = inside(&first(K::ItemCurly)?, "{", "}");
                let mut s = String::new();
                if let Some(o) = first(K::ItemBracket) {
                    for pair in inside(&o, "[", "]").split(',') {
                        let parts: Vec<&str> = pair.split('=').map(|p| p.trim()).collect();
                        if !["width", "height"].contains(&parts[0]) {
                            continue;
                        }
                        let mut v = if parts.len() == 2 { parts[1].to_string() } else { String::new() };
                        for unit in ["\\textwidth", "\\textheight"] {
                            if v.ends_with(unit) {
                                while v.ends_with(unit) {
                                    v.truncate(v.len() - unit.len());
                                }
                                v += " * 100%";
                            }
                        }
                        s += &format!("{}: {v}, ", parts[0]);
                    }
                }
                self.put(&format!("#image({s}\"{path}\")"));
                Some(())
            }
            "color" | "textcolor" | "colorbox" => self.colour(n, name),
            _ => self.ordinary(n, name),
        }
    }
    fn colour(&mut self, n: &SyntaxNode, name: &str) -> Option<()> {
        let a = args(n);
        let (mut model, mut rest): (Option<String>, std::collections::VecDeque<SyntaxElement>);
        if name == "color" {
            rest = a.first()?.children_with_tokens().collect();
            let blank = |e: &SyntaxElement| matches!(e.kind(), K::TokenWhiteSpace | K::TokenLineBreak | K::TokenComment | K::ItemNewLine);
            let skip = |q: &mut std::collections::VecDeque<SyntaxElement>| {
                while q.front().is_some_and(blank) {
                    q.pop_front();
                }
            };
            skip(&mut rest);
            model = None;
            if rest.front().is_some_and(|e| e.kind() == K::TokenLBracket) {
                rest.pop_front();
                let mut m = String::new();
                while let Some(e) = rest.pop_front() {
                    if e.kind() == K::TokenRBracket {
                        break;
                    }
                    m += &e.to_string();
                }
                model = Some(m);
            }
            skip(&mut rest);
        } else {
            rest = a.into_iter().map(SyntaxElement::Node).collect();
            model = None;
            if let Some(t) = rest.front().map(|e| e.to_string()) {
                if t.len() >= 2 && t.starts_with('[') && t.ends_with(']') {
                    model = Some(t[1..t.len() - 1].to_string());
                    rest.pop_front();
                }
            }
        }
        let f = self.sp.get_cmd(name).and_then(|c| c.alias.clone()).unwrap_or("mitexcolor".into());
        let model = model.take().map(|m| format!("[{m}]")).unwrap_or("none".into());
        self.put(&format!("{f}({model}, ["));
        match rest.pop_front() {
            None => self.put("black"),
            Some(c) => {
                let e = self.env;
                self.at(false, e, |w| w.elem(c))?;
            }
        }
        self.put("])[");
        let d = if self.math { "$" } else { "" };
        for e in rest {
            self.put(d);
            self.elem(e)?;
            self.put(d);
        }
        self.put(if self.math { "]" } else { "];" });
        Some(())
    }
    fn ordinary(&mut self, n: &SyntaxNode, name: &str) -> Option<()> {
        let c = self.sp.get_cmd(name)?.clone();
        let mut out = c.alias.unwrap_or(name.to_string());
        match name {
            "textbf" if !self.math => out = "#strong".into(),
            "textit" if !self.math => out = "#emph".into(),
            _ => {}
        }
        self.put(&out);
        let parts: Vec<SyntaxElement> = n.children_with_tokens().filter(|e| e.kind() != K::ClauseCommandName).collect();
        let env = if out == "substack" { F2::Stack } else { self.env };
        match c.args {
            ArgShape::Right { pattern: ArgPattern::None } => self.put(" "),
            ArgShape::Right { pattern: ArgPattern::Greedy } => {
                let inner: Vec<SyntaxElement> = node(parts.first()?)?.children_with_tokens().collect();
                self.put("(");
                let m = self.math;
                self.at(m, env, |w| w.commas(inner, K::ItemCurly))?;
                self.put(")");
            }
            _ if self.math && !out.starts_with('#') => {
                self.put("(");
                self.at(true, env, |w| w.commas(parts, K::ClauseArgument))?;
                self.put(")");
            }
            _ => {
                for a in parts.into_iter().filter(|e| e.kind() == K::ClauseArgument) {
                    self.put("[");
                    self.at(false, env, |w| w.elem(a))?;
                    self.put("]");
                }
                self.put(";");
            }
        }
        Some(())
    }
    fn commas(&mut self, parts: Vec<SyntaxElement>, k: K) -> Option<()> {
        let last = parts.len();
        for (i, e) in parts.into_iter().enumerate() {
            let comma = e.kind() == k && i + 1 != last;
            self.elem(e)?;
            if comma {
                self.put(",");
            }
        }
        Some(())
    }
    fn environment(&mut self, n: &SyntaxNode) -> Option<()> {
        let begin = n.first_child()?;
        let name = begin.first_token()?.text().trim().to_string();
        let shape = self.sp.get_env(&name)?.clone();
        let out = shape.alias.unwrap_or(name);
        let body: Vec<SyntaxElement> = n.children_with_tokens().filter(|e| !matches!(e.kind(), K::ItemBegin | K::ItemEnd)).collect();
        let (text, given) = (!self.math, args(&begin));
        let list = matches!(shape.ctx_feature, F::IsItemize | F::IsEnumerate);
        // a label set before is not that of this environment
        let outer = if list { None } else { self.label.take() };
        let env = match shape.ctx_feature {
            F::IsItemize | F::IsEnumerate => {
                let (m, e, i) = (self.math, self.env, self.indent);
                self.env = if matches!(shape.ctx_feature, F::IsItemize) { F2::Dashes } else { F2::Numbers };
                self.indent += 2;
                self.each(body.into_iter())?;
                (self.math, self.env, self.indent) = (m, e, i);
                return Some(());
            }
            F::IsFigure => {
                let mut caption = None;
                let mut rest = vec![];
                for e in body.clone() {
                    match node(&e).filter(|c| c.kind() == K::ItemCmd).and_then(|c| cmd_name(&c).map(|s| (c, s))) {
                        Some((c, s)) if s == "caption" => caption = Some(args(&c).into_iter().next()?),
                        Some((_, s)) if s == "centering" => {}
                        _ => rest.push(e),
                    }
                }
                let m = self.math;
                self.put(&format!("#{out}("));
                if let Some(c) = caption {
                    self.put("caption: [");
                    self.at(m, F2::Figure, |w| w.elem(SyntaxElement::Node(c)))?;
                    self.put("],");
                }
                self.put(")[");
                self.at(m, F2::Figure, |w| w.each(rest.into_iter()))?;
                self.put("];");
                None
            }
            F::IsTable => {
                self.table(&out, &inside(given.first()?, "{", "}"), body.clone())?;
                None
            }
            F::None => {
                let m = self.math;
                self.put(&format!("#{out}["));
                self.at(m, F2::Plain, |w| w.each(body.clone().into_iter()))?;
                self.put("];");
                None
            }
            F::IsMath => Some(F2::Math),
            F::IsMatrix => Some(F2::Matrix),
            F::IsCases => Some(F2::Cases),
        };
        if let Some(env) = env {
            if text {
                self.put("$ ");
            }
            self.put(&format!("{out}("));
            self.at(true, env, |w| {
                for (i, a) in given.into_iter().enumerate() {
                    w.put(&format!("arg{i}: "));
                    w.elem(SyntaxElement::Node(a))?;
                    w.put(",");
                }
                w.each(body.into_iter())
            })?;
            self.put(if text { ") $" } else { ")" });
        }
        // a label set inside is that of the environment
        if text {
            if let Some(l) = self.label.take() {
                self.put(&format!("<{l}>"));
            }
        }
        self.label = self.label.take().or(outer);
        Some(())
    }
    fn table(&mut self, out: &str, columns: &str, body: Vec<SyntaxElement>) -> Option<()> {
        let (mut align, mut lines) = (vec![], vec![]);
        for c in columns.chars() {
            match c {
                'l' => align.push("left, "),
                'c' => align.push("center, "),
                'r' => align.push("right, "),
                '|' => lines.push(format!("table.vline(stroke: .5pt, x: {}), ", align.len())),
                _ => return None,
            }
        }
        self.put(&format!("#{out}(stroke: none,\ncolumns: {},\nalign: ({}),\n{}\n", align.len(), align.concat(), lines.concat()));
        let m = self.math;
        let mut open = false;
        for e in body {
            let k = e.kind();
            match (k, open) {
                (K::TokenAmpersand, true) => {
                    self.put("], ");
                    open = false;
                }
                (K::ItemNewLine, true) => {
                    self.put("],\n");
                    open = false;
                }
                (K::TokenAmpersand, false) => self.put("[], "),
                (K::ItemNewLine, false) => self.put("[],\n"),
                (K::TokenWhiteSpace | K::TokenLineBreak, false) => {}
                _ => {
                    if !open {
                        let rule = node(&e).filter(|c| c.kind() == K::ItemCmd).and_then(|c| cmd_name(&c));
                        let w = match rule.as_deref() {
                            Some("hline" | "midrule") => ".5pt",
                            Some("toprule" | "bottomrule") => "1pt",
                            _ => "",
                        };
                        if !w.is_empty() {
                            self.put(&format!("table.hline(stroke: {w}),\n"));
                            continue;
                        }
                        open = true;
                        self.put("[");
                    }
                    self.at(m, F2::Table, |w| w.elem(e))?;
                }
            }
        }
        // the last row may stand without its end
        if open {
            self.put("],\n");
        }
        self.put(");");
        Some(())
    }
}
/// the text that the whole document is written as; None if it cannot be converted
fn c14_whole(c: &Case) -> Res {
    let (math, sp) = (c.n[1] == 1, c.n[2]);
    let spec = spec_of(sp);
    let got = convert(&c.s, math, sp);
    let mut w = Writer { sp: &spec, math, env: F2::Plain, indent: 0, after_break: false, label: None, out: String::new() };
    let ok = w.elem(SyntaxElement::Node(mitex_parser::parse(&c.s, spec.clone())));
    match (got, ok) {
        // (what is not converted is C15)
        (Err(_), None) | (Ok(_), None) => Ok(false),
        (Err(e), Some(())) => Err(format!("not converted: {e}: {:?} should be {:?}", c.s, w.out)),
        (Ok(g), Some(())) if g != w.out => Err(format!("{:?} is written as {g:?} and not as {:?}", c.s, w.out)),
        _ => Ok(true),
    }
}

// C15: what must be reported, read off the tree
/// Some(what) if there is something at a place that is converted which must be an error
fn offence(n: &SyntaxNode, list: bool, sp: &CommandSpec) -> Option<String> {
    use rowan::NodeOrToken as E;
    let all = |it: &mut dyn Iterator<Item = SyntaxElement>, list: bool| -> Option<String> {
        for e in it {
            match e {
                E::Node(m) => {
                    if let Some(x) = offence(&m, list, sp) {
                        return Some(x);
                    }
                }
                E::Token(t) if t.kind() == K::TokenError => return Some(format!("error token {:?}", t.text())),
                E::Token(t) if t.kind() == K::TokenCommandSym && sp.get_cmd(&t.text()[1..]).is_none() => return Some(format!("unknown command {}", t.text())),
                _ => {}
            }
        }
        None
    };
    match n.kind() {
        K::TokenError => Some("error".into()),
        K::ScopeRoot | K::ItemText | K::ItemBracket | K::ItemParen | K::ItemLR | K::ClauseArgument | K::ItemCurly | K::ClauseLR | K::ItemAttachComponent => {
            // the clauses' own command name is not converted
            let skip = n.kind() == K::ClauseLR;
            all(&mut n.children_with_tokens().filter(|e| !(skip && e.kind() == K::ClauseCommandName)), list)
        }
        K::ItemFormula => {
            let f: Vec<_> = n.children_with_tokens().collect();
            let text = |e: Option<&SyntaxElement>| e.and_then(|e| e.as_token()).map(|t| (t.kind(), t.text().to_string()));
            let ok = match (text(f.first()), text(f.last())) {
                (Some((K::TokenDollar, a)), Some((K::TokenDollar, z))) => a == z,
                (Some((K::TokenBeginMath, a)), Some((K::TokenEndMath, z))) => (a == "\\(" && z == "\\)") || (a == "\\[" && z == "\\]"),
                _ => false,
            };
            if !ok {
                return Some(format!("the delimiters of {} do not match", n.text()));
            }
            all(&mut n.children_with_tokens(), list)
        }
        K::ItemCmd => {
            let name = n.children_with_tokens().find(|e| e.kind() == K::ClauseCommandName)?;
            let name = name.as_token()?.text()[1..].to_string();
            match name.as_str() {
                "item" => (!list).then(|| "item outside of a list".to_string()),
                "label" | "includegraphics" | "color" | "textcolor" | "colorbox" => None,
                _ => {
                    if sp.get_cmd(&name).is_none() {
                        return Some(format!("unknown command {name}"));
                    }
                    all(&mut n.children_with_tokens().filter(|e| e.kind() == K::ClauseArgument), list)
                }
            }
        }
        K::ItemEnv => {
            let env = EnvItem::cast(n.clone())?;
            let name = env.name_tok()?.text().trim().to_string();
            let Some(shape) = sp.get_env(&name) else { return Some(format!("unknown environment {name}")) };
            let table = matches!(shape.ctx_feature, F::IsTable);
            let figure = matches!(shape.ctx_feature, F::IsFigure);
            let list = list || matches!(shape.ctx_feature, F::IsItemize | F::IsEnumerate);
            if matches!(shape.ctx_feature, F::IsMath | F::IsMatrix | F::IsCases) {
                if let Some(x) = all(&mut env.arguments().map(E::Node), list) {
                    return Some(x);
                }
            }
            let it = n.children_with_tokens().filter(|e| {
                // rules of tables and captions of figures are read by the environment itself
                let cmd = e.as_node().and_then(|n| CmdItem::cast(n.clone())).and_then(|c| c.name_tok()).map(|t| t.text().to_string());
                let own = match cmd.as_deref() {
                    Some("\\hline" | "\\toprule" | "\\midrule" | "\\bottomrule") => table,
                    Some("\\caption" | "\\centering") => figure,
                    _ => false,
                };
                !matches!(e.kind(), K::ItemBegin | K::ItemEnd) && !own
            });
            all(&mut it.collect::<Vec<_>>().into_iter(), list)
        }
        _ => None,
    }
}
pub fn c15(c: &Case) -> Res {
    let math = c.n.first() == Some(&1);
    let sp = c.n.get(1).copied().unwrap_or(0);
    let spec = spec_of(sp);
    let node = mitex_parser::parse(&c.s, spec.clone());
    let out = convert(&c.s, math, sp);
    if let Some(o) = offence(&node, false, &spec) {
        return match out {
            Ok(s) => Err(format!("{o}, but the conversion of {:?} gives {s:?}", c.s)),
            Err(e) if e.is_empty() => Err(format!("{o}, the message is empty")),
            Err(_) => Ok(true),
        };
    }
    // told by the text alone
    if c.n.len() > 2 {
        return match out {
            Ok(s) => Err(format!("the conversion of {:?} gives {s:?}", c.s)),
            Err(_) => Ok(true),
        };
    }
    Ok(false)
}
pub fn c15_cases(th: bool, seed: u64) -> Iter {
    let one = move |r: &mut Rng, _: usize| {
        let top = if r.below(3) == 0 { Cx::Math } else { Cx::Text };
        let d = r.below(4);
        let mut sp = 0;
        let sure = r.below(3) > 0;
        let s = context(r, top, d, &mut |r, cx| {
            let bad: String = match r.below(14) {
                0 | 1 => format!("\\{} ", pick(r, &["nosuch", "Undefined", "zzz", "éé"])),
                2 => format!("\\nosuch{{{}}}", body(r, cx, 1)),
                3 | 4 => format!("\\begin{{nosuch}}{}\\end{{nosuch}}", body(r, cx, 1)),
                5 | 6 => {
                    let (a, z) = *pick(r, &[("\\(", "\\]"), ("\\[", "\\)")]);
                    format!("{a} {} {z}", pick(r, W))
                }
                7 | 8 if cx == Cx::Text => {
                    let (a, z) = *pick(r, &[("$", "$$"), ("$$", "$")]);
                    format!("{a} {} {z}", pick(r, W))
                }
                9 => {
                    sp = 3;
                    pick(r, &["\\alpha ", "\\begin{matrix}a\\end{matrix}", "\\textbf{a}"]).to_string()
                }
                10 => {
                    sp = 1;
                    pick(r, &["\\frac{a}{b}", "\\begin{matrix}a\\end{matrix}", "\\alpha "]).to_string()
                }
                // the name of a command used as environment and the other way round
                11 => format!("\\begin{{{}}}a\\end{{{}}}", "frac", "frac"),
                12 => "\\matrixx ".into(),
                _ => "\\end{itemize}".into(),
            };
            let pre = if r.below(2) == 0 { "w ".to_string() } else { body(r, cx, 1) };
            format!("{pre}{bad}{}", pick(r, &["", " x", "{x}"]))
        });
        // what a closing delimiter means depends on what is open, so only these are sure by the text alone
        let plain = s.contains("\\nosuch") || s.contains("{nosuch}") || s.contains("\\Undefined") || s.contains("\\zzz ") || s.contains("\\matrixx ") || s.contains("{frac}");
        let own = sp != 0 || s.contains('$');
        let mut n = vec![(top == Cx::Math) as u64, sp];
        if sure && plain && !own {
            n.push(1);
        }
        Case { s, n }
    };
    let item = |r: &mut Rng, _: usize| {
        let d = r.below(3);
        let mut list = false;
        let top = if r.below(4) == 0 { Cx::Math } else { Cx::Text };
        let s = context(r, top, d, &mut |_, _| "\\item a".into());
        list |= s.contains("\\begin{itemize}") || s.contains("\\begin{enumerate}");
        Case { s, n: if list { vec![(top == Cx::Math) as u64, 0] } else { vec![(top == Cx::Math) as u64, 0, 1] } }
    };
    let top = |r: &mut Rng, _: usize| {
        // at the top, a closer that closes nothing is an error whatever follows
        let a = body(r, Cx::Text, 2);
        let b = body(r, Cx::Text, 2);
        let x = *pick(r, &["}", "\\end{x}", "\\)", "\\]", "\\end{itemize}", "\\right)", "\\end", "\\begin", "\\fi"]);
        Case { s: format!("{a}{x}{b}"), n: if matches!(x, "}" | "\\end{x}" | "\\end{itemize}") { vec![0, 0, 1] } else { vec![0, 0] } }
    };
    // any sequence of pieces: the tree tells
    let n = if th { 2_000_000 } else { 80_000 };
    chain(vec![
        from_fn(n, seed, one),
        from_fn(n / 4, seed + 1, item),
        from_fn(n / 4, seed + 2, top),
        from_fn(n, seed + 3, |r, _| {
            let k = r.below(12);
            soup(r, k)
        }),
    ])
}

// C16: anything
const SOUP: &[&str] = &[
    "a", "bc", "é", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "'", "\"", ";", "#", "*", "@", "_", "$", "$$", "\\\\", "\\(", "\\)", "\\[",
    "\\]", "\\left", "\\right", "\\left.", "\\right)", "\\item", "\\label", "\\label{a}", "\\includegraphics", "\\includegraphics[width=1\\textwidth, é=,=]", "{p}", "\\color", "\\color[",
    "\\color{red}", "\\textcolor", "\\colorbox", "\\textcolor[é]", "\\caption", "\\caption{c}", "\\centering", "\\hline", "\\toprule", "\\substack", "\\substack{a\\\\b}", "\\frac", "\\sqrt", "\\sqrt[",
    "\\displaystyle", "\\over", "\\limits", "\\textbf", "\\text", "\\iffalse", "\\iftypst", "\\fi", "\\else", "\\nosuch", "\\é", "\\", "\\begin", "\\end", "\\begin{", "\\begin{itemize}", "\\end{itemize}",
    "\\begin{tabular}", "\\begin{tabular}{c|é}", "\\begin{tabular}{lr}", "\\end{tabular}", "\\begin{figure}", "\\end{figure}", "\\begin{matrix}", "\\end{matrix}", "\\begin{array}", "\\begin{cases}", "\\end{cases}",
    "\\begin{quote}", "\\end{quote}", "\\begin{é}", "\\end{é}", "\\newcommand{\\y}", "\\newcommand{\\x}[1]{a#1}", "\\x", "\\begin{ matrix }", "\\begin{wtable}", "\\end{wtable}", "\\begin{witemize}", "\\begin{venumerate}",
    "\\begin{wcases}", "\\begin{wfigure}", "\\begin{vtable}", "\\vgre", "\\vinf", "\\vlone", "\\vone", "\\vtwo", "\\vopt", "\\vrange", "\\vsub", "\\vsubs{a}{b}", "\\gre", "\\inf", "\\lone", "\\one", "\\max", "\\begin{e}", "\\begin{mg}", "\\begin{mb}",
];
fn soup(r: &mut Rng, k: usize) -> Case {
    let mut s = String::new();
    for _ in 0..k {
        match r.below(10) {
            0 => {
                let n = names();
                let v = match r.below(4) {
                    0 => pick(r, &n.other).clone(),
                    1 => pick(r, &n.sym).clone(),
                    2 => pick(r, &n.fixed).0.clone(),
                    _ => "alpha".into(),
                };
                s += &format!("\\{v}{}", pick(r, &["", " "]));
            }
            1 => {
                let e = &pick(r, &names().env).0;
                let e = e.clone();
                let b = body(r, Cx::Math, 1);
                s += &format!("\\begin{{{e}}}{}{b}{}", pick(r, &["", "{c}", "[t]"]), if r.below(4) > 0 { format!("\\end{{{e}}}") } else { String::new() });
            }
            2 => s += &piece(r, Cx::Math, 2),
            _ => s += pick(r, SOUP),
        }
    }
    Case { s, n: vec![r.below(2) as u64, *pick(r, &[0, 0, 2, 2, 1, 3])] }
}
pub fn c16(c: &Case) -> Res {
    let math = c.n.first() == Some(&1);
    let sp = c.n.get(1).copied().unwrap_or(0);
    match convert(&c.s, math, sp) {
        Ok(_) => Ok(!c.s.is_empty()),
        Err(e) if e.is_empty() => Err("an error without a message".into()),
        Err(_) => Ok(true),
    }
}
pub fn c16_cases(th: bool, seed: u64) -> Iter {
    let n = names();
    let mut one = vec![];
    for sp in [0u64, 2] {
        for m in [0u64, 1] {
            let cmds = n.sym.iter().chain(n.opt.iter()).chain(n.other.iter()).chain(n.fixed.iter().map(|x| &x.0));
            for k in cmds.cloned().chain(["vgre", "vinf", "vlone", "vone", "vtwo", "vopt", "vrange", "color", "displaystyle"].map(String::from)) {
                for t in ["", " a", "{a}", "{a}{b}", "[a]", "[a]{b}{c}", "(a)b", "_a", "^", "'", "*", "{}", "{", "[", " %c\n{a}", "\\", "é"] {
                    one.push(Case { s: format!("\\{k}{t}"), n: vec![m, sp] });
                }
                for (a, z) in [("{", "}"), ("a ", " b"), ("a_", "^b"), ("$", "$"), ("\\begin{figure}", "\\end{figure}"), ("\\begin{tabular}{c}", "\\end{tabular}"), ("\\left", "\\right")] {
                    one.push(Case { s: format!("{a}\\{k}{z}"), n: vec![m, sp] });
                }
            }
            let own = FEATURES.iter().flat_map(|(n, _)| [format!("v{n}"), format!("w{n}")]);
            for e in n.env.iter().map(|x| x.0.clone()).chain(own) {
                for t in ["", "a", "{a}", "{c}a", "{c}a&b\\\\c", "[a]", "[a]{b}c", "{c|", "{é}", "\\item a", "\\caption", "\\caption{a}", "\\hline a", "\\label{a}", "{}", "&", "\\\\", "$", "}", "\\label"] {
                    one.push(Case { s: format!("\\begin{{{e}}}{t}\\end{{{e}}}"), n: vec![m, sp] });
                    one.push(Case { s: format!("\\begin{{{e}}}{t}"), n: vec![m, sp] });
                }
            }
        }
    }
    let k = if th { 4_000_000 } else { 200_000 };
    chain(vec![
        list(one),
        from_fn(k, seed, |r, _| {
            let k = 1 + r.below(8);
            soup(r, k)
        }),
        from_fn(k / 8, seed + 1, |r, _| {
            let k = 1 + r.below(40);
            soup(r, k)
        }),
        // well-formed documents with a piece cut out
        from_fn(k / 4, seed + 2, |r, _| {
            let c: Vec<char> = body(r, Cx::Text, 3).chars().collect();
            let (i, j) = (r.below(c.len() + 1), r.below(4));
            let s: String = c[..i].iter().chain(c[(i + j).min(c.len())..].iter()).collect();
            Case { s, n: vec![r.below(2) as u64, 0] }
        }),
    ])
}
