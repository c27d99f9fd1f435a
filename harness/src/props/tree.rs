//! C03, C04, C05, C06: the tree of the parser, and C18
use super::lex::raw_with;
use crate::gen::*;
use crate::{Case, Res};
use mitex_lexer::{BraceKind, CommandName as C, IfCommandName as F, Token as T};
use mitex_parser::syntax::SyntaxKind as K;
use mitex_parser::syntax::*;
use mitex_spec::preludes::command::*;
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature, EnvShape};
use rowan::ast::AstNode;
use std::sync::OnceLock;

/// 0: the default specification, 1: every shape of argument list
pub fn spec_of(n: u64) -> CommandSpec {
    static S: OnceLock<CommandSpec> = OnceLock::new();
    if n == 0 {
        return super::lex::spec();
    }
    S.get_or_init(|| {
        let mut b = SpecBuilder::default();
        let right = |p| CommandSpecItem::Cmd(CmdShape { args: ArgShape::Right { pattern: p }, alias: None });
        let env = |p| CommandSpecItem::Env(EnvShape { args: p, ctx_feature: ContextFeature::None, alias: None });
        b.add_command("sym", TEX_SYMBOL);
        for (n, k) in [("zero", 0), ("one", 1), ("two", 2), ("three", 3), ("many", 254), ("max", 255)] {
            b.add_command(n, right(ArgPattern::FixedLenTerm { len: k }));
        }
        for (n, a, z) in [("rz", 0, 0), ("ro", 0, 1), ("rt", 1, 2), ("rh", 2, 3), ("rbad", 3, 1), ("rmax", 0, 255)] {
            b.add_command(n, right(ArgPattern::RangeLenTerm { min: a, max: z }));
        }
        for (n, g) in GLOBS {
            b.add_command(n, right(ArgPattern::Glob { pattern: (*g).into() }));
        }
        b.add_command("lone", TEX_LEFT1_OPEARTOR);
        b.add_command("gre", TEX_GREEDY_OPERATOR);
        b.add_command("inf", TEX_INFIX_OPERATOR);
        b.add_command("e", TEX_NORMAL_ENV);
        b.add_command("m", env(ArgPattern::FixedLenTerm { len: 1 }));
        b.add_command("mt", env(ArgPattern::FixedLenTerm { len: 2 }));
        b.add_command("mr", env(ArgPattern::RangeLenTerm { min: 0, max: 1 }));
        b.add_command("mg", env(ArgPattern::Greedy));
        b.add_command("mb", env(ArgPattern::Glob { pattern: "{,b}t".into() }));
        b.add_command("mz", env(ArgPattern::RangeLenTerm { min: 0, max: 0 }));
        b.build()
    })
    .clone()
}
/// (command, glob); `accepted` knows each
const GLOBS: &[(&str, &str)] = &[("gt", "t"), ("gbt", "{,b}t"), ("gbpt", "{,b}{,p}t"), ("gbb", "{b,tt}"), ("gall", "*"), ("gtb", "t{,b}")];
/// whether the sequence of kinds may be read for the glob: it is the beginning of a word of the glob's language
pub fn accepted(glob: &str, ks: &str) -> Option<bool> {
    let words: &[&str] = match glob {
        "t" => &["t"],
        "{,b}t" | "{b,}t" => &["t", "bt"],
        "{,b}{,p}t" => &["t", "bt", "pt", "bpt"],
        "{b,tt}" => &["b", "tt"],
        "t{,b}" => &["t", "tb"],
        "{,t}" => &["", "t"],
        "{,b}" => &["", "b"],
        "*" => return Some(true),
        _ => return None,
    };
    Some(words.iter().any(|w| w.starts_with(ks)))
}
pub fn parse(c: &Case) -> (SyntaxNode, CommandSpec) {
    let sp = spec_of(c.n.first().copied().unwrap_or(0));
    (mitex_parser::parse_without_macro(&c.s, sp.clone()), sp)
}
fn trivia(k: K) -> bool {
    matches!(k, K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment)
}
fn leaves(n: &SyntaxNode) -> Vec<SyntaxToken> {
    n.descendants_with_tokens().filter_map(|e| e.into_token()).collect()
}
/// the tokens with the opener of each block and its closing \fi taken away
fn expected(toks: Vec<(T, String)>) -> Vec<(T, String)> {
    let mut out = vec![];
    let mut nest: Option<usize> = None;
    for (t, s) in toks {
        match (nest, t) {
            (None, T::CommandName(C::If(F::IfFalse | F::IfTypst))) => {
                nest = Some(0);
                continue;
            }
            (Some(n), T::CommandName(C::If(_))) => nest = Some(n + 1),
            (Some(0), T::CommandName(C::EndIf)) => {
                nest = None;
                continue;
            }
            (Some(n), T::CommandName(C::EndIf)) => nest = Some(n - 1),
            _ => {}
        }
        out.push((t, s));
    }
    out
}
/// where an argument starts that follows the head of a command or environment
fn argument_starts(root: &SyntaxNode) -> std::collections::HashSet<usize> {
    root.descendants()
        .filter(|a| a.kind() == K::ClauseArgument && a.prev_sibling_or_token().is_some())
        .filter(|a| a.parent().is_some_and(|p| matches!(p.kind(), K::ItemCmd | K::ItemBegin)))
        .map(|a| usize::from(a.text_range().start()))
        .collect()
}
pub fn c03(c: &Case) -> Res {
    let (root, sp) = parse(c);
    let want = expected(raw_with(&c.s, sp));
    let lv = leaves(&root);
    let sig = |it: &mut dyn Iterator<Item = (bool, &str)>| it.filter(|x| !x.0).map(|x| x.1).collect::<String>();
    let a = sig(&mut want.iter().map(|(t, s)| (t.is_trivia(), s.as_str())));
    let b = sig(&mut lv.iter().map(|t| (trivia(t.kind()), t.text())));
    if a != b {
        return Err(format!("the tokens are {a:?} and the tree has {b:?}"));
    }
    // trivia: only left out before an argument
    let starts = argument_starts(&root);
    let at = |k: usize| lv.get(k).map(|l| l.text_range().start()).unwrap_or(root.text_range().end()).into();
    // how many leaves may have been seen so far
    let mut ks: Vec<usize> = vec![0];
    let mut why = String::new();
    for (t, s) in &want {
        let mut next = vec![];
        for &k in &ks {
            if t.is_trivia() {
                if lv.get(k).is_some_and(|l| trivia(l.kind()) && l.text() == s) {
                    next.push(k + 1);
                }
                if starts.contains(&at(k)) {
                    next.push(k);
                }
                if next.is_empty() {
                    why = format!("{s:?} is left out where no argument of a command follows");
                }
                continue;
            }
            // a significant token: one leaf, or several when a word was split
            let (mut k, mut rest) = (k, s.as_str());
            while !rest.is_empty() {
                match lv.get(k).filter(|l| !trivia(l.kind())).and_then(|l| rest.strip_prefix(l.text())) {
                    Some(r) => rest = r,
                    None => break,
                }
                k += 1;
            }
            if !rest.is_empty() {
                why = format!("{:?} where {rest:?} is expected", lv.get(k).map(|l| l.text()));
                continue;
            }
            if s.is_empty() && lv.get(k).is_some_and(|l| l.text().is_empty()) {
                // the clause of an environment without a name
                k += 1;
            }
            next.push(k);
        }
        next.sort();
        next.dedup();
        if next.is_empty() {
            return Err(why);
        }
        ks = next;
    }
    if !ks.contains(&lv.len()) {
        return Err(format!("{:?} in the tree is not in the input", lv.get(ks[0]).map(|l| l.text())));
    }
    Ok(want.len() >= 2)
}
pub fn c04(c: &Case) -> Res {
    let (root, _) = parse(c);
    if root.kind() != K::ScopeRoot || root.parent().is_some() {
        return Err(format!("the root is {:?}", root.kind()));
    }
    for n in root.descendants().skip(1) {
        if n.kind() == K::ScopeRoot {
            return Err("a second root".into());
        }
    }
    // all of it is reachable
    let t: usize = leaves(&root).iter().map(|t| t.text().len()).sum();
    if t != usize::from(root.text_range().len()) {
        return Err("the length of the tree is not that of its leaves".into());
    }
    Ok(c.s.len() >= 2)
}
fn kind_of(a: &SyntaxNode) -> char {
    match a.first_child_or_token() {
        Some(e) if e.kind() == K::ItemBracket => 'b',
        Some(e) if e.kind() == K::ItemParen => 'p',
        _ => 't',
    }
}
fn pattern(what: &str, p: &ArgPattern, ks: &str) -> Result<(), String> {
    let n = ks.len();
    match p {
        ArgPattern::None if n > 0 => Err(format!("{what} is a symbol and has {n} arguments")),
        ArgPattern::FixedLenTerm { len } if n > *len as usize => Err(format!("{what} takes {len} arguments and has {n}")),
        ArgPattern::RangeLenTerm { max, .. } if n > *max as usize => Err(format!("{what} takes at most {max} arguments and has {n}")),
        ArgPattern::FixedLenTerm { .. } | ArgPattern::RangeLenTerm { .. } if ks.contains(['b', 'p']) => {
            Err(format!("{what} takes terms and has {ks}"))
        }
        ArgPattern::Glob { pattern } => {
            for i in 1..=n {
                if accepted(&pattern.0, &ks[..i]) == Some(false) {
                    return Err(format!("{what} takes {:?} and has {ks}", &*pattern.0));
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
pub fn c05(c: &Case) -> Res {
    let (root, sp) = parse(c);
    let mut some = false;
    for n in root.descendants() {
        let args = || n.children().filter(|a| a.kind() == K::ClauseArgument);
        if n.kind() == K::ItemCmd {
            let Some(name) = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == K::ClauseCommandName) else { continue };
            let pos = name.text_range().start();
            let nm = name.text().trim_start_matches('\\').to_string();
            let ks: String = args().map(|a| kind_of(&a)).collect();
            // an empty argument can start where the name starts: count by order
            let left = n.children_with_tokens().take_while(|e| e.as_token() != Some(&name)).filter(|e| e.kind() == K::ClauseArgument).count();
            let _ = pos;
            let right = ks.len() - left;
            some |= !ks.is_empty();
            let cmd = sp.get_cmd(&name.text()[1..]);
            match cmd.map(|c| &c.args) {
                None if !ks.is_empty() => return Err(format!("\\{nm} is not specified and has {} arguments", ks.len())),
                None => {}
                Some(ArgShape::Right { pattern: ArgPattern::Greedy }) => {
                    if left != 0 || right != 1 {
                        return Err(format!("greedy \\{nm} has {left} arguments before and {right} after"));
                    }
                }
                Some(ArgShape::Right { pattern: p }) => {
                    if left != 0 {
                        return Err(format!("\\{nm} has an argument before it"));
                    }
                    pattern(&format!("\\{nm}"), p, &ks)?;
                }
                Some(ArgShape::Left1) => {
                    if left > 1 || right != 0 {
                        return Err(format!("left-attached \\{nm} has {left} arguments before and {right} after"));
                    }
                }
                Some(ArgShape::InfixGreedy) => {
                    if left > 1 || right != 1 {
                        return Err(format!("infix \\{nm} has {left} arguments before and {right} after"));
                    }
                }
            }
        }
        if n.kind() == K::ItemBegin {
            let Some(name) = n.first_token() else { continue };
            let ks: String = args().map(|a| kind_of(&a)).collect();
            some |= !ks.is_empty();
            match sp.get_env(name.text()) {
                None if !ks.is_empty() => return Err(format!("environment {name} is not specified and has {} arguments", ks.len())),
                None => {}
                Some(e) => pattern(&format!("environment {name}"), &e.args, &ks)?,
            }
        }
    }
    Ok(some)
}
pub fn c06(c: &Case) -> Res {
    let (root, _) = parse(c);
    let mut some = false;
    for n in root.descendants() {
        let direct = |k: K| n.children_with_tokens().filter(|e| e.kind() == k).count();
        let first = n.children_with_tokens().next();
        match n.kind() {
            K::ItemCmd => {
                some = true;
                let names = n.children_with_tokens().filter(|e| e.kind() == K::ClauseCommandName && e.as_token().is_some()).count();
                if names != 1 {
                    return Err(format!("a command with {names} names: {n:?} {:?}", n.text()));
                }
                let t = CmdItem::cast(n.clone()).and_then(|c| c.name_tok());
                if !t.as_ref().is_some_and(|t| t.text().starts_with('\\')) {
                    return Err(format!("name_tok of {:?} is {t:?}", n.text()));
                }
            }
            K::ItemEnv => {
                some = true;
                let e = EnvItem::cast(n.clone()).ok_or("not an environment")?;
                if first.as_ref().map(|e| e.kind()) != Some(K::ItemBegin) || direct(K::ItemBegin) != 1 {
                    return Err(format!("an environment with {} begin clauses", direct(K::ItemBegin)));
                }
                let b = e.begin().ok_or("no begin clause")?;
                let ft = b.syntax().children_with_tokens().next();
                if ft.as_ref().and_then(|t| t.as_token()).map(|t| t.kind()) != Some(K::TokenCommandSym) {
                    return Err(format!("the begin clause starts with {ft:?}"));
                }
                // an empty name is skipped by the tree library when it looks for the first token
                if b.syntax().children_with_tokens().next().is_some_and(|t| !t.text_range().is_empty()) && e.name_tok().is_none() {
                    return Err("an environment without a name".into());
                }
                if direct(K::ItemEnd) > 1 {
                    return Err("two end clauses".into());
                }
                if direct(K::ItemEnd) == 1 && n.last_child_or_token().map(|e| e.kind()) != Some(K::ItemEnd) {
                    return Err("the end clause is not last".into());
                }
            }
            K::ItemFormula => {
                some = true;
                let k = first.as_ref().and_then(|t| t.as_token()).map(|t| t.kind());
                if !matches!(k, Some(K::TokenDollar | K::TokenBeginMath)) {
                    return Err(format!("a formula starts with {k:?}"));
                }
                let f = FormulaItem::cast(n.clone()).ok_or("not a formula")?;
                if f.is_display() == f.is_inline() {
                    return Err(format!("{:?} is neither display nor inline", n.text()));
                }
            }
            K::ItemLR => {
                some = true;
                if first.as_ref().map(|e| e.kind()) != Some(K::ClauseLR) {
                    return Err("no left clause at the start".into());
                }
                let l = LRItem::cast(n.clone()).and_then(|l| l.left()).ok_or("no left clause")?;
                if !l.is_left() {
                    return Err(format!("the left clause is {:?}", l.syntax().text()));
                }
            }
            K::ItemBegin | K::ItemEnd => {
                if n.parent().map(|p| p.kind()) != Some(K::ItemEnv) {
                    return Err(format!("{:?} outside of an environment", n.kind()));
                }
                let k = first.as_ref().and_then(|t| t.as_token()).map(|t| t.kind());
                if k != Some(K::TokenCommandSym) {
                    return Err(format!("{:?} starts with {k:?}", n.kind()));
                }
            }
            K::ClauseLR => {
                if n.parent().map(|p| p.kind()) != Some(K::ItemLR) {
                    return Err("a left or right clause outside of its node".into());
                }
            }
            K::ClauseArgument => {
                if !matches!(n.parent().map(|p| p.kind()), Some(K::ItemCmd | K::ItemBegin | K::ItemAttachComponent)) {
                    return Err("an argument outside of a command".into());
                }
            }
            _ => {}
        }
    }
    Ok(some)
}
const CORE: &[&str] = &[
    "a", "bc", " ", "%c\n", "{", "}", "[", "]", "(", ")", "^", "_", "'", "&", "\\\\", "$", "$$", "\\(", "\\]", "\\left", "\\right", "\\begin{e}", "\\begin{mb}",
    "\\end{e}", "\\iffalse", "\\fi", "\\if", "\\sym", "\\two", "\\gbt", "\\lone", "\\gre", "\\inf", ",",
];
const SMALL: &[&str] = &["a", " ", "{", "}", "[", "^", "'", "&", "$", "\\left", "\\right", "\\begin{m}", "\\end{m}", "\\one", "\\lone", "\\gre", "\\inf", "\\iffalse", "\\fi"];
const FULL: &[&str] = &[
    "a", "bc", "αβγ", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "_", "'", "\"", ";", "#", "*", "@", "$", "$$", "\\\\", "\\(", "\\)",
    "\\[", "\\]", "\\left", "\\right", "\\left(", "\\right)", "\\begin{e}", "\\end{e}", "\\begin{m}", "\\end{m}", "\\begin{mt}", "\\end{mt}", "\\begin{mr}",
    "\\begin{mg}", "\\begin{mb}", "\\end{mb}", "\\begin{mz}", "\\begin{un}", "\\begin{}", "\\end{}", "\\begin", "\\end", "\\iffalse", "\\iftypst", "\\if", "\\ifx",
    "\\else", "\\fi", "\\sym", "\\zero", "\\one", "\\two", "\\three", "\\many", "\\max", "\\rz", "\\ro", "\\rt", "\\rh", "\\rbad", "\\rmax", "\\gt", "\\gbt",
    "\\gbpt", "\\gbb", "\\gall", "\\gtb", "\\lone", "\\gre", "\\inf", "\\unknown", "\\", "{a}", "[b]", "(c)", "1",
];
const REAL: &[&str] = &[
    "a", "bc", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", "&", "^", "_", "'", "$", "$$", "\\\\", "\\(", "\\)", "\\[", "\\]", "\\left", "\\right", "\\begin{matrix}",
    "\\end{matrix}", "\\begin{itemize}", "\\end{itemize}", "\\begin{tabular}", "\\end{tabular}", "\\begin{figure}", "\\end{figure}", "\\begin{aligned}",
    "\\end{aligned}", "\\begin{cases}", "\\end{cases}", "\\item", "\\frac", "\\sqrt", "\\sum", "\\limits", "\\over", "\\displaystyle", "\\alpha", "\\text", "\\label",
    "\\caption", "\\includegraphics", "\\textbf", "\\section", "\\operatorname", "\\mathrm", "\\color", "\\hline", "\\iftypst", "\\fi", "{a}", "[b]", "(c)", "|",
];
pub fn cases(p: &str, th: bool, seed: u64) -> Iter {
    let with = |k: u64, it: Iter| -> Iter { Box::new(it.map(move |c| Case { s: c.s, n: vec![k] })) };
    let m = if th { 150 } else { 10 };
    let n = if p == "C05" { 2 } else { 1 };
    let mut v = vec![
        with(1, exhaustive(CORE, 3)),
        with(1, exhaustive(SMALL, if th { 5 } else { 4 })),
        with(1, random(FULL, 3, 9, 120_000 * m * n, seed)),
        with(1, random(FULL, 8, 40, 60_000 * m, seed + 1)),
        with(1, random(SMALL, 5, 20, 100_000 * m, seed + 2)),
        with(0, random(REAL, 3, 30, 60_000 * m, seed + 3)),
    ];
    if p == "C05" || p == "C04" {
        // the limits
        let mut l = vec![];
        for cmd in ["\\many", "\\max", "\\rmax"] {
            for n in [253, 254, 255, 256, 257, 300, 520] {
                l.push(Case { s: format!("{cmd} {}", "a".repeat(n)), n: vec![1] });
                l.push(Case { s: format!("{cmd} {}", "{}".repeat(n)), n: vec![1] });
                l.push(Case { s: format!("{cmd} {}", "a {b}".repeat(n / 2)), n: vec![1] });
                l.push(Case { s: format!("{cmd} {}", "[".repeat(n)), n: vec![1] });
            }
        }
        v.insert(0, list(l));
    }
    chain(v)
}
// ---------------------------------------------------------------- C18
const KINDS: &[K] = &[
    K::TokenError, K::TokenLineBreak, K::TokenWhiteSpace, K::TokenComment, K::TokenLBrace, K::TokenRBrace, K::TokenLBracket, K::TokenRBracket, K::TokenLParen,
    K::TokenRParen, K::TokenComma, K::TokenTilde, K::TokenSlash, K::TokenWord, K::TokenDollar, K::TokenBeginMath, K::TokenEndMath, K::TokenAmpersand, K::TokenHash,
    K::TokenAsterisk, K::TokenAtSign, K::TokenUnderscore, K::TokenCaret, K::TokenApostrophe, K::TokenDitto, K::TokenSemicolon, K::TokenCommandSym,
    K::ClauseCommandName, K::ClauseArgument, K::ClauseLR, K::ItemNewLine, K::ItemText, K::ItemCurly, K::ItemBracket, K::ItemParen, K::ItemCmd, K::ItemEnv, K::ItemLR,
    K::ItemBegin, K::ItemEnd, K::ItemBlockComment, K::ItemTypstCode, K::ItemAttachComponent, K::ItemFormula, K::ScopeRoot,
];
fn tokens() -> Vec<(T, K)> {
    use BraceKind::*;
    let mut v = vec![
        (T::LineBreak, K::TokenLineBreak), (T::Whitespace, K::TokenWhiteSpace), (T::LineComment, K::TokenComment),
        (T::Left(Curly), K::TokenLBrace), (T::Right(Curly), K::TokenRBrace), (T::Left(Bracket), K::TokenLBracket), (T::Right(Bracket), K::TokenRBracket),
        (T::Left(Paren), K::TokenLParen), (T::Right(Paren), K::TokenRParen), (T::Comma, K::TokenComma), (T::Tilde, K::TokenTilde), (T::Slash, K::TokenSlash),
        (T::Ampersand, K::TokenAmpersand), (T::Caret, K::TokenCaret), (T::Apostrophe, K::TokenApostrophe), (T::Ditto, K::TokenDitto),
        (T::Semicolon, K::TokenSemicolon), (T::Hash, K::TokenHash), (T::Asterisk, K::TokenAsterisk), (T::AtSign, K::TokenAtSign),
        (T::Underscore, K::TokenUnderscore), (T::Word, K::TokenWord), (T::Dollar, K::TokenDollar), (T::NewLine, K::ItemNewLine), (T::Error, K::TokenError),
        (T::CommandName(C::Generic), K::ClauseCommandName), (T::CommandName(C::BeginEnvironment), K::TokenCommandSym),
        (T::CommandName(C::EndEnvironment), K::TokenCommandSym), (T::CommandName(C::BeginMath), K::TokenBeginMath), (T::CommandName(C::EndMath), K::TokenEndMath),
        (T::CommandName(C::ErrorBeginEnvironment), K::TokenError), (T::CommandName(C::ErrorEndEnvironment), K::TokenError),
        (T::CommandName(C::Else), K::ClauseCommandName), (T::CommandName(C::EndIf), K::ClauseCommandName), (T::CommandName(C::Left), K::ClauseCommandName),
        (T::CommandName(C::Right), K::ClauseCommandName),
    ];
    for f in [F::If, F::IfTypst, F::IfFalse, F::IfTrue, F::IfCase, F::IfNum, F::IfCat, F::IfX, F::IfVoid, F::IfHBox, F::IfVBox, F::IfHMode, F::IfMMode, F::IfVMode,
        F::IfInner, F::IfDim, F::IfEof, F::IfStar] {
        v.push((T::CommandName(C::If(f)), K::ClauseCommandName));
    }
    for i in 0..=255 {
        v.push((T::MacroArg(i), K::TokenWord));
    }
    v
}
pub fn c18_cases() -> Iter {
    let k = KINDS.len() as u64;
    let t = tokens().len() as u64;
    list((0..k).map(|i| Case { s: String::new(), n: vec![0, i] }).chain((0..t).map(|i| Case { s: String::new(), n: vec![1, i] })).collect())
}
pub fn c18(c: &Case) -> Res {
    let (Some(&m), Some(&i)) = (c.n.first(), c.n.get(1)) else { return Err("malformed case".into()) };
    let i = i as usize;
    if m == 0 {
        let k = KINDS[i];
        let r: rowan::SyntaxKind = k.into();
        let back: K = r.into();
        if back != k {
            return Err(format!("{k:?} comes back as {back:?}"));
        }
        let l = <TexLang as rowan::Language>::kind_from_raw(<TexLang as rowan::Language>::kind_to_raw(k));
        if l != k {
            return Err(format!("{k:?} comes back as {l:?} through the language"));
        }
        for o in KINDS {
            let ro: rowan::SyntaxKind = (*o).into();
            if (ro == r) != (*o == k) {
                return Err(format!("{k:?} and {o:?} have the codes {r:?} and {ro:?}"));
            }
        }
    } else {
        let (t, k) = tokens()[i];
        let g: K = t.into();
        if g != k {
            return Err(format!("{t:?} has the kind {g:?} and not {k:?}"));
        }
    }
    Ok(true)
}
