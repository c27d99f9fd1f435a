//! C17: the command line, run as a child process
use crate::gen::*;
use crate::{Case, Res};
use std::path::Path;
use std::process::Command;

/// prints what the compile command would read and write
pub fn child() {
    use mitex_cli::{CompileStage, Subcommands};
    match mitex_cli::get_os_opts(false) {
        Ok(o) => match o.sub {
            Some(Subcommands::Compile(a)) => {
                let st = match a.stage {
                    None => "none",
                    Some(CompileStage::Syntax) => "syntax",
                    Some(CompileStage::Document) => "document",
                };
                println!("{}", serde_json::json!({"i": a.input, "o": a.output, "stage": st, "w": a.workspace}));
            }
            _ => println!("other"),
        },
        Err(e) => {
            println!("rejected {}", e.kind());
        }
    }
    std::process::exit(0);
}
const NAMES: &[&str] = &["a.tex", "b.typ", "main", "x.y.tex", "d.ir/in", "d.ir/in.tex", "é α.tex", ".tex", "a.", "", "..", "in.typ", "/abs/t.tex"];
/// n: mode, input (0 none, k name k-1), output, form bits, positional names.., 99 stage marks
pub fn cases(th: bool, seed: u64) -> Iter {
    let mut v = vec![];
    let k = NAMES.len() as u64;
    for i in 0..=k {
        for o in 0..=k {
            for f in 0..4 {
                v.push(Case { s: String::new(), n: vec![0, i, o, f] });
            }
        }
    }
    for a in 1..=k {
        for i in [0, 1, k] {
            v.push(Case { s: String::new(), n: vec![0, i, 0, 0, a] });
            v.push(Case { s: String::new(), n: vec![0, 0, i, 0, a] });
            v.push(Case { s: String::new(), n: vec![0, i, i, 1, a] });
        }
        for b in 1..=k {
            v.push(Case { s: String::new(), n: vec![0, 0, 0, (a + b) % 8, a, b] });
            v.push(Case { s: String::new(), n: vec![0, 0, (a + b) % 2, (a + b) % 8, a, b] });
            v.push(Case { s: String::new(), n: vec![0, 0, 0, 0, a, b, 1] });
        }
    }
    let files: Vec<Case> = (0..if th { 400 } else { 40 }).map(|i| Case { s: String::new(), n: vec![1, i] }).collect();
    chain(vec![
        list(files),
        list(v),
        from_fn(if th { 30_000 } else { 1500 }, seed, move |r, _| {
            let mut n = vec![0, r.below(k as usize + 1) as u64, r.below(k as usize + 1) as u64, r.below(32) as u64];
            if r.below(3) > 0 {
                n[1] = 0;
                n[2] = 0;
            }
            for _ in 0..r.below(5) {
                n.push(1 + r.below(k as usize) as u64);
            }
            Case { s: String::new(), n }
        }),
    ])
}
fn nm(i: u64) -> Option<&'static str> {
    NAMES.get((i as usize).wrapping_sub(1)).copied()
}
pub fn check(c: &Case) -> Res {
    match c.n.first() {
        Some(0) if c.n.len() >= 4 => opts(c),
        Some(1) if c.n.len() == 2 => files(c),
        _ => Err("malformed case".into()),
    }
}
fn opts(c: &Case) -> Res {
    let (inp, out, f) = (nm(c.n[1]), nm(c.n[2]), c.n[3]);
    let pos: Vec<&str> = c.n[4..].iter().filter_map(|x| nm(*x)).collect();
    let mut args: Vec<String> = vec![if f & 2 == 0 { "compile".into() } else { "c".into() }];
    let mut named = vec![];
    if let Some(i) = inp {
        named.push(if f & 1 == 0 { vec!["-i".to_string(), i.into()] } else { vec![format!("--input={i}")] });
    }
    if let Some(o) = out {
        named.push(if f & 1 == 0 { vec!["-o".to_string(), o.into()] } else { vec!["--output".into(), o.into()] });
    }
    let mut stage = "none";
    if f & 4 != 0 {
        stage = if f & 8 != 0 { "syntax" } else { "document" };
        named.push(vec!["--stage".into(), stage.into()]);
    }
    if f & 16 != 0 {
        named.reverse();
    }
    args.extend(named.into_iter().flatten());
    args.extend(pos.iter().map(|s| s.to_string()));
    // what the documentation says
    let (gi, go) = (inp.unwrap_or(""), out.unwrap_or(""));
    let given = !gi.is_empty() || !go.is_empty();
    let want = if pos.len() > 2 || (given && !pos.is_empty()) {
        None
    } else {
        let i = pos.first().copied().unwrap_or(gi);
        let o = pos.get(1).copied().unwrap_or(go);
        if i.is_empty() {
            None
        } else if o.is_empty() {
            Some((i.to_string(), Path::new(i).with_extension("typ").to_str().unwrap().to_string()))
        } else {
            Some((i.to_string(), o.to_string()))
        }
    };
    let r = Command::new(std::env::current_exe().unwrap())
        .args(&args)
        .env("VX_CLI_CHILD", "1")
        .env("RUST_BACKTRACE", "0")
        .output()
        .map_err(|_| "malformed case".to_string())?;
    let so = String::from_utf8_lossy(&r.stdout).to_string();
    let got: Option<serde_json::Value> = serde_json::from_str(so.trim()).ok();
    let shown = format!("mitex {args:?} gave {:?} {}", r.status.code(), so.trim());
    match (&want, &got) {
        (None, None) => {
            if r.status.code() == Some(101) || r.status.code().is_none() {
                return Err(format!("{shown}: a panic"));
            }
            Ok(false)
        }
        (None, Some(_)) => Err(format!("{shown}, which should be rejected")),
        (Some(w), None) => Err(format!("{shown}, expected {w:?}")),
        (Some((i, o)), Some(g)) => {
            if g["i"] != i.as_str() || g["o"] != o.as_str() {
                return Err(format!("{shown}, expected {i:?} and {o:?}"));
            }
            if g["stage"] != stage {
                return Err(format!("{shown}, expected the stage {stage}"));
            }
            Ok(true)
        }
    }
}
/// the mitex program on files in a scratch directory
fn files(c: &Case) -> Res {
    let k = c.n[1];
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("vmitex");
    let d = std::env::temp_dir().join(format!("vx-cli-{}-{k}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("sub")).map_err(|e| e.to_string())?;
    let texts = ["hello $a^2$ world", "\\begin{itemize}\\item a\\end{itemize}", "α % c\n b", "\\unknowncommand", "x"];
    let mut r = Rng::new(k);
    let text = texts[r.below(texts.len())];
    let other = texts[r.below(texts.len())];
    let ins = ["a.tex", "sub/b.tex", "c.d.tex", "noext"];
    let i = ins[r.below(4)];
    let o = ["out.typ", "sub/o.txt", "a.typ"][r.below(3)];
    let mut before = std::collections::BTreeMap::new();
    for n in ins {
        let t = if n == i { text } else { other };
        std::fs::write(d.join(n), t).map_err(|e| e.to_string())?;
        before.insert(n.to_string(), t.to_string());
    }
    let syntax = r.below(3) == 0;
    let mut args: Vec<String> = vec!["compile".into()];
    if syntax {
        args.extend(["--stage".to_string(), "syntax".into()]);
    } else if r.below(3) == 0 {
        args.extend(["--stage".to_string(), "document".into()]);
    }
    let out = match r.below(4) {
        0 => { args.push(i.into()); None }
        1 => { args.extend([i.to_string(), o.into()]); Some(o) }
        2 => { args.extend(["-i".to_string(), i.into()]); None }
        _ => { args.extend(["-o".to_string(), o.into(), "-i".into(), i.into()]); Some(o) }
    };
    let out = out.map(|s| s.to_string()).unwrap_or_else(|| Path::new(i).with_extension("typ").to_str().unwrap().to_string());
    let p = Command::new(&exe).args(&args).current_dir(&d).output().map_err(|e| format!("cannot run mitex: {e}"))?;
    let want: Option<String> = if syntax {
        Some(format!("{:#?}", mitex_parser::parse(text, super::lex::spec())))
    } else {
        mitex::convert_text(text, Some(super::lex::spec())).ok()
    };
    // what is there afterwards
    let mut after = std::collections::BTreeMap::new();
    for dir in ["", "sub/"] {
        for e in std::fs::read_dir(d.join(dir)).unwrap().flatten() {
            if e.file_type().unwrap().is_file() {
                after.insert(format!("{dir}{}", e.file_name().to_str().unwrap()), std::fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
    }
    std::fs::remove_dir_all(&d).map_err(|e| e.to_string())?;
    for (n, t) in &before {
        if *n != out && after.get(n) != Some(t) {
            return Err(format!("mitex {args:?} changed the file {n}"));
        }
    }
    for n in after.keys() {
        if *n != out && !before.contains_key(n) {
            return Err(format!("mitex {args:?} wrote the file {n}"));
        }
    }
    match want {
        Some(w) => {
            let g = after.get(&out);
            if !p.status.success() || !g.is_some_and(|g| g.ends_with(&w)) {
                return Err(format!("mitex {args:?} on {text:?} ended with {:?} and {g:?} in {out}", p.status.code()));
            }
            Ok(true)
        }
        None => {
            if p.status.success() || after.contains_key(&out) != before.contains_key(&out) {
                return Err(format!("mitex {args:?} on {text:?} ended with {:?} although it does not convert", p.status.code()));
            }
            Ok(true)
        }
    }
}
