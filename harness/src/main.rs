//! Replay harness: runs the real crates on concrete inputs and compares with
//! executable statements of the properties.  `run` searches a bounded, seeded
//! set of cases (used to find a failing input for a failed obligation, to test
//! the contracts assumed on external code, and as the labelled bounded
//! stand-in for functions outside the verifier's reach); `replay` re-runs one.
mod gen;
mod props;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub s: String,
    pub n: Vec<u64>,
}
impl Case {
    pub fn s(s: impl Into<String>) -> Case {
        Case { s: s.into(), n: vec![] }
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"s": self.s, "n": self.n})
    }
    pub fn from(v: &serde_json::Value) -> Case {
        Case {
            s: v["s"].as_str().unwrap().into(),
            n: v["n"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
        }
    }
}
/// Ok(nontrivial) or Err(what is wrong)
pub type Res = Result<bool, String>;

fn opt(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
thread_local!(static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

pub fn guarded(prop: &str, c: &Case) -> Res {
    match panic::catch_unwind(|| props::check(prop, c)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}
fn known() -> Vec<serde_json::Value> {
    opt("--known").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
}

fn main() {
    if std::env::var_os("VX_CLI_CHILD").is_some() {
        return props::cli::child();
    }
    panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(),
        Some("run") => run(),
        Some("replay") => {
            let f = std::fs::read_to_string(&a[2]).unwrap();
            let v: serde_json::Value = serde_json::from_str(&f).unwrap();
            let p = v["property"].as_str().unwrap().to_string();
            let c = Case::from(&v["case"]);
            let r = big(move || guarded(&p, &c));
            println!("{r:?}");
            std::process::exit(if r.is_err() { 1 } else { 0 });
        }
        _ => {
            eprintln!("harness run|worker|replay");
            std::process::exit(2)
        }
    }
}
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 29).spawn(f).unwrap().join().unwrap()
}
/// parent: runs the worker as a child so that aborts, hangs and memory exhaustion are seen
fn run() {
    let out = opt("--out").unwrap();
    let args: Vec<String> = std::env::args().skip(2).collect();
    let exe = std::env::current_exe().unwrap();
    let go = |trace: bool| {
        let mut c = Command::new(&exe);
        c.arg("worker").args(&args);
        if trace {
            c.args(["--trace", &format!("{out}.trace")]);
        }
        c.status().unwrap()
    };
    let _ = std::fs::remove_file(&out);
    let st = go(false);
    if std::path::Path::new(&out).exists() && (st.code() == Some(0) || st.code() == Some(1)) {
        std::process::exit(st.code().unwrap());
    }
    // crashed: find the case
    let _ = std::fs::remove_file(&out);
    let st2 = go(true);
    if std::path::Path::new(&out).exists() && (st2.code() == Some(0) || st2.code() == Some(1)) {
        std::process::exit(st2.code().unwrap());
    }
    let t = std::fs::read_to_string(format!("{out}.trace")).unwrap_or_default();
    let case: serde_json::Value = serde_json::from_str(&t).unwrap_or(serde_json::json!({"s":"","n":[]}));
    let v = serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash", "samples": [case],
        "violation": {"property": opt("--prop"), "case": case, "what": format!("the process died: {st} / {st2}")}});
    std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    std::process::exit(1);
}
fn worker() {
    let prop = opt("--prop").unwrap();
    let out = opt("--out").unwrap();
    let tier = opt("--tier").unwrap_or("quick".into());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(60);
    let trace = opt("--trace");
    let nthreads = if trace.is_some() { 1 } else { 8 };
    unsafe {
        // memory: a runaway allocation ends this process, not the sandbox
        let l = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let t0 = Instant::now();
    let cases = Arc::new(Mutex::new(props::cases(&prop, &tier, seed)));
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicUsize::new(0));
    let found: Arc<Mutex<Vec<(Case, String)>>> = Default::default();
    let knownhit: Arc<Mutex<HashSet<String>>> = Default::default();
    let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
    let samples: Arc<Mutex<Vec<serde_json::Value>>> = Default::default();
    let cur: Vec<Arc<Mutex<Option<(Case, Instant)>>>> = (0..nthreads).map(|_| Default::default()).collect();
    let capped = Arc::new(AtomicBool::new(false));
    let kn: Vec<(String, Case)> = known()
        .iter()
        .filter(|k| k["property"] == prop.as_str() && k["case"].is_object())
        .map(|k| (k["what"].as_str().unwrap_or("").to_string(), Case::from(&k["case"])))
        .collect();
    // the listed findings are re-run, so that the line is printed for what fails today
    for (w, c) in &kn {
        let (p, c2) = (prop.clone(), c.clone());
        if big(move || guarded(&p, &c2)).is_err() {
            knownhit.lock().unwrap().insert(w.clone());
        }
    }
    let mut hs = vec![];
    for t in 0..nthreads {
        let (prop, cases, stop, evals, found, seen, samples, cur, trace, capped, kn) = (
            prop.clone(), cases.clone(), stop.clone(), evals.clone(), found.clone(), seen.clone(), samples.clone(),
            cur[t].clone(), trace.clone(), capped.clone(), kn.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn(move || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs() > secs {
                        capped.store(true, Ordering::Relaxed);
                        break;
                    }
                    let batch: Vec<Case> = {
                        let mut c = cases.lock().unwrap();
                        c.by_ref().take(64).collect()
                    };
                    if batch.is_empty() {
                        break;
                    }
                    for c in batch {
                        if let Some(f) = &trace {
                            std::fs::write(f, c.json().to_string()).unwrap();
                        }
                        *cur.lock().unwrap() = Some((c.clone(), Instant::now()));
                        let r = guarded(&prop, &c);
                        *cur.lock().unwrap() = None;
                        let n = evals.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(nt) => {
                                if nt {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    (&c.s, &c.n).hash(&mut h);
                                    seen.lock().unwrap().insert(h.finish());
                                    if n % 997 == 0 || n < 3 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 12 && c.s.len() < 300 {
                                            s.push(c.json());
                                        }
                                    }
                                }
                            }
                            Err(w) => {
                                if kn.iter().any(|(_, k)| *k == c) {
                                    continue;
                                }
                                found.lock().unwrap().push((c, w));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    let done = Arc::new(AtomicBool::new(false));
    {
        let (done, cur, out, prop) = (done.clone(), cur.clone(), out.clone(), prop.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::Relaxed) {
                return;
            }
            for c in &cur {
                if let Some((c, t)) = &*c.lock().unwrap() {
                    if t.elapsed() > Duration::from_secs(60) {
                        let v = serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": "hang", "samples": [c.json()],
                            "violation": {"property": prop, "case": c.json(), "what": "no answer within 60 s"}});
                        std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    for h in hs {
        h.join().unwrap();
    }
    done.store(true, Ordering::Relaxed);
    let mut f = found.lock().unwrap().clone();
    f.sort_by_key(|(c, _)| (c.s.len(), c.n.len()));
    let viol = f.first().map(|(c, w)| {
        let (p, c2) = (prop.clone(), c.clone());
        let (c, w) = big(move || shrink(&p, c2)).map(|(c, w)| (c, w)).unwrap_or((c.clone(), w.clone()));
        serde_json::json!({"property": prop, "case": c.json(), "what": w})
    });
    let v = serde_json::json!({
        "evaluations": evals.load(Ordering::Relaxed),
        "distinct_nontrivial": seen.lock().unwrap().len(),
        "rule": props::rule(&prop), "samples": *samples.lock().unwrap(),
        "time_capped": capped.load(Ordering::Relaxed),
        "known": knownhit.lock().unwrap().iter().cloned().collect::<Vec<_>>(),
        "violation": viol,
    });
    std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    std::io::stdout().flush().unwrap();
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
/// greedy shrinking by deleting chunks of the text
fn shrink(prop: &str, c: Case) -> Option<(Case, String)> {
    let t0 = Instant::now();
    let mut best = c;
    let mut why = guarded(prop, &best).err()?;
    // cases whose parts belong together
    if prop == "C13" || (prop == "C14" && best.n.len() < 4) || (prop == "C15" && best.n.len() > 2) {
        return Some((best, why));
    }
    let mut len = best.s.chars().count() / 2;
    while len >= 1 && t0.elapsed().as_secs() < 10 {
        let mut i = 0;
        let mut changed = false;
        while i + len <= best.s.chars().count() && t0.elapsed().as_secs() < 10 {
            let s: String = best.s.chars().enumerate().filter(|(k, _)| *k < i || *k >= i + len).map(|x| x.1).collect();
            let c = Case { s, n: best.n.clone() };
            match guarded(prop, &c) {
                Err(w) if w != "malformed case" => {
                    best = c;
                    why = w;
                    changed = true;
                }
                _ => i += 1,
            }
        }
        if !changed || len > best.s.chars().count() {
            len /= 2;
        }
    }
    // a case that is a list of steps: leave steps out
    if prop == "C10" {
        let mut i = 0;
        while i < best.n.len() {
            let mut c = best.clone();
            c.n.remove(i);
            match guarded(prop, &c) {
                Err(w) if w != "malformed case" => {
                    best = c;
                    why = w;
                }
                _ => i += 1,
            }
        }
    }
    Some((best, why))
}
