//! vx: mechanical extraction of functions of /repo into a Verus file with
//! contracts spliced in.  See DESIGN.md ("Extraction").
mod rules;
mod unit;
mod xform;

use std::collections::BTreeMap;
use std::fs;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let repo = arg("--repo").unwrap_or_else(|| "/repo".into());
    let unit = arg("--unit").expect("--unit");
    let prop = arg("--prop").unwrap_or_else(|| "ALL".into());
    let out = arg("--out").expect("--out");
    let meta = arg("--meta").expect("--meta");
    let record = arg("--record"); // write the pristine skeletons there
    let pristine: BTreeMap<String, unit::Pristine> = arg("--pristine")
        .and_then(|p| fs::read_to_string(p).ok())
        .map(|s| unit::parse_pristine(&s))
        .unwrap_or_default();
    let text = unit::load(&unit);
    let mut u = unit::parse(&text, &prop);
    u.canary = arg("--canary").is_some();
    u.skip = arg("--skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let r = unit::generate(&u, &repo, &pristine);
    fs::write(&out, &r.code).unwrap();
    fs::write(&meta, serde_json::to_string_pretty(&r.meta).unwrap()).unwrap();
    if let Some(p) = record {
        fs::write(p, serde_json::to_string_pretty(&r.pristine).unwrap()).unwrap();
    }
}
