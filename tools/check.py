#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

 (A) extract the functions from the source, splice the contracts in, run Verus: every obligation accepted -> held
 (B) the replay harness runs the real crates on a bounded, seeded set of inputs against an executable statement of
     the property: it looks for the failing input of a failed obligation, tests the contracts that are assumed on
     external code, and is the (labelled, bounded) stand-in for functions outside the verifier's reach
 A failing input              -> VIOLATION property=<id> replay=<file>
 A failed obligation, no input -> VIOLATION ... no-failing-input-found
 A tool limit (construct not supported, anchor lost, resource limit) is no alarm: the evidence then drops to the
 bounded exploration that was done.
"""
import hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV["PATH"] = "/opt/typst/bin:" + ENV["PATH"]
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
T = os.path.join(V, ".target")
W = os.path.join(V, ".work")


def sh(cmd, timeout=880, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def s(x):
            return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, s(e.stdout), s(e.stderr) + "\ntimeout"


def build(manifest, target):
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = target
    return sh(["cargo", "build", "--offline", "-q", "--manifest-path", manifest], env=env)


OBLIG = ["postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
         "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
         "loop ensures not satisfied", "could not prove termination", "bitvector assertion not satisfied",
         "split assertion failure", "split precondition failure", "split postcondition failure",
         "possible bit shift underflow/overflow", "failed precondition", "precondition not met", "the loop", "loop invariant",
         "index out of bounds", "requires not satisfied", "cannot show"]


def parse_errors(err):
    """[(kind, message, [lines], text)] kind: oblig | limit"""
    out = []
    blocks = re.split(r"(?m)^(?=error)", err)
    for b in blocks:
        if not b.startswith("error"):
            continue
        m = re.match(r"error(\[E\d+\])?: (.*)", b)
        if not m:
            continue
        msg = m.group(2)
        if msg.startswith("aborting due to"):
            continue
        lines = [int(x) for x in re.findall(r"(?m)^ *--> [^\n:]*:(\d+):", b)]
        lines += [int(x) for x in re.findall(r"(?m)^(\d+) +\|", b)]
        if m.group(1) is None and any(o in msg for o in OBLIG):
            kind = "oblig"
        else:
            kind = "limit"
        out.append((kind, msg, lines, b.rstrip()))
    return out


def clause(text, lines):
    """the source text of the failing clause"""
    m = re.search(r"(?m)^ *--> [^\n:]*:(\d+):", text)
    if m:
        n = m.group(1)
        q = re.search(r"(?m)^%s +\| ?(.*)$" % n, text)
        if q:
            return q.group(1).strip().strip("|").strip()
    return ""


def aux(text):
    """the clause that fails is marked as belonging to another property"""
    ls = text.split("\n")
    return any("/*aux*/" in a and re.match(r"^ *\| *[ \-^]*[\-^]{3}", b) for a, b in zip(ls, ls[1:]))


def run_unit(unit, prop, tier, res):
    name = unit
    uf = os.path.join(V, "units", unit + ".vu")
    pf = os.path.join(V, "units", unit + ".pristine.json")
    out = os.path.join(W, f"{prop}_{unit}.rs")
    meta = os.path.join(W, f"{prop}_{unit}.json")
    r = {"unit": unit, "errors": [], "limits": [], "failed": [], "verified": 0, "fns": []}
    res[unit] = r
    base = [os.path.join(T, "vx/debug/vx"), "--repo", REPO, "--unit", uf, "--prop", prop, "--pristine", pf]
    rl = str(PROPS[prop].get("rlimit", 60) * (3 if tier == "thorough" else 1))
    cmd = ["verus", out, "--output-json", "--time-expanded", "--multiple-errors", "8", "--rlimit", rl, "--num-threads", "6"]
    r["cmd"] = "verus %s --rlimit %s" % (os.path.relpath(out, V), rl)
    skip, early = set(), []
    while True:
        c, o, e = sh(base + ["--out", out, "--meta", meta] + (["--skip", ",".join(sorted(skip))] if skip else []))
        if c != 0:
            r["limits"].append("extraction: " + (e.strip().splitlines() or ["?"])[0][:400])
            return
        m = json.load(open(meta))
        r["fns"] = m["fns"]
        code = open(out).read()
        # functions whose body is proved in the check of another property of this unit: here only their contract is used
        ls = code.split("\n")
        for f in r["fns"]:
            k = f["from"] - 1
            near = ls[k:min(k + 6, f["to"])]
            f["assumed"] = any("#[verifier::external_body]" in x for x in near)
        r["assumed_fns"] = [f["fn"] for f in r["fns"] if f["assumed"] and f["fn"] not in skip]
        r["fns"] = [f for f in r["fns"] if not f["assumed"]]
        r["code_sha"] = hashlib.sha256(code.encode()).hexdigest()[:16]
        t0, noans = time.time(), None
        c, o, e = sh(cmd, timeout=PROPS[prop].get("verus_timeout", 700), cwd=W)
        r["verus_s"] = r.get("verus_s", 0) + time.time() - t0
        open(os.path.join(W, f"{prop}_{unit}.log"), "w").write(e)
        try:
            j = json.loads(o)
            vr = j["verification-results"]
            r["verified"] = vr.get("verified", 0)
            r["nerrors"] = vr.get("errors", 0)
            r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
            r["complete"] = not vr.get("encountered-vir-error", True) and vr.get("verified", 0) + vr.get("errors", 0) > 0
            fb = []
            for mm in j["times-ms"]["smt"].get("smt-run-module-times", []):
                for f in mm.get("function-breakdown", []):
                    fb.append((f["function"], f.get("success"), f.get("time", 0)))
            r["breakdown"] = fb
        except Exception as ex:  # no answer from the verifier
            r["complete"] = False
            noans = "verus gave no result: %s" % (e.strip().splitlines() or [str(ex)])[-1][:300]
        # functions that the verifier does not take any more are left out (their contract stays), the others are decided
        holes = [(x, x[3:].split(": ")[0]) if x.startswith("fn ") else (x, None) for x in m["errors"]]
        if not r["complete"]:
            for kind, msg, lines, text in parse_errors(e):
                if kind == "limit":
                    at = [f["fn"] for f in m["fns"] if any(f["from"] <= l <= f["to"] for l in lines)]
                    holes.append(("verus: %s%s" % (msg[:200], " in " + at[0] if at else ""), at[0] if at else None))
        names = {n for x, n in holes if n}
        if not holes or any(n is None for x, n in holes) or names <= skip or len(skip | names) > 4:
            break
        early += ["out of reach, contract only: " + x for x in dict.fromkeys(x for x, n in holes if n not in skip)]
        skip |= names
    r["limits"] += early + ([noans] if noans else [])
    r["skipped"] = sorted(skip)
    r["limits"] += ["extraction: " + x for x in m["errors"]]
    for kind, msg, lines, text in parse_errors(e):
        fn = None
        for f in m["fns"]:
            if any(f["from"] <= l <= f["to"] for l in lines):
                # the innermost hit: the function whose body holds an error line
                if fn is None or any(f["from"] <= l <= f["to"] for l in lines[:1]):
                    fn = f
        d = {"msg": msg, "fn": fn["fn"] if fn else "(lemma)", "clause": clause(text, lines), "text": text}
        if kind == "limit":
            r["limits"].append("verus: %s%s" % (msg[:200], " in " + fn["fn"] if fn else ""))
        else:
            if aux(text):
                r["limits"].append("a clause that serves another property fails: %s in %s" % (msg, fn["fn"] if fn else "?"))
            elif fn and fn["skeleton_changed"]:
                r["limits"].append("loop structure of %s changed, its contract does not fit any more: %s" % (fn["fn"], msg))
            else:
                r["failed"].append(d)
    if not r["complete"] or any(x.startswith("extraction") for x in r["limits"]):
        # with a hole in the extraction, what fails is not named reliably
        for d in r["failed"]:
            r["limits"].append("not decided: %s in %s" % (d["msg"], d["fn"]))
        r["failed"] = []
    if r.get("complete") and not r["failed"] and not r["limits"] and r.get("nerrors", 0) > 0:
        r["limits"].append("verus reports errors that could not be attributed")
    if not r["failed"] and not r["limits"]:
        # vacuity: an assertion of false at the start of every body (thorough: and every loop) must be refused
        c2 = os.path.join(W, f"{prop}_{unit}_canary.rs")
        c, o, e = sh(base + ["--canary", "start" if tier == "quick" else "start", "--out", c2, "--meta", c2 + ".json"])
        mm = json.load(open(c2 + ".json"))
        c, o, e = sh(["verus", c2, "--multiple-errors", "1" if tier == "quick" else "40", "--rlimit", rl, "--num-threads", "6"], timeout=600 if tier == "quick" else 3000, cwd=W)
        src = open(c2).read().split("\n")
        want = [i + 1 for i, l in enumerate(src) if "/*canary*/" in l]
        got = set()
        for kind, msg, lines, text in parse_errors(e):
            got.update(lines)
        miss = [l for l in want if l not in got]
        if tier == "quick":
            # one refusal per function; the thorough tier wants every one
            miss = [l for f in mm["fns"] for l in [w for w in want if f["from"] <= w <= f["to"]][:1]
                    if not any(f["from"] <= g <= f["to"] for g in got)]
        r["canaries"] = len([l for l in want if l in got])
        if miss and want:
            ok = r["assumed_fns"]
            names = [f["fn"] for f in mm["fns"] for l in miss if f["from"] <= l <= f["to"]]
            names = [n for n in names if n not in ok]
            if names:
                r["limits"].append("vacuous: assert(false) accepted in " + ", ".join(sorted(set(names))))
    r["trusted"] = trusted(code)


def run_kani(prop, tier, res):
    """loop-free proofs over full domains, of contracts in kani/src/lib.rs on the real functions of /repo's crates"""
    r = {"unit": "kani", "errors": [], "limits": [], "failed": [], "verified": 0, "fns": [], "trusted": [], "back_end": "Kani / CBMC"}
    res["kani"] = r
    P = PROPS[prop]["kani"]
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "-Z", "function-contracts", "--target-dir", os.path.join(T, "kani"), "--output-format", "terse"]
    for h in P["harnesses"] + ["vacuity"]:
        cmd += ["--harness", "proofs::" + h]
    r["cmd"] = "cd kani; " + " ".join(cmd).replace(V + "/", "../")
    t0 = time.time()
    c, o, e = sh(cmd, timeout=700, cwd=os.path.join(V, "kani"), env=env)
    open(os.path.join(W, f"{prop}_kani.log"), "w").write(o + e)
    r["verus_s"] = time.time() - t0
    seen = {}
    for b in re.split(r"(?m)^(?=Checking harness )", o):
        m = re.match(r"Checking harness (?:proofs::)?(\w+)", b)
        if not m:
            continue
        ok = "VERIFICATION:- SUCCESSFUL" in b
        fl = re.findall(r"Failed Checks: (.*)", b)
        tm = re.search(r"Verification Time: ([\d.]+)", b)
        r["smt_ms"] = r.get("smt_ms", 0) + int(float(tm.group(1)) * 1000) if tm else r.get("smt_ms", 0)
        seen[m.group(1)] = (ok, fl, b)
    if "vacuity" in seen:
        ok, fl, b = seen["vacuity"]
        if ok or '"canary"' not in " ".join(fl):
            r["limits"].append("kani: the canary was accepted")
        r["canaries"] = 1
    for h in P["harnesses"]:
        if h not in seen:
            r["limits"].append("kani: no answer for %s: %s" % (h, (e.strip().splitlines() or ["?"])[-1][:300]))
            continue
        ok, fl, b = seen[h]
        if ok:
            r["verified"] += 1
        elif any("unwinding" in x or "not currently supported" in x for x in fl) or not fl:
            r["limits"].append("kani: %s: %s" % (h, "; ".join(fl)[:300]))
        else:
            r["failed"].append({"msg": "; ".join(fl), "fn": h, "clause": "contract in kani/src/lib.rs", "text": b})
    r["fns"] = [{"fn": f, "source": src, "inlined": [], "rules": [], "notes": []} for f, src in P["functions"]]
    if r["limits"]:
        r["failed"] = []


def trusted(code):
    out = []
    lines = code.split("\n")
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("#[verifier::external_body]"):
            for k in range(i + 1, min(i + 6, len(lines))):
                m = re.match(r"\s*(pub )?(proof )?(fn|struct|enum) (\w+)", lines[k])
                if m:
                    out.append("external: %s %s" % (m.group(3), m.group(4)))
                    break
        m = re.match(r"pub assume_specification.*\[(.*?)\]", t)
        if m:
            out.append("assumed contract: " + m.group(1).strip())
        m = re.match(r"(pub )?(broadcast )?axiom fn (\w+)", t)
        if m:
            out.append("axiom: " + m.group(3))
        if re.search(r"\b(assume|admit)\(", t) and not t.startswith("//"):
            out.append("assume: " + t[:100])
        if "exec_allows_no_decreases_clause" in t:
            out.append("termination not proved where exec_allows_no_decreases_clause is set")
    return sorted(set(out))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    os.makedirs(W, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    t0 = time.time()
    units = {}
    search = {}
    notes = []

    def proofs():
        if not P.get("units"):
            return
        c, o, e = build(os.path.join(V, "vx/Cargo.toml"), os.path.join(T, "vx"))
        if c != 0:
            for u in P["units"]:
                units[u] = {"unit": u, "limits": ["extractor does not build: " + e[-300:]], "failed": [], "fns": [], "verified": 0, "trusted": []}
            return
        ths = [threading.Thread(target=run_unit, args=(u, prop, tier, units)) for u in P["units"] if u != "kani"]
        if "kani" in P["units"]:
            ths.append(threading.Thread(target=run_kani, args=(prop, tier, units)))
        [t.start() for t in ths]
        [t.join() for t in ths]

    def find_known():
        kn = []
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) case=(\{.*?\}) (.*)", l)
            if m:
                kn.append({"property": m.group(1), "case": json.loads(m.group(2)), "what": m.group(3).strip()})
        return kn

    def searching():
        if not P.get("search"):
            return
        c, o, e = build(os.path.join(V, "harness/Cargo.toml"), os.path.join(T, "h"))
        if c != 0:
            search["error"] = "harness does not build: " + e[-600:]
            return
        out = os.path.join(W, f"{prop}_search.json")
        kf = os.path.join(W, f"{prop}_known.json")
        json.dump(find_known(), open(kf, "w"))
        secs = P["search"].get(tier, 60 if tier == "quick" else 500)
        try:
            os.remove(out)
        except OSError:
            pass
        c, o, e = sh([os.path.join(T, "h/debug/vharness"), "run", "--prop", prop, "--tier", tier, "--seed", str(seed),
                      "--secs", str(secs), "--out", out, "--known", kf], timeout=secs + 200)
        try:
            search.update(json.load(open(out)))
        except Exception:
            search["error"] = "search gave no result (%s): %s" % (c, e[-300:])

    a = threading.Thread(target=proofs)
    b = threading.Thread(target=searching)
    a.start(); b.start(); a.join(); b.join()

    limits = [f"{u}: {x}" for u, r in units.items() for x in r.get("limits", [])]
    failed = [dict(f, unit=u) for u, r in units.items() for f in r.get("failed", [])]
    verified = sum(r.get("verified", 0) for r in units.values())
    nfn = [f for r in units.values() for f in r.get("fns", [])]
    viol = search.get("violation")
    for k in search.get("known", []):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if search.get("error"):
        limits.append("search: " + search["error"])
    proved = bool(P.get("units")) and not limits and not failed and verified > 0
    level = P["level"] if (proved or not P.get("units")) else "exploration"
    tb = sorted(set(x for r in units.values() for x in r.get("trusted", [])))
    cov = {
        "evaluations": search.get("evaluations", 0),
        "distinct_nontrivial": search.get("distinct_nontrivial", 0),
        "rule": search.get("rule", "") or "no search",
        "samples": search.get("samples", []) or ["none"],
        "explanation": P["explain"],
        "bounded_standin": P.get("standin", "none"),
    }
    if P.get("units"):
        cov.update({
            "obligations": verified + sum(r.get("nerrors", 0) for r in units.values()),
            "discharged": verified,
            "obligation_unit": "one Verus verification condition: a function, loop or lemma with all its clauses (kani: one contract harness)",
            "checker_cmd": "; ".join(r.get("cmd", "") for r in units.values()),
            "trusted_base": tb,
            "functions_under_contract": [f["fn"] + " (" + f["source"] + ")" for f in nfn],
            "functions_assumed_here": sorted(x for r in units.values() for x in r.get("assumed_fns", [])),
            "helpers_inlined": sorted(set(x for f in nfn for x in f["inlined"])),
            "extraction_rewrites": sorted(set(x for f in nfn for x in f["rules"])),
            "extraction_notes": sorted(set(f["fn"] + ": " + x for f in nfn for x in f["notes"])),
            "solver_ms": sum(r.get("smt_ms", 0) for r in units.values()),
            "back_end": "; ".join(sorted(set(r.get("back_end", "Verus 0.2026.09.13 / Z3") for r in units.values()))),
            "canaries_refused": sum(r.get("canaries", 0) for r in units.values()),
            "undecided": limits,
            "failed_obligations": [{k: f[k] for k in ("unit", "fn", "msg", "clause")} for f in failed],
        })
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []) + tb, "wall_s": round(time.time() - t0, 2),
          "violations": 1 if (viol or failed) else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    rp = os.path.join(V, "evidence", prop + ".replay.json")
    for l in limits:
        print("UNDECIDED:", l)
    for f in failed:
        print(f"FAILED OBLIGATION {f['unit']}/{f['fn']}: {f['msg']}: {f['clause']}")
    if viol:
        viol["failed_obligations"] = failed
        viol["undecided"] = limits
        viol["how"] = "vharness replay <this file> (exit 1: the property fails on this input)"
        json.dump(viol, open(rp, "w"), indent=1)
        print("what:", viol["what"][:2000])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if failed:
        json.dump({"property": prop, "failed_obligations": failed, "search": {k: search.get(k) for k in ("evaluations", "rule")}},
                  open(rp, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        return 1
    print(f"OK property={prop} level={level} verified={verified} functions={len(nfn)} evaluations={search.get('evaluations', 0)} wall={ev['wall_s']}s")
    return 0


sys.exit(main())
