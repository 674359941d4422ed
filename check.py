#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE               run one recorded counterexample against the real code again

exit 0: the property held on everything explored (known findings are printed, not raised)
exit 1: a solver counterexample that reproduces on the real code: `VIOLATION property=.. replay=..`
exit 2: no answer (does not build, time-out, unknown, counterexample that does not reproduce)
"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(V, "target")
SYMEX = os.path.join(TARGET, "debug", "symex")
SYMEX_SEQ = os.path.join(TARGET, "debug", "symex-seq")  # linked against both builds of the crate
KREPLAY = os.path.join(TARGET, "debug", "kreplay")
KNOWN = os.path.join(V, "known_findings.txt")
KANI_PROPS = {"C01"}
R1CS_PROPS = {"C10"}
SEQ_PROPS = {"C24", "C31"}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

BASE_ASSUMPTIONS = {
    "symex": [
        "groups of prime order and the pairing are represented by exponents (the generic-group reading of the pairing axioms); serialization of curve points, subgroup checks and hashing to the curve are uninterpreted",
        "fixed-base scalar multiplication of ark-ec is replaced by its contract (scalar times base, provided the table matches), validated natively on every run",
        "named generators and fresh random draws are non-zero",
        "polynomial reasoning abstracts monomials to solver variables that vanish exactly when a factor does: unsat answers are sound, sat answers are replayed on real BLS12-381",
    ],
    "schedules": [
        "a schedule is the order in which the two closures of every rayon join run, and how iterators are split; the closures themselves run one at a time (data races between them are excluded by the type system, locks and atomics used inside a closure are not interleaved)",
    ],
    "kani": [
        "the scalar field is represented by canonical 256-bit integers with exact conversions (validated against BLS12-381 Fr on every run); allocation succeeds",
    ],
    "r1cs": [
        "constraint rows are exported by running the real circuit synthesis on this run; the encoding of a row is exact over the 255-bit field",
    ],
}


def env_stable():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    e.pop("RUSTFLAGS", None)
    return e


def env_kani():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def run(cmd, env, cwd=V, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e


def build(crate, prop=None):
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if crate == "symex":
        cmd += ["--bin", "symex-seq", "--features", "seq"] if prop in SEQ_PROPS else ["--bin", "symex"]
    rc, o, e = run(cmd, env_stable(), cwd=os.path.join(V, crate), timeout=1500)
    if rc != 0:
        print("BUILD-ERROR: %s does not build against /repo" % crate)
        print("\n".join(l for l in e.splitlines() if l.startswith("error"))[:3000])
        return False
    return True


# ---------------------------------------------------------------- engines

def engine_symex(prop, tier, seed):
    d = os.path.join(V, "work", "symex", prop)
    if prop in R1CS_PROPS:
        cmd = [SYMEX, "r1cs", tier, str(seed)]
    else:
        cmd = [SYMEX_SEQ if prop in SEQ_PROPS else SYMEX, "run", prop, tier, d, str(seed), str(JOBS)]
    os.makedirs(d, exist_ok=True)
    rc, o, e = run(cmd, env_stable(), timeout=840 if tier == "quick" else 6 * 3600)
    try:
        return json.loads(o[o.index("["):])
    except ValueError:
        return [{"prop": prop, "harness": prop + "/engine", "problems": ["the engine gave no result (rc %s): %s" % (rc, e[-600:])], "violations": []}]


def kani_list():
    src = open(os.path.join(V, "kani", "src", "proofs.rs")).read()
    names = []
    for m in re.finditer(r"^(roundtrip|decode|odd)!\((\w+),", src, re.M):
        names.append(m.group(2))
    names += [m.group(1) for m in re.finditer(r"^fn (unsupported|count|witness_\w+)\(", src, re.M)]
    return names


KANI_BOUNDS = {
    "roundtrip": "every message of the 255-bit field at this chunk size; no bound on its value",
    "decode": "every sequence of this many in-range chunks",
    "odd": "every sequence of this many 4-bit chunks",
    "unsupported": "every message, every chunk size 0..255 other than 4, 8, 16",
    "count": "every chunk size 1..255",
    "witness": "reachability twin: the solver must refute it",
}


def engine_kani(prop, tier, seed):
    t0 = time.time()
    names = kani_list()
    td = os.path.join(TARGET, "kani")
    kd = os.path.join(V, "kani")
    cmd = ["cargo", "kani", "--target-dir", td, "-j", str(JOBS), "--output-format", "terse"]
    rc, o, e = run(cmd, env_kani(), cwd=kd, timeout=700 if tier == "quick" else 3600)
    wall = time.time() - t0
    times, res, cur = {}, {}, {}
    failed = set(re.findall(r"Verification failed for - proofs::(\w+)", o))
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    checks = {}
    thread = None
    for l in o.splitlines():
        x = re.match(r"Thread (\d+): Checking harness proofs::(\w+)", l)
        if x:
            cur[x.group(1)] = x.group(2)
            continue
        x = re.match(r"Thread (\d+):", l)
        if x:
            thread = cur.get(x.group(1))
            continue
        if thread:
            x = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
            if x:
                checks[thread] = int(x.group(2))
            x = re.match(r"Verification Time: ([\d.]+)s", l)
            if x:
                times[thread] = float(x.group(1))
            if "VERIFICATION:- " in l:
                res[thread] = l.split(":- ")[1].strip()
            if "Failed Checks:" in l:
                res.setdefault(thread + "!", []).append(l.split("Failed Checks:")[1].strip())
    out = []
    if not m or rc is None:
        return [{"prop": prop, "harness": prop + "/kani", "problems": ["Kani gave no result (rc %s): %s" % (rc, (e + o)[-800:])], "violations": []}]
    nat = run([KREPLAY, "validate", str(seed)] + [n for n in names if not n.startswith("witness")], env_stable(), timeout=300)
    validated = 0
    x = re.search(r"validated (\d+)", nat[1] or "")
    if x:
        validated = int(x.group(1))
    budget = time.time() + (420 if tier == "quick" else 3600)
    confirmed_any = False
    for n in sorted(names, key=lambda n: times.get(n, 0)):
        kind = n.split("_")[0]
        r = {"prop": prop, "harness": prop + "/kani_" + n, "bounds": KANI_BOUNDS.get(kind, ""), "params": [n],
             "functions": "utils::{decompose, compose, chunks_count}", "outcomes": {"done": 1}, "samples": [], "violations": [], "unconfirmed": [],
             "problems": [], "notes": [], "validated": 0, "native_checks": 0, "wall_s": times.get(n, 0),
             "sums": {"queries": 1, "sat": 0, "unsat": 0, "unknown": 0, "solver_us": int(times.get(n, 0) * 1e6), "obligations": checks.get(n, 0), "discharged": 0, "decisions": checks.get(n, 0)}}
        v = res.get(n)
        out.append(r)
        if kind == "witness":
            r["sums"]["obligations"] = r["sums"]["discharged"] = 1
            r["sums"]["sat"] = 1
            if n not in failed and not failed:
                r["problems"].append("the reachability witness was not refuted (vacuous)")
            continue
        if v == "SUCCESSFUL" and n not in failed:
            r["sums"]["unsat"] = 1
            r["sums"]["discharged"] = checks.get(n, 0)
            continue
        r["sums"]["sat"] = 1
        why = "; ".join(res.get(n + "!", [])) or "CBMC failed"
        if confirmed_any:
            r["notes"].append("refuted: " + why)
            continue
        vals, msg = kani_counterexample(n, seed, td, kd, budget)
        if vals:
            confirmed_any = True
            r["violations"].append({"kind": "kani", "label": n, "why": why, "native": msg, "harness": n, "values": vals})
        else:
            r["problems"].append("refuted by CBMC (%s) but no counterexample reproduced natively: %s" % (why, msg))
    if confirmed_any:
        for r in out:
            r["problems"] = []
    elif not x:
        out[0]["problems"].append("the field model disagrees with BLS12-381 Fr: " + (nat[2] or "")[-300:])
    out[0]["validated"] = validated
    out[0]["native_checks"] = validated
    out[0]["notes"].append("kani wall time %.1f s" % wall)
    return out


def kani_counterexample(n, seed, td, kd, budget):
    rc, o, _ = run([KREPLAY, "probe", n, str(seed)], env_stable(), timeout=120)
    if rc == 1 and "|" in o:
        v, msg = o.strip().split("|", 1)
        return v, msg
    left = budget - time.time()
    if left < 30:
        return None, "out of time"
    cmd = ["cargo", "kani", "--target-dir", td, "--harness", "proofs::" + n, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
    rc, o, e = run(cmd, env_kani(), cwd=kd, timeout=left)
    rcw, w, _ = run([KREPLAY, "widths", n], env_stable(), timeout=60)
    widths = [int(x) for x in w.strip().split(",")]
    last = "no concrete values"
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        vecs = [[int(x) for x in g.split(",")] for g in re.findall(r"vec!\[([\d, ]+)\]", block)]
        flat, i = [], 0
        raw = [b for vec in vecs for b in vec]
        for wd in widths:
            flat.append(int.from_bytes(bytes(raw[i:i + wd]), "little"))
            i += wd
        if i > len(raw):
            last = "counterexample has an unexpected shape"
            continue
        vals = ",".join(map(str, flat))
        rc, o2, _ = run([KREPLAY, "run", n, vals], env_stable(), timeout=60)
        if rc == 1:
            return vals, o2.strip().replace("reproduced: ", "")
        last = "concrete values do not reproduce"
    return None, last


# ---------------------------------------------------------------- findings

def known():
    """open findings: lines `finding: property=ID harness=GLOB label=GLOB | what fails`"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=(.*?) \| (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def match_known(prop, h, v, ks):
    from fnmatch import fnmatchcase
    for k in ks:
        if k[0] == prop and fnmatchcase(h, k[1]) and fnmatchcase(v.get("label", ""), k[2]):
            return k
    return None


def main():
    if sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2])
        j = json.load(open(f))
        if j.get("kind") == "kani":
            if not build("kani"):
                return 2
            return subprocess.call([KREPLAY, "run", j["harness"], j["values"]])
        if not build("symex", j.get("property")):
            return 2
        return subprocess.call([SYMEX_SEQ if j.get("property") in SEQ_PROPS else SYMEX, "replay", f])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    results, engines = [], []
    if prop in KANI_PROPS:
        if not build("kani"):
            return 2
        results += engine_kani(prop, tier, seed)
        engines.append("kani")
    else:
        if not build("symex", prop):
            return 2
        results += engine_symex(prop, tier, seed)
        engines.append("r1cs" if prop in R1CS_PROPS else "symex")
        if prop in SEQ_PROPS:
            engines.append("schedules")
    ks = known()
    viol, suppressed, problems = [], [], []
    for r in results:
        n_known = 0
        for v in r.get("violations", []):
            k = match_known(prop, r["harness"], v, ks)
            if k:
                suppressed.append(k)
                n_known += 1
            else:
                viol.append((r, v))
        for p in r.get("problems", []):
            problems.append("%s: %s" % (r["harness"], p))
    s = {}
    for r in results:
        for k, x in r.get("sums", {}).items():
            s[k] = s.get(k, 0) + x
    paths = sum(sum(r.get("outcomes", {}).values()) for r in results)
    samples = []
    for r in results:
        for x in r.get("samples", [])[:1]:
            if len(samples) < 6:
                samples.append({"harness": r["harness"], "bounds": r.get("bounds"), "path": x})
    if not samples:
        samples = [{"harness": r["harness"], "bounds": r.get("bounds"), "verdict": "unsat" if not r["violations"] else "sat"} for r in results[:6]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": s.get("decisions", 0),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
            "native_checks": sum(r.get("native_checks", 0) for r in results),
            "samples": samples,
            "meaning": "states = symbolic paths (or proof harnesses / constraint systems) explored to their end; transitions = branch decisions (symex), generated checks (Kani) or constraint rows (R1CS) decided by the solver",
            "functions": sorted({r.get("functions", "") for r in results if r.get("functions")}),
            "bounds": {r["harness"]: r.get("bounds", "") for r in results},
            "harnesses": len(results),
            "queries": s.get("queries", 0), "queries_unsat": s.get("unsat", 0), "queries_sat": s.get("sat", 0), "queries_unknown": s.get("unknown", 0),
            "obligations": s.get("obligations", 0), "discharged": s.get("discharged", 0),
            "solver_s": round(s.get("solver_us", 0) / 1e6, 3),
            "problems": problems,
        },
        "assumptions": sum((BASE_ASSUMPTIONS[e] for e in engines), []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for what in sorted({k[3] for k in suppressed}):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d harnesses, %d paths, %d queries, %d/%d obligations discharged, solver %.1f s, wall %.1f s" % (
        prop, tier, len(results), paths, s.get("queries", 0), s.get("discharged", 0), s.get("obligations", 0), s.get("solver_us", 0) / 1e6, time.time() - t0))
    if viol:
        d = os.path.join(V, "work", "replay")
        os.makedirs(d, exist_ok=True)
        for i, (r, v) in enumerate(viol[:10]):
            f = os.path.join(d, "%s-%d.json" % (prop, i + 1))
            j = dict(v)
            j.setdefault("harness", r["harness"])
            j["property"] = prop
            json.dump(j, open(f, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print("  %s: %s | %s" % (r["harness"], v.get("label"), str(v.get("native"))[:300]))
        return 1
    if problems:
        for p in problems[:20]:
            print("INCONCLUSIVE " + p[:700])
        return 2
    return 0


sys.exit(main())
