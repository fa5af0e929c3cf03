#!/usr/bin/env python3
"""Decide one property.  usage: check.py ID [--tier quick|thorough] [--only UNIT] [--replay FILE]"""
import argparse, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get("VC_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VC_REPO", "/repo")


def env(**kw):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", VC_REPO=REPO)
    e.pop("PYTHONPATH", None)
    e.update(kw)
    return e


def load_known():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open: "):
                parts = line.split(" ", 3)
                out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3]))
    return out


def readable(funcs):
    """drop generated loop bodies, demangle the native functions"""
    import re
    out = set()
    for f in funcs:
        f = re.sub(r"\.<locals>\._vc_.*", "", f)
        m = re.search(r":k(_Z\w+)$", f)
        if m:
            r = subprocess.run(["c++filt", m.group(1)], capture_output=True, text=True)
            f = f[:m.start() + 1] + (r.stdout.strip().replace("vckernels::", "") or m.group(1))
        out.add(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        v = r.get("violation")
        if not v:
            print(json.dumps(r, indent=1)[:20000])
            return 0
        work, repo, built = prepare()
        return subprocess.call([PY, os.path.join(HERE, "vc", "replayer.py"), a.id, a.tier, str(v["seed"]), "-", v["unit"], str(v["trial"])], env=env(VC_REPO=repo))
    tmp = tempfile.mkdtemp(prefix="vc-")
    built = None
    try:
        pj, rj = os.path.join(tmp, "p.json"), os.path.join(tmp, "r.json")
        pa = [PY, os.path.join(HERE, "vc", "prover.py"), a.id, a.tier, pj] + ([a.only] if a.only else [])
        pp = subprocess.Popen(pa, env=env(), stdout=open(os.path.join(tmp, "p.log"), "w"), stderr=subprocess.STDOUT, cwd=HERE)
        repo, built = prepare(tmp)
        if built and built.get("error"):
            print("build of the changed extension failed:\n" + built["error"][-3000:])
            pp.kill()
            return 2
        ra = [PY, os.path.join(HERE, "vc", "replayer.py"), a.id, a.tier, seed, rj] + ([a.only] if a.only else [])
        rp = subprocess.Popen(ra, env=env(VC_REPO=repo), stdout=open(os.path.join(tmp, "r.log"), "w"), stderr=subprocess.STDOUT, cwd=tmp)
        lim = 780 if a.tier == "quick" else 6000
        rc = []
        for p in (pp, rp):
            try:
                rc.append(p.wait(max(1, lim - (time.time() - t0))))
            except subprocess.TimeoutExpired:
                p.kill()
                rc.append("timeout")
        P = json.load(open(pj)) if os.path.exists(pj) else None
        R = json.load(open(rj)) if os.path.exists(rj) else None
        logs = {n: open(os.path.join(tmp, n)).read()[-6000:] for n in ("p.log", "r.log")}
        return report(a, seed, P, R, rc, logs, t0, built)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def prepare(tmp=None):
    from vc import extbuild
    return extbuild.prepare(REPO, tmp or tempfile.mkdtemp(prefix="vc-"), PY)


def report(a, seed, P, R, rc, logs, t0, built):
    mod = importlib.import_module("contracts." + a.id)
    prop = mod.P
    findings = []  # (unit, kind, info)
    crashes = []
    obs, undis, stats, funcs, paths = [], [], {}, set(), 0
    if P is None:
        undis.append({"name": "prover", "detail": "prover process ended without a result (%s)\n%s" % (rc[0], logs["p.log"])})
    else:
        for un, r in P["units"].items():
            if "obligations" not in r:
                undis.append({"name": un, "detail": "verifier gave no answer: %s" % {k: v for k, v in r.items()}})
                continue
            obs += r["obligations"]
            funcs |= set(r["funcs"])
            paths += r["paths"]
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        undis += [o for o in obs if not o["ok"]]
    viol = []
    trials = checks = distinct = 0
    samples = []
    if R is None:
        crashes.append("replay process ended without a result (%s)\n%s" % (rc[1], logs["r.log"]))
    else:
        for key, r in R["units"].items():
            kind, un = key.split(":", 1)
            if kind == "k":
                continue
            trials += r.get("trials", 0)
            checks += r.get("checks", 0)
            distinct += r.get("distinct", 0)
            for s in r.get("samples", []):
                if len(samples) < 8:
                    samples.append({"unit": un, "inputs": s})
            if "violation" in r:
                viol.append(r["violation"])
            elif "signal" in r:
                viol.append({"unit": un, "obligation": "memory-safety", "detail": "process died with signal %d" % r["signal"],
                             "trial": r.get("at_trial"), "seed": seed, "inputs": {}})
            elif "timeout" in r:
                viol.append({"unit": un, "obligation": "termination", "detail": "no answer within the time limit at this input",
                             "trial": r.get("at_trial"), "seed": seed, "inputs": {}})
            elif "crash" in r:
                crashes.append("replay unit %s crashed: %r\n%s" % (un, r, logs["r.log"]))
    known_lines = []
    if R is not None and not a.only:
        for pid, key, what in load_known():
            if pid == a.id:
                r = R["units"].get("k:" + key)
                if r is None:
                    crashes.append("known finding %s has no checker" % key)
                elif r.get("fails") or "signal" in r:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (a.id, what))
        listed = {k for p, k, w in load_known() if p == a.id}
        for key, fn in prop.known:
            r = R["units"].get("k:" + key, {})
            if key not in listed and (r.get("fails") or "signal" in r):
                viol.append({"unit": "k:" + key, "obligation": key, "detail": "recorded defect has returned", "trial": None,
                             "seed": seed, "inputs": {}})
    funcs = readable(funcs)
    trusted = ["numpy/BLAS per the contracts in vc/snp.py, vc/tensor.py (assumed; sampled by setup selftest and by concrete replay)",
               "CPython semantics of the executed bytecode; vc/instrument.py rewriting and vc/runtime.py loop rule",
               "z3 4.x / cvc5 and the normaliser vc/terms.py",
               "machine floats treated as exact reals; denominators assumed nonzero where divided; int64 as integers"]
    discharged = sum(1 for o in obs if o["ok"])
    by = {}
    for o in obs:
        if o["ok"]:
            by[o["backend"] or "execution"] = by.get(o["backend"] or "execution", 0) + 1
    ev = {
        "property": a.id, "tier": a.tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "proof",
        "coverage": {
            "obligations": len(obs) + sum(1 for u in undis if "ok" not in u), "discharged": discharged,
            "checker_cmd": "%s check.py %s --tier %s" % (PY, a.id, a.tier),
            "trusted_base": trusted,
            "units": len(P["units"]) if P else 0, "paths": paths,
            "discharged_by": by, "solver_s": round(stats.get("z3", 0) + stats.get("cvc5_s", 0), 2),
            "z3_queries": stats.get("z3_calls", 0), "cvc5_queries": stats.get("cvc5", 0),
            "functions_under_contract": sorted(funcs),
            "source_sha256": (P or {}).get("sources", {}) if a.tier == "thorough" else len((P or {}).get("sources", {})),
            "undischarged": [{"name": u["name"], "detail": (u.get("detail") or "")[:500]} for u in undis][:50],
            "bounded_replay": {"evaluations": trials, "distinct": distinct, "contract_checks": checks, "samples": samples,
                               "note": "random concrete evaluation of the same contracts on the unmodified code; bounded, counted separately, never as proved"},
            "bounded_only_units": [u.name for u in prop.units if not u.sym],
            "extension_build": built or "installed build (sources unchanged)",
            "explanation": prop.explanation,
        },
        "assumptions": prop.assumptions + ["bounded stand-in: " + b for b in prop.bounded],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol) + len(undis),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1)
    for line in known_lines:
        print(line)
    print("%s: %d obligations, %d discharged (%s), %d paths, %d functions; %d concrete evaluations, %d checks; %.1fs" % (
        a.id, ev["coverage"]["obligations"], discharged, ", ".join("%s %d" % x for x in sorted(by.items())), paths, len(funcs), trials, checks, time.time() - t0))
    if a.v or undis:
        seen = {}
        for u in undis:
            seen.setdefault(u["name"], []).append(u)
        for n, us in list(seen.items())[:40]:
            print("  undischarged %s (x%d): %s" % (n, len(us), (us[0].get("detail") or "")[:1500 if a.only else 200].replace("\n", " ")))
            if a.v and a.only:
                print("     path:", us[0].get("path"), us[0].get("model"))
    if a.v and P:
        for un, r in sorted(P["units"].items(), key=lambda x: -x[1].get("secs", 0))[:12]:
            print("   unit %-40s %5.1fs %4d paths %4d obligations" % (un, r.get("secs", 0), r.get("paths", 0), len(r.get("obligations", []))))
    for v in viol:
        print("  replayed violation %s / %s: %s" % (v["unit"], v["obligation"], (v["detail"] or "")[:1500]))
    for c in crashes:
        print("  checker error:", c)
    if viol:
        for k, v in enumerate(viol[:3]):
            path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (a.id, k))
            json.dump({"property": a.id, "violation": v, "failed_obligations": undis[:20],
                       "rerun": "%s check.py %s --replay %s" % (PY, a.id, path)}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if undis:
        path = os.path.join(HERE, "evidence", "replay", "%s-obligations.json" % a.id)
        json.dump({"property": a.id, "failed_obligations": undis, "note": "no failing input found by replay on the real code",
                   "log": logs["p.log"]}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.id, path))
        return 1
    if crashes:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
