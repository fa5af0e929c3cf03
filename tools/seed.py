"""Author and try planted bugs (development only; no check reads this).

  seed.py make FILE.py     FILE defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo)
  seed.py try ID...        scratch copy: patch applies, demo ok/ko, stable tests pass, this property's check catches it
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec %s "$(dirname "$0")/demo.py"\n' % PY


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(tag):
    d = tempfile.mkdtemp(prefix="seed-" + tag + "-")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    return d, r


def make(path):
    spec = importlib.util.spec_from_file_location("bugs", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    d, r = copy("mk")
    try:
        for b in m.BUGS:
            sh(["git", "-C", r, "checkout", "-q", "--", "."])
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "-C", r, "diff"]).stdout
            out = os.path.join(SEED, b["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print("made", b["id"])
    finally:
        shutil.rmtree(d)


def attempt(i, tests=True):
    out = os.path.join(SEED, i)
    prop = json.load(open(os.path.join(out, "meta.json")))["property"]
    d, r = copy(i)
    res = {"id": i, "property": prop}
    env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", TMPDIR=d, HYPOTHESIS_STORAGE_DIRECTORY=d + "/hyp", OPENBLAS_NUM_THREADS="1")
    try:
        dm = os.path.join(d, "demo")
        shutil.copytree(out, dm)
        for f in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(dm, f))
        a = sh(["bash", dm + "/demo.sh"], cwd=r, env=env)
        res["clean"] = a.returncode
        g = sh(["git", "-C", r, "apply", os.path.join(out, "patch.diff")])
        if g.returncode:
            res["apply"] = g.stderr
            return res
        patch = open(os.path.join(out, "patch.diff")).read()
        if any(x in patch for x in (".pyx", ".hh", ".pxd")):
            bld = sh([PY, "setup.py", "build_ext", "--inplace"], cwd=r, env=dict(env, PATH="/opt/venv/bin:" + env["PATH"]))
            res["build"] = bld.returncode
            if bld.returncode:
                res["build_err"] = bld.stderr[-500:]
        b = sh(["bash", dm + "/demo.sh"], cwd=r, env=env)
        res["patched"] = b.returncode
        res["demo_err"] = (a.stderr if a.returncode else b.stderr)[-300:]
        if tests:
            x = os.path.join(d, "j.xml")
            t = sh(["timeout", "1500", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--hypothesis-seed=0", "-n", "4", "--dist", "worksteal", "--timeout=400",
                    "-o", "junit_family=xunit2", "--junitxml=" + x, "thinc/tests"], cwd=r, env=dict(env, PYTHONPATH=r + ":/opt/vp/plugin"))
            res["tests"] = t.stdout.strip().splitlines()[-1][-160:] if t.stdout.strip() else t.stderr[-200:]
            sh(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x])
            o = json.load(open(d + "/o.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = sorted(set(stable) - set(o["passed"]))
            if bad:
                res["fail"] = bad[:5]
        if os.path.exists(os.path.join(HERE, "contracts", prop + ".py")):
            c = sh([PY, os.path.join(HERE, "check.py"), prop], env=dict(os.environ, VC_REPO=r, VERIF_SEED="1"))
            res["check"] = c.returncode
            res["violation"] = [l[:220] for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:3]
            if c.returncode == 2:
                res["out"] = c.stdout[-400:]
    finally:
        shutil.rmtree(d)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith("-")]
        if not ids:
            ids = sorted(os.listdir(SEED))
        tests = "--no-tests" not in sys.argv
        with ThreadPoolExecutor(2 if tests else 2) as ex:
            for res in ex.map(lambda i: attempt(i, tests), ids):
                ok = res.get("clean") == 0 and res.get("patched") not in (0, None) and not res.get("fail")
                print(json.dumps(res, indent=1) if not (ok and res.get("check") == 1) else "OK " + res["id"] + " " + res.get("tests", "") + " " + str(res["violation"][:1]), flush=True)
