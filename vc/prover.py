"""prover process: symbolic evaluation of the contract units of one property"""
import importlib, json, os, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def merge(u, rs):
    """results of the shares of one unit"""
    if len(rs) == 1:
        return rs[0]
    for r in rs:
        if "obligations" not in r:
            return r
    out = {"obligations": sum([r["obligations"] for r in rs], []), "paths": sum(r["paths"] for r in rs),
           "funcs": sorted(set(sum([r["funcs"] for r in rs], []))), "notes": sorted(set(sum([r["notes"] for r in rs], []))),
           "secs": max(r["secs"] for r in rs), "wall": max(r["wall"] for r in rs), "stats": {}}
    for r in rs:
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
    if not out["obligations"]:
        out["obligations"].append({"name": u.name + "/vacuity", "ok": False, "detail": "no obligation was generated", "backend": "", "secs": 0, "model": None, "path": []})
    return out


def main(pid, tier, out, only=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    import threading
    from vc import instrument
    mod = importlib.import_module("contracts." + pid)
    instrument.install(skip=getattr(mod, "SKIP", ()))
    import thinc.api  # noqa
    from vc import engine, spec, forkpool, solve
    P = mod.P
    units = [u for u in P.units if u.sym and (not only or only in u.name)]
    repo = os.environ.get("VC_REPO", "/repo")

    def task(u, part=0):
        def go():
            t1 = time.time()
            funcs = set()
            mon = sys.monitoring
            tid = 4
            mon.use_tool_id(tid, "vc")

            def start(code, off):
                if code.co_filename.startswith(repo) and "<" not in code.co_name.replace("<lambda>", ""):
                    funcs.add("%s:%s" % (os.path.relpath(code.co_filename, repo), code.co_qualname))
                return mon.DISABLE

            mon.register_callback(tid, mon.events.PY_START, start)
            mon.set_events(tid, mon.events.PY_START)
            E = engine.E
            engine.reset()
            E.max_paths = u.paths
            E.check_div = u.div
            E.part, E.parts = part, u.split

            def body():
                if hasattr(mod, "setup"):
                    mod.setup()
                u.fn(spec.Sym())

            E.explore(body, u.name)
            mon.set_events(tid, 0)
            obs = [{"name": o.name, "ok": o.ok, "detail": o.detail if not o.ok else "", "backend": o.backend,
                    "secs": o.seconds, "model": o.model if not o.ok else None,
                    "path": [p[2] for p in o.path][:40] if not o.ok else []} for o in E.obligations]
            return {"obligations": obs, "paths": E.paths, "funcs": sorted(funcs), "stats": solve.STATS,
                    "notes": sorted(E.notes), "wall": time.time() - t1}

        return go

    with tempfile.TemporaryDirectory() as d:
        lim = 240 if tier == "quick" else 900
        jobs = [((u.name, k), task(u, k), u.secs or lim) for u in units for k in range(u.split)]
        jobs.sort(key=lambda j: -j[2])
        parts = forkpool.run(jobs, 8, d)
    res = {u.name: merge(u, [parts[(u.name, k)] for k in range(u.split)]) for u in units}
    json.dump({"units": res, "sources": instrument.SOURCES, "wall": time.time() - t0}, open(out, "w"))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    main(*sys.argv[1:])
