"""replay process: concrete evaluation of the contract units on the unmodified real code"""
import importlib, json, os, sys, tempfile, time, traceback, io

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VC_REPO", "/repo"))


def show(v):
    import numpy
    if isinstance(v, numpy.ndarray):
        return {"dtype": str(v.dtype), "shape": list(v.shape), "values": v.ravel()[:200].tolist()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:300]


def trial(u, seed, k):
    from vc import spec
    c = spec.Conc(seed, "%s/%s" % (u.name, k))
    try:
        u.fn(c)
    except spec.Reject:
        return "reject", c, None
    except spec.Violation as e:
        return "violation", c, {"obligation": e.name, "detail": e.detail}
    except AssertionError as e:
        return "violation", c, {"obligation": "assertion", "detail": traceback.format_exc()[-2000:]}
    except MemoryError:
        return "reject", c, None
    except Exception as e:
        return "violation", c, {"obligation": "no-unexpected-exception",
                                "detail": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])}
    return "ok", c, None


def main(pid, tier, seed, out, only=None, at=None):
    t0 = time.time()
    mod = importlib.import_module("contracts." + pid)
    import numpy
    numpy.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    import thinc.api  # noqa
    import thinc
    assert thinc.__file__.startswith(os.environ.get("VC_REPO", "/repo") + "/"), thinc.__file__
    if hasattr(mod, "setup_concrete"):
        mod.setup_concrete()
    from vc import spec, forkpool
    P = mod.P
    if at is not None:
        u = [u for u in P.units if u.name == only][0]
        r, c, info = trial(u, seed, at)
        print(json.dumps({"result": r, "info": info, "inputs": {k: show(v) for k, v in c.drawn.items()}}, indent=1))
        return r
    units = [u for u in P.units if u.conc and (not only or only in u.name)]
    quick = tier == "quick"
    tot = sum(u.trials for u in units) or 1
    budget = (160.0 if quick else 1600.0)
    d = tempfile.mkdtemp()

    def task(u, i):
        def go():
            secs = min(max(budget * u.trials / tot, 1.0), 12.0 if quick else 180.0)
            maxn = int((400 if quick else 20000) * max(1.0, u.trials))
            t1 = time.time()
            n = rej = checks = 0
            seen = set()
            samples = []
            k = 0
            while (time.time() - t1 < secs and k < maxn) or (n < 3 and k < 200 and time.time() - t1 < secs + 60):
                with open(os.path.join(d, "cur%d" % i), "w") as f:
                    f.write(str(k))
                r, c, info = trial(u, seed, k)
                if r == "reject":
                    rej += 1
                else:
                    n += 1
                    checks += c.n_checks
                    seen.add(hash(repr([(a, show(b)) for a, b in c.drawn.items()])))
                    if len(samples) < 1:
                        s = json.dumps({a: show(b) for a, b in c.drawn.items()})
                        samples.append(s[:600])
                if r == "violation":
                    info.update(unit=u.name, trial=k, seed=seed, inputs={a: show(b) for a, b in c.drawn.items()})
                    return {"violation": info, "trials": n, "rejected": rej, "checks": checks, "distinct": len(seen), "samples": samples}
                k += 1
            return {"trials": n, "rejected": rej, "checks": checks, "distinct": len(seen), "samples": samples}

        return go

    def known(key, fn):
        def go():
            from vc import spec
            return {"fails": bool(fn(spec.Conc(seed, "known/" + key)))}

        return go

    tasks = [("u:" + u.name, task(u, i), 90 if quick else 400) for i, u in enumerate(units)]
    if not only:
        tasks += [("k:" + key, known(key, fn), 60) for key, fn in P.known]
    res = forkpool.run(tasks, 8, d)
    for i, u in enumerate(units):
        r = res["u:" + u.name]
        cur = os.path.join(d, "cur%d" % i)
        if ("signal" in r or "crash" in r or "timeout" in r) and os.path.exists(cur):
            r["at_trial"] = open(cur).read()
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    json.dump({"units": res, "wall": time.time() - t0}, open(out, "w"))


if __name__ == "__main__":
    main(*sys.argv[1:])
