#!/usr/bin/env python3
"""setup: the tools are present, and the verifier agrees with CPython and numpy on samples.

Every function of vc/samples.py is explored symbolically and then compared with random executions: for each random input exactly the
path whose condition holds must predict the value (or the exception) that the real execution gives."""
import os, random, re, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def parse(doc):
    out = []
    for w in doc.split():
        m = re.fullmatch(r"(\w+)(?:\[([^\]]*)\])?(?::(\S+))?", w)
        out.append((m.group(1), m.group(2).split(",") if m.group(2) else None, m.group(3)))
    return out


def holds(V, pc, depth=0):
    from vc.evalterm import NoValue
    try:
        return all([V(x) for x in pc])
    except NoValue as e:
        v = e.args[0]
        if depth < 2 and getattr(v, "op", None) == "var" and v.sort == "I":
            for i in range(7):
                V.env[v] = i
                if holds(V, pc, depth + 1):
                    return True
            del V.env[v]
            return False
        raise


def differs(V, want, got):
    import numpy as np
    if isinstance(want, type) or isinstance(got, type):
        return None if want is got else "predicted %s, real %s" % (want, got)
    close = lambda x, g: np.isclose(float(x), float(g), rtol=1e-6, atol=1e-9, equal_nan=True)
    if len(want) != len(got):
        return "%d results, real %d" % (len(want), len(got))
    for (kind, *w), g in zip(want, got):
        if kind == "array":
            d, ks, cell = w
            shape = tuple(int(V(x)) for x in d)
            if shape != np.shape(g):
                return "shape %s, real %s" % (shape, np.shape(g))
            for i in np.ndindex(shape):
                x = V(cell, dict(zip(ks, i)))
                if not close(x, g[i]):
                    return "cell %s: %s, real %s" % (i, x, g[i])
        else:
            x = V(w[0])
            if not close(x, g):
                return "value %s, real %s" % (x, g)
    return None


def main(only=None, rounds=40):
    import numpy as np
    import vc.solve, vc.terms as T
    from vc import engine, spec, runtime, instrument, evalterm
    from vc.engine import E
    path = os.path.join(HERE, "vc", "samples.py")
    src = open(path).read()
    sym = {"__builtins__": runtime.BUILTINS, "_vc_rt": runtime, "__name__": "samples"}
    exec(instrument.compile_source(src, path, "samples"), sym)
    real = {"__name__": "samples"}
    exec(compile(src, path, "exec"), real)
    show = only is not None
    rng = np.random.RandomState(int(os.environ.get("VERIF_SEED", "1") or 1))
    bad = compared = unknown = spurious = 0
    names = [n for n in real if re.match(r"[nl]_", n) and (only is None or n in only)]
    for name in names:
        spec_ = parse(real[name].__doc__)
        engine.reset()
        E.max_paths = 200
        paths = []
        size = lambda d: d if not d.isdigit() else None

        def body():
            c = spec.Sym()
            dims = {}

            def dim(d):
                if d.isdigit():
                    return int(d)
                if d not in dims:
                    dims[d] = c.dim("d" + d.rstrip("+"), 1 if d.endswith("+") else 0)
                return dims[d]
            args, inputs = [], {}
            for v, shape, bound in spec_:
                if shape is not None:
                    s = [dim(d) for d in shape]
                    a = c.array(v, *s, dtype="int64" if bound else "float64", **(dict(lo=0, hi=dim(bound)) if bound else {}))
                    inputs[v] = a.st.content
                elif bound:
                    a = c.idx(v, dim(bound)) if not bound.isdigit() else c.int(v, 0, int(bound) - 1)
                    inputs[v] = a.t
                else:
                    a = dim(v)
                    inputs[v] = a.t
                args.append(a)
            keep = (inputs, {d: x.t for d, x in dims.items()})
            try:
                r = sym[name](*args)
            except (engine.Unsupported, engine.Infeasible, engine.CutPath):
                raise
            except (ValueError, IndexError, TypeError, ZeroDivisionError) as e:
                paths.append((list(E.solver.pc), keep, type(e)))
                c.ok("ran")
                return
            vals = []
            for x in (r if isinstance(r, tuple) else (r,)):
                if hasattr(x, "dims"):
                    ks = [T.fresh("k", "I") for _ in x.dims]
                    vals.append(("array", list(x.dims), ks, x.cell(*ks)))
                else:
                    vals.append(("value", engine.term(x)))
            paths.append((list(E.solver.pc), keep, vals))
            c.ok("ran")
        E.explore(body, name)
        for o in E.obligations:
            if not o.ok:
                print("selftest: %s: %s %s" % (name, o.name, str(o.detail)[-600:]))
                bad += 1
        done = 0
        for _ in range(rounds):
            n = {}
            for v, shape, bound in spec_:
                for d in (shape or []) + ([bound] if bound else [] if shape else [v]):
                    n.setdefault(d, int(d) if d.isdigit() else rng.randint(1 if d.endswith("+") else 0, 5))
            vals, ok = {}, True
            for v, shape, bound in spec_:
                if shape is not None:
                    s = tuple(n[d] for d in shape)
                    vals[v] = rng.randint(0, n[bound], size=s) if bound and n[bound] else rng.randint(-6, 7, size=s) / 4.0
                elif bound:
                    ok = ok and n[bound] > 0
                    vals[v] = int(rng.randint(0, max(n[bound], 1)))
                else:
                    vals[v] = n[v]
            if not ok:
                continue
            try:
                with np.errstate(all="ignore"):
                    got = real[name](*[np.copy(vals[v]) if isinstance(vals[v], np.ndarray) else vals[v] for v, _, _ in spec_])
                got = got if isinstance(got, tuple) else (got,)
            except (ValueError, IndexError, TypeError, ZeroDivisionError) as e:
                got = type(e)
            # a path condition may be weaker than the real one (a spurious path can only raise an alarm): some path must agree
            agree, errs, dark = False, [], False
            for pc, (inputs, dims), want in paths:
                env = {t: vals[v] for v, t in inputs.items()}
                env.update({t: n[d] for d, t in dims.items()})
                V = evalterm.Value(env)
                try:
                    # variables the verifier introduced (the iteration at which a loop is left, ..): any value that satisfies the condition
                    if not holds(V, pc):
                        continue
                    err = differs(V, want, got)
                except evalterm.NoValue as e:
                    if show:
                        print("   no value: %s" % e)
                    dark = True
                    continue
                if err:
                    errs.append(err)
                else:
                    agree = True
            if agree:
                done += 1
                spurious += bool(errs)
            elif dark:
                unknown += 1
            else:
                print("selftest: %s on %s: %s" % (name, {k: np.asarray(x).tolist() for k, x in vals.items()}, errs or "no path covers this input"))
                bad += 1
            if bad > 40:
                break
        compared += done
        if not done:
            print("selftest: %s: nothing compared" % name)
            bad += 1
    print("selftest: z3 %s; %d functions, %d executions compared, %d also on a spurious path, %d outside the evaluator, %d problems" % (
        vc.solve.z3.get_version_string(), len(names), compared, spurious, unknown, bad))
    return bad


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:] or None)))
    t.start()
    t.join()
    sys.exit(0 if res == [0] else 1)
