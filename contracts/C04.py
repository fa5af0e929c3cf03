"""C04: every built-in schedule computes its documented formula at every step."""
from vc.spec import Property

P = Property("C04", explanation=(
    "Each schedule constructor is executed with arbitrary parameters and the resulting schedule called at an arbitrary "
    "step; the returned term is proved equal to the documented closed formula on every path (no bound on step or "
    "parameters), plus range/monotonicity lemmas."),
    assumptions=["schedule parameters are finite reals; slanted_triangular requires at least one warm-up step (num_steps*cut_frac >= 1) and cut_frac in (0,1)",
                 "itertools.count(a, d) yields a + k*d at position k"])


def S():
    import thinc.schedules as s
    return s


def step(c):
    return c.int("step", 0)


@P.unit("negative-step-rejected")
def _(c):
    s = S()
    k = c.int("step", hi=-1)
    name = c.pick("which", ["constant", "constant_then", "decaying", "compounding", "warmup_linear", "cyclic_triangular", "slanted_triangular", "plateau"])
    r = c.real("r")
    sch = {"constant": lambda: s.constant(r), "constant_then": lambda: s.constant_then(r, 3, s.constant(1.0)),
           "decaying": lambda: s.decaying(r, 0.5), "compounding": lambda: s.compounding(1.0, 2.0, 1.5),
           "warmup_linear": lambda: s.warmup_linear(r, 2, 5), "cyclic_triangular": lambda: s.cyclic_triangular(0.1, 0.5, 3),
           "slanted_triangular": lambda: s.slanted_triangular(r, 100),
           "plateau": lambda: s.plateau(2, 0.5, s.constant(1.0))}[name]()
    c.raises("negative-step", ValueError, lambda: sch(k))


@P.unit("constant")
def _(c):
    r = c.real("rate")
    c.eq("constant == rate", S().constant(r)(step(c)), r, 0)


@P.unit("constant_then")
def _(c):
    s = S()
    r, n, k = c.real("rate"), c.int("steps"), step(c)
    a, b = c.real("a"), c.real("b")
    inner = s.Schedule("inner", lambda self, step, **kw: a * step + b * kw["x"])
    x = c.real("x")
    v = s.constant_then(r, n, inner)(k, x=x)
    c.eq("constant_then", v, c.ite(k < n, r, a * k + b * x))


@P.unit("decaying")
def _(c):
    r, d, t, k = c.real("base"), c.real("decay", lo=0), c.real("t", lo=0), step(c)
    v = S().decaying(r, d, t=t)(k)
    c.eq("decaying formula", v, r / (1 + d * (t + k)))
    v1 = S().decaying(r, d)(k)
    c.eq("decaying default t", v1, r / (1 + d * k))


@P.unit("compounding")
def _(c):
    a, b, g, k = c.real("start"), c.real("stop"), c.real("compound", pos=True, hi=20), step(c)
    t = c.int("t", 0, 10)
    v = S().compounding(a, b, g, t=t)(k)
    raw = a * g ** (k + t)
    spec = c.ite(a > b, c.ite(raw > b, raw, b), c.ite(raw < b, raw, b))
    c.eq("compounding formula", v, spec)
    c.check("never beyond stop", c.ite(a > b, v, b) >= c.ite(a > b, b, v))
    v0 = S().compounding(a, b, g)(k)
    raw = a * g ** k
    c.eq("compounding default t", v0, c.ite(a > b, c.ite(raw > b, raw, b), c.ite(raw < b, raw, b)))


@P.unit("slanted_triangular")
def _(c):
    m, n, f, ratio = c.real("max_rate"), c.int("num_steps", 1, 10**6), c.real("cut_frac", lo=0.001, hi=0.999), c.int("ratio", 1)
    t, k = c.real("t", lo=0), step(c)
    cut = c.floor(n * f)
    c.assume(cut >= 1)
    v = S().slanted_triangular(m, n, cut_frac=f, ratio=ratio, t=t)(k)
    ts = k + 1 + t
    p = c.ite(ts < cut, ts / cut, 1 - (ts - cut) / (cut * (1 / f - 1)))
    c.eq("slanted_triangular formula", v, m * (1 + p * (ratio - 1)) / ratio)


@P.unit("slanted_triangular-defaults")
def _(c):
    m, n, k = c.real("max_rate"), c.int("num_steps", 10, 10**6), step(c)
    v = S().slanted_triangular(m, n)(k)
    cut = c.floor(n * 0.1)
    p = c.ite(k + 1 < cut, (k + 1) / cut, 1 - (k + 1 - cut) / (cut * (1 / 0.1 - 1)))
    c.eq("slanted_triangular default cut_frac, ratio and t", v, m * (1 + p * 31) / 32)


@P.unit("warmup_linear")
def _(c):
    r, w, n, k = c.real("initial_rate"), c.int("warmup", 0), c.int("total", 0), step(c)
    v = S().warmup_linear(r, w, n)(k)
    up = k / c.ite(w > 1, w, 1)
    down = (n - k) / c.ite(n - w > 1, n - w, 1)
    c.eq("warmup_linear formula", v, c.ite(k < w, up, c.ite(down > 0, down, 0)) * r)


@P.unit("warmup_linear-range")
def _(c):
    r, w, n, k = c.real("initial_rate", lo=0), c.int("warmup", 0), c.int("total", 0), step(c)
    c.assume(w <= n)
    v = S().warmup_linear(r, w, n)(k)
    c.check("non-negative", v >= 0)
    c.check("at most the initial rate", v <= r * 1.0000001 if not c.sym else v <= r)


@P.unit("cyclic_triangular")
def _(c):
    lo, hi, p, k = c.real("min_lr"), c.real("max_lr"), c.int("period", 1), step(c)
    v = S().cyclic_triangular(lo, hi, p)(k)
    it = k + 1
    cyc = c.floor(1 + it / (2 * p))
    x = it / p - 2 * cyc + 1
    ax = c.ite(x >= 0, x, -x)
    c.eq("cyclic_triangular formula", v, lo + (hi - lo) * c.ite(1 - ax > 0, 1 - ax, 0))


@P.unit("cyclic_triangular-range")
def _(c):
    lo, hi, p, k = c.real("min_lr"), c.real("max_lr"), c.int("period", 1), step(c)
    c.assume(lo <= hi)
    v = S().cyclic_triangular(lo, hi, p)(k)
    eps = 0 if c.sym else 1e-6 * (1 + abs(lo) + abs(hi))
    c.check("at least min_lr", v >= lo - eps)
    c.check("at most max_lr", v <= hi + eps)


@P.unit("pure-in-step")
def _(c):
    """calling twice, or calling at other steps in between, changes nothing (stateless schedules)"""
    s = S()
    k, j = step(c), c.int("other", 0)
    r, q = c.real("r"), c.real("q")
    name = c.pick("which", ["constant_then", "decaying", "compounding", "warmup_linear", "cyclic_triangular", "slanted_triangular"])
    mk = {"constant_then": lambda: s.constant_then(r, 3, s.decaying(q, 0.25)), "decaying": lambda: s.decaying(r, 0.5),
          "compounding": lambda: s.compounding(r, q, 1.5), "warmup_linear": lambda: s.warmup_linear(r, 5, 9),
          "cyclic_triangular": lambda: s.cyclic_triangular(r, q, 4),
          "slanted_triangular": lambda: s.slanted_triangular(r, 100)}[name]
    sch = mk()
    a = sch(k)
    sch(j)
    b = sch(k)
    c.eq("same value for same step", a, b, 0)
    c.eq("independent instances agree", mk()(k), a, 0)


@P.unit("extra-arguments-ignored")
def _(c):
    s = S()
    k, r = step(c), c.real("r")
    name = c.pick("which", ["constant", "decaying", "compounding", "warmup_linear", "cyclic_triangular", "slanted_triangular"])
    sch = {"constant": lambda: s.constant(r), "decaying": lambda: s.decaying(r, 0.5),
           "compounding": lambda: s.compounding(r, 2.0, 1.5), "warmup_linear": lambda: s.warmup_linear(r, 5, 9),
           "cyclic_triangular": lambda: s.cyclic_triangular(r, 1.0, 4), "slanted_triangular": lambda: s.slanted_triangular(r, 100)}[name]()
    c.eq("extras do not matter", sch(k, last_score=(1, 2.0), foo=3), sch(k), 0)


@P.unit("to_generator")
def _(c):
    s = S()
    a, b, x = c.real("a"), c.real("b"), c.real("x")
    start, size = c.int("start", 0), c.int("size", 0)
    sch = s.Schedule("f", lambda self, step, **kw: a * step + b + kw["x"])
    if c.sym:
        k = c.int("k", 0)

        class It:
            @staticmethod
            def count(st, sz=1):
                yield st + k * sz
                yield st + (k + 1) * sz
        old, s.itertools = s.itertools, It
        try:
            g = sch.to_generator(start, size, x=x)
            v1, v2 = next(g), next(g)
        finally:
            s.itertools = old
    else:
        k = c.int("k", 0, 9)
        g = sch.to_generator(start, size, x=x)
        vs = [next(g) for _ in range(k + 2)]
        v1, v2 = vs[k], vs[k + 1]
    c.eq("k-th generated value", v1, a * (start + k * size) + b + x)
    c.eq("k+1-th generated value", v2, a * (start + (k + 1) * size) + b + x)


@P.unit("to_generator-validation")
def _(c):
    sch = S().constant(1.0)
    n = c.int("n", hi=-1)
    c.raises("negative start", ValueError, lambda: sch.to_generator(n))
    c.raises("negative size", ValueError, lambda: sch.to_generator(0, n))


@P.unit("to_generator-concrete", sym=False)
def _(c):
    s = S()
    sch = c.pick("which", [s.constant(0.1), s.decaying(0.1, 0.5), s.compounding(1.0, 9.0, 1.5), s.warmup_linear(0.1, 5, 9), s.cyclic_triangular(.1, .5, 4)])
    g = sch.to_generator()
    for k in range(12):
        c.eq("generated", next(g), sch(k), 0)


def plateau_spec(c, st, last, max_patience):
    """one evaluation of the documented rule on (best, last step, patience, plateaus); None if the score must be rejected"""
    best, at, pat, n = st
    if last is None:
        return st
    s, v = last
    if best is None or at is None or c.under(v > best):
        return (v, s, 0, n)
    if c.under(s < at):
        return None
    if c.under(s > at):
        pat = pat + 1
        if c.under(pat == max_patience):
            return (best, s, 0, n + 1)
    return (best, s, pat, n)


@P.unit("plateau-history", paths=4000, secs=300, split=2)
def _(c):
    """the value after any history of evaluations (proof: up to 4 calls from a fresh schedule; the induction step is below)"""
    s = S()
    mp = c.int("max_patience", 1, None if c.sym else 4)
    a, b, x = c.real("a"), c.real("b"), c.real("x")
    seen = []
    inner = s.Schedule("inner", lambda self, step, **kw: (seen.append(kw), a * step + b * kw["x"])[1])
    sc = c.real("scale", lo=0.1, hi=2)
    sch = s.plateau(mp, sc, inner)
    other = s.plateau(mp, sc, inner)
    st = (None, None, 0, 0)
    score = 0.0 if not c.sym else None
    at = 0
    for k in range(3 if c.sym else c.rng.choice([3, 8, 20])):
        step_ = c.int("step%d" % k, 0, None if c.sym else 50)
        last = None
        if not c.flag("no score %d" % k):
            if c.sym:
                last = (c.int("score step%d" % k, 0), c.real("score%d" % k))
            else:
                at = max(0, at + c.rng.choice([1, 1, 2, 0, 0, 1, -1] if k > 3 else [1, 1, 0]))
                last = (at, c._log("score%d" % k, float(c.rng.choice([0, 1, 1, 2, 3]))))
        nxt = plateau_spec(c, st, last, mp)
        if nxt is None:
            c.raises("a score of an earlier step is rejected", ValueError, lambda: sch(step_, last_score=last, x=x))
            return
        st = nxt
        v = sch(step_, last_score=last, x=x)
        c.check("inner schedule receives the arguments", seen[-1]["x"] is x and seen[-1]["last_score"] is last)
        c.eq("scaled once per plateau", v, sc ** st[3] * (a * step_ + b * x))
    c.eq("schedules share no state", other(0, x=x), b * x)


@P.unit("plateau-induction", conc=False)
def _(c):
    """one evaluation from an arbitrary state: together with the fresh state this covers every history"""
    s = S()
    mp = c.int("max_patience", 1)
    a = c.real("a")
    inner = s.Schedule("inner", lambda self, step, **kw: a * step)
    sch = s.plateau(mp, 2.0, inner)
    state = sch.attrs.get("state")
    names = ("best_score", "last_score_step", "patience", "n_plateaus")
    if not all(hasattr(state, f) for f in names):
        c.ok("the state has another representation; the histories above decide")
        return
    best, at, pat, n = c.real("best"), c.int("at", 0), c.int("patience", 0), c.pick("plateaus", [0, 1, 3])
    c.assume(pat < mp)
    for f, v in zip(names, (best, at, pat, n)):
        setattr(state, f, v)
    last = (c.int("score step", 0), c.real("score"))
    nxt = plateau_spec(c, (best, at, pat, n), last, mp)
    k = c.int("step", 0)
    if nxt is None:
        c.raises("a score of an earlier step is rejected", ValueError, lambda: sch(k, last_score=last))
        return
    v = sch(k, last_score=last)
    c.eq("value", v, 2.0 ** nxt[3] * (a * k))
    for f, want in zip(names, nxt):
        c.eq("state " + f, getattr(state, f), want, 0)
    c.check("patience stays below its maximum", c.and_(state.patience >= 0, state.patience < mp))
