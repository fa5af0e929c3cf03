"""C03: one optimizer call applies exactly the documented update rule, from any state."""
from vc.spec import Property

P = Property("C03", explanation=(
    "One call of the optimizer is executed from an arbitrary state (any number of earlier updates of this key, any moments and averages, "
    "arbitrary state of other keys, any step counter), for arrays of any size and any schedule values, and the resulting weights, moments, "
    "averages and gradient are proved equal to the update rule.  As the start state is arbitrary and the empty state is included, this is the "
    "inductive step for every history.  Schedules record the step they were read at."),
    assumptions=["betas lie in [0,1), eps, the learning rate and the second moments are nonnegative (eps positive), as their definitions give them",
                 "RAdam: update counts 0 to 12 are enumerated; its own step numbering (first update counted as step 2) is taken as implemented",
                 "gradient values are finite (zeroing is multiplication by zero)"],
    bounded=["generator and list schedules: lists of up to 4 values and 4 calls", "RAdam: update counts up to 12"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


KEY = (7, "W")


def read_at(c, opt_box, name, value, log):
    """schedule returning value, recording the arguments it was read with"""
    from thinc.schedules import Schedule

    def call(schedule, step, **kw):
        log.append((name, step, kw))
        return value

    return Schedule(name, call)


class Case:
    """an optimizer in an arbitrary state"""

    def __init__(self, c, kind, radam_t=None):
        from thinc.optimizers import Optimizer
        self.c, self.kind = c, kind
        c.use_ops()
        self.log = []
        v = self.v = {"learn_rate": c.real("lr", lo=0), "L2": c.real("L2", lo=0), "grad_clip": c.real("clip", lo=0)}
        if kind == "sgd":
            v["beta1"] = 0.0
            v["beta2"] = 0.0
        else:
            v["beta1"], v["beta2"] = c.real("b1", 0.001, 0.999), c.real("b2", 0.001, 0.999)
        v["eps"] = c.real("eps", lo=1e-3)
        # which hyper-parameters are active
        plain = radam_t is not None
        self.L2_off = plain or c.flag("L2 off")
        if self.L2_off:
            v["L2"] = 0.0
        else:
            c.assume(v["L2"] > 0)
        if plain or c.flag("clip off"):
            v["grad_clip"] = 0.0
        else:
            c.assume(v["grad_clip"] > 0)
        self.decay = not plain and c.flag("decoupled")
        self.averaging = c.flag("averaging")
        sch = {k: read_at(c, None, k, x, self.log) for k, x in v.items()}
        lr = sch.pop("learn_rate")
        o = self.o = Optimizer(lr, use_averages=self.averaging, use_radam=kind == "radam", L2_is_weight_decay=self.decay, **sch)
        self.step = c.int("step", 0)
        o._step = self.step
        two = not plain and c.flag("matrix")
        self.shape = (c.dim("n", 1), c.dim("m", 1)) if two else (c.dim("n", 1),)
        self.W = c.array("W", *self.shape)
        self.G = c.array("G", *self.shape)
        self.size = self.shape[0] * self.shape[1] if two else self.shape[0]
        seen = c.flag("seen before") if radam_t is None else radam_t > 0
        self.t0 = (c.int("t", 1) if radam_t is None else radam_t) if seen else 0
        self.m1 = self.m2 = self.avg = None
        if seen:
            o.nr_update[KEY] = self.t0
            if kind != "sgd":
                self.m1, self.m2 = c.array("m1", self.size), c.array("m2", self.size, lo=0)
                o.mom1[KEY], o.mom2[KEY] = self.m1, self.m2
            if self.averaging:
                self.avg = c.array("avg", *self.shape)
                o.averages[KEY] = self.avg
        # another parameter's state
        other = self.other = c.pick("other key", [(8, "W"), (7, "b")])
        o.nr_update[other] = 5
        o.mom1[other], o.mom2[other] = c.array("om1", 3), c.array("om2", 3, lo=0)
        self.snaps = c.snap(o.mom1[other], o.mom2[other])
        if self.averaging:
            o.averages[other] = c.array("oavg", 3)
            self.snaps += c.snap(o.averages[other])
        self.old = {n: c.value(getattr(self, n)) if getattr(self, n) is not None else None for n in ("W", "G", "m1", "m2", "avg")}

    def expect(self):
        """the documented rule, element by element on the flattened parameter"""
        c, v, old = self.c, self.v, self.old
        self.lr_scale = c.real("lr_scale", lo=0)
        w = lambda i: c.at(old["W"].reshape((-1,)) if len(self.shape) > 1 else old["W"], i)
        g0 = lambda i: c.at(old["G"].reshape((-1,)) if len(self.shape) > 1 else old["G"], i)
        coupled = not self.decay and not self.L2_off
        g1 = (lambda i: g0(i) + v["L2"] * w(i)) if coupled else g0
        if isinstance(v["grad_clip"], float) and v["grad_clip"] == 0.0:
            g = g1
        else:
            norm = c.sqrt(c.sum(self.size, lambda k: g1(k) * g1(k)))
            if c.under(norm >= v["grad_clip"]):
                g = lambda i: g1(i) * (v["grad_clip"] / norm)
            else:
                g = g1
        return w, g

    def common_after(self):
        c, o = self.c, self.o
        c.frame("other keys untouched", self.snaps)
        c.eq("update counted", o.nr_update[KEY], self.t0 + 1, 0)
        c.check("other key not counted", o.nr_update[self.other] == 5)
        c.eq("step unchanged", o.step, self.step, 0)
        for name, step, kw in self.log:
            c.eq("schedule read at the current step", step, self.step, 0)
            c.check("schedule gets the key and the last score", kw == {"key": KEY, "last_score": None})
        keys = {KEY, self.other}
        c.check("state only for the keys seen", set(o.nr_update) == keys and set(o.mom1) <= keys and set(o.mom2) <= keys)


def tail(c, k, w, upd):
    """decoupled decay and the moving average"""
    v = k.v
    lam = k.lr_scale * v["learn_rate"] * v["L2"]
    new = (lambda i: upd(i) * (1 - lam)) if k.decay else upd
    t = k.t0 + 1
    d = (1.0 + t) / (10.0 + t)
    e = c.ite(d > 0.9999, 1 - 0.9999, 1 - d)
    old = (lambda i: c.at(flat(k, k.old["avg"]), i)) if k.old["avg"] is not None else (lambda i: 0)
    avg = lambda i: old(i) - e * (old(i) - new(i))
    return new, avg


def flat(k, a):
    return a.reshape((-1,)) if len(k.shape) > 1 else a


def run(c, k):
    Wn, Gn = k.o(KEY, k.W, k.G, lr_scale=k.lr_scale)
    c.check("shapes kept", c.and_(*[c.and_(a == b, g == b) for a, g, b in zip(Wn.shape, Gn.shape, k.shape)]) if len(Wn.shape) == len(Gn.shape) == len(k.shape) else False)
    return Wn, Gn


def result(c, k, Wn, Gn, new, avg):
    c.eq_build("weights", flat(k, Wn), (k.size,), new)
    c.eq_build("gradient zeroed", flat(k, Gn), (k.size,), lambda i: 0)
    if k.averaging:
        c.eq_build("moving average", flat(k, k.o.averages[KEY]), (k.size,), avg)
    else:
        c.check("no averages kept", k.o.averages is None)
    k.common_after()


@P.unit("SGD", secs=300, split=4)
def _(c):
    k = Case(c, "sgd")
    w, g = k.expect()
    Wn, Gn = run(c, k)
    upd = lambda i: w(i) - k.lr_scale * k.v["learn_rate"] * g(i)
    result(c, k, Wn, Gn, *tail(c, k, w, upd))


@P.unit("Adam", secs=400, split=4)
def _(c):
    k = Case(c, "adam")
    w, g = k.expect()
    v, t = k.v, k.t0 + 1
    b1, b2 = v["beta1"], v["beta2"]
    m1 = lambda i: b1 * (c.at(k.old["m1"], i) if k.old["m1"] is not None else 0) + (1 - b1) * g(i)
    m2 = lambda i: b2 * (c.at(k.old["m2"], i) if k.old["m2"] is not None else 0) + (1 - b2) * g(i) * g(i)
    lr = v["learn_rate"] * k.lr_scale * c.sqrt(1 - b2 ** t) / (1 - b1 ** t)
    Wn, Gn = run(c, k)
    upd = lambda i: w(i) - lr * m1(i) / (c.sqrt(m2(i)) + v["eps"])
    c.eq_build("first moment", k.o.mom1[KEY], (k.size,), m1)
    c.eq_build("second moment", k.o.mom2[KEY], (k.size,), m2)
    result(c, k, Wn, Gn, *tail(c, k, w, upd))


@P.unit("RAdam", secs=400, split=4, paths=800)
def _(c):
    t0 = c.pick("t", [0, 1, 2, 4, 8, 9, 12])
    k = Case(c, "radam", radam_t=t0)
    w, g = k.expect()
    v, s = k.v, t0 + 2
    b1, b2 = v["beta1"], v["beta2"]
    m1 = lambda i: b1 * (c.at(k.old["m1"], i) if k.old["m1"] is not None else 0) + (1 - b1) * g(i)
    m2 = lambda i: b2 * (c.at(k.old["m2"], i) if k.old["m2"] is not None else 0) + (1 - b2) * g(i) * g(i)
    lr = v["learn_rate"] * k.lr_scale
    Wn, Gn = run(c, k)
    top = 2 / (1 - b2) - 1
    sma = top - 2 * s * b2 ** s / (1 - b2 ** s)
    if c.under(sma >= 5):
        size = c.sqrt((1 - b2 ** s) * (sma - 4) / (top - 4) * (sma - 2) / sma * top / (top - 2)) / (1 - b1 ** s)
        upd = lambda i: w(i) - size * lr * (m1(i) / (c.sqrt(m2(i)) + v["eps"]))
    else:
        upd = lambda i: w(i) - 1.0 / (1 - b1 ** s) * lr * m1(i)
    c.eq_build("first moment", k.o.mom1[KEY], (k.size,), m1)
    c.eq_build("second moment", k.o.mom2[KEY], (k.size,), m2)
    result(c, k, Wn, Gn, *tail(c, k, w, upd))


@P.unit("keys are independent", secs=400, split=4)
def _(c):
    """updates of one key give the same result whatever happened to another key before"""
    from thinc.optimizers import Optimizer
    from thinc.schedules import Schedule
    c.use_ops()
    kind = c.pick("kind", ["sgd", "adam", "radam"])
    n = c.dim("n", 1)
    vals = {}

    def sch(name, lo, hi):
        a, b = c.real(name + "0", lo, hi), c.real(name + "1", lo, hi)
        return lambda: Schedule(name, lambda schedule, step, **kw: a if step == 0 else b)

    mk = {"learn_rate": sch("lr", 0.01, 1), "L2": sch("L2", 0.1, 1), "grad_clip": lambda: 0.0, "eps": lambda: 0.01}
    if kind != "sgd":
        mk["beta1"], mk["beta2"] = sch("b1", 0.5, 0.9), sch("b2", 0.5, 0.999)
    else:
        mk["beta1"] = mk["beta2"] = lambda: 0.0
    new = lambda: Optimizer(**{"learn_rate": mk["learn_rate"]()}, **{k: f() for k, f in mk.items() if k != "learn_rate"}, use_radam=kind == "radam")
    a, b = new(), new()
    A, B = c.pick("keys", [((1, "W"), (2, "W")), ((1, "W"), (1, "b")), ((1, "W"), ("1", "W"))])
    m = c.dim("m", 1)
    Wa, Ga = c.array("Wa", m), c.array("Ga", m)
    Wb, Gb = c.array("Wb", n), c.array("Gb", n)
    W1, G1 = c.value(Wb), c.value(Gb)
    a(A, Wa, Ga)                      # the other key is updated first, at step 0
    a.step_schedules()
    b.step_schedules()
    c.check("step advances by one", c.and_(a.step == 1, b.step == 1))
    Ra, _ = a(B, Wb, Gb)
    Rb, _ = b(B, W1, G1)
    c.eq("same result as without the other key", Ra, Rb, 1e-6)
    c.eq("same average", a.averages[B], b.averages[B], 1e-6)
    if kind != "sgd":
        c.eq("same first moment", a.mom1[B], b.mom1[B], 1e-6)
        c.eq("same second moment", a.mom2[B], b.mom2[B], 1e-6)
        s = c.snap(a.mom1[A], a.mom2[A])
        a(B, Wb, Gb)
        c.frame("moments of the other key", s)
    s = c.snap(Wa, Ga, a.averages[A])
    a(B, Wb, Gb)
    c.frame("arrays of the other key", s)


@P.unit("empty gradient")
def _(c):
    from thinc.optimizers import Optimizer
    c.use_ops()
    o = Optimizer(c.real("lr", 0, 1), use_radam=c.flag("radam"))
    W, G = c.array("W", 0, c.dim("m")), c.array("G", 0, 0)
    Wn, Gn = o(KEY, W, G)
    c.check("returned unchanged", Wn is W and Gn is G)
    c.check("no state kept", not o.mom1 and not o.mom2 and not o.nr_update and not o.averages)


@P.unit("steps and scores")
def _(c):
    from thinc.optimizers import Optimizer
    c.use_ops()
    o = Optimizer(0.1)
    c.check("starts at step 0 without score", o.step == 0 and o.last_score is None)
    s = c.int("s", 0)
    o._step = s
    seen = []
    from thinc.schedules import Schedule
    o.learn_rate = Schedule("lr", lambda schedule, step, **kw: seen.append((step, kw)) or 0.5)
    x = c.real("score")
    o.last_score = x
    c.eq("score recorded with the current step", o.last_score, (s, x), 0)
    n = c.dim("n", 1)
    o(KEY, c.array("W", n), c.array("G", n))
    for step, kw in seen:
        c.eq("schedule sees the score", kw["last_score"], (s, x), 0)
        c.eq("schedule sees the step", step, s, 0)
    c.eq("a call does not advance the step", o.step, s, 0)
    o.step_schedules()
    c.eq("step advances by one", o.step, s + 1, 0)
    c.eq("score keeps its own step", o.last_score, (s, x), 0)


@P.unit("hyper-parameters", secs=200, paths=2000)
def _(c):
    """a number, list, generator or schedule given as a hyper-parameter yields its value at the optimizer's step"""
    import thinc.api as A
    from thinc.schedules import Schedule
    c.use_ops()
    ctor = c.pick("optimizer", ["Adam", "RAdam", "SGD", "Optimizer"])
    names = {"learn_rate": "learn_rate", "beta1": "b1", "beta2": "b2", "eps": "eps", "L2": "L2", "grad_clip": "grad_clip"}
    if ctor == "SGD":
        names = {k: v for k, v in names.items() if k in ("learn_rate", "L2", "grad_clip")}
    name = c.pick("parameter", sorted(names))
    kind = c.pick("given as", ["number", "int", "list", "generator", "schedule"])
    xs = [c.real("x%d" % i) for i in range(3)]
    from thinc.optimizers import Optimizer
    make = Optimizer if ctor == "Optimizer" else getattr(A, ctor)
    given = {"number": xs[0] if not c.sym else 0.25, "int": 1, "list": list(xs), "generator": (x for x in xs),
             "schedule": Schedule("s", lambda schedule, step, **kw: xs[0] * step)}[kind]
    kw = {name: given}
    if name != "learn_rate":
        kw["learn_rate"] = 0.5
    o = make(**kw)
    sch = getattr(o, names[name])
    step = 0
    for adv in c.pick("advance", [(0, 1, 1), (1, 2, 0), (2, 0, 1), (1, 1, 1)]):
        want = {"number": given, "int": 1, "list": xs[min(step, 2)], "generator": xs[min(step, 2)], "schedule": xs[0] * step}[kind]
        c.eq("value at step", sch(step, key=KEY, last_score=None), want, 0)
        c.eq("value at the same step again", sch(step, key=KEY, last_score=None), want, 0)
        step += adv
    if kind in ("list", "generator"):
        if step > 0:
            c.raises("step must not decrease", ValueError, lambda: (sch(step), sch(step - 1)))
        c.raises("empty list rejected", ValueError, lambda: make(**dict(kw, **{name: []})))
    c.raises("other types rejected", ValueError, lambda: make(**dict(kw, **{name: "x"})))
    others = [v for k, v in names.items() if k != name and k != "learn_rate"]
    d = {"b1": 0.9, "b2": 0.999, "eps": 1e-8, "L2": 0.0, "grad_clip": 1.0}
    for v in others:
        c.check("default of " + v, getattr(o, v)(3) == d[v])
    c.check("flags", o.use_radam == (ctor == "RAdam") and o.L2_is_weight_decay is True and o.averages == {})
    if ctor == "SGD":
        c.check("no momentum", o.b1(0) == 0.0 and o.b2(0) == 0.0)
