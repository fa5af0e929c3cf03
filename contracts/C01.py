"""C01: parameters and gradients are stored, accumulated and updated in isolation."""
from vc.spec import Property

P = Property("C01", explanation=(
    "Each operation of ParamServer and Model is executed from an arbitrary store (a dictionary with unboundedly many arbitrary entries) with "
    "arbitrary keys, and everything observable at an arbitrary second key is proved to be what the operation's contract says: the written value if the "
    "keys are equal, the old value otherwise.  With the ownership invariant (arrays stored under different keys are different arrays), which every "
    "operation is proved to maintain, this is the inductive step for every history.  finish_update is proved over model trees with the optimizer "
    "replaced by an arbitrary one, and again with the library's optimizers."),
    assumptions=["set_param and set_grad hand over ownership of the array (thinc stores it without copying)",
                 "the experimental proxy of ParamServer is not attached"],
    bounded=["finish_update: trees of up to 4 nodes (incl. shared nodes) with up to 2 parameters each; array sizes and values unbounded"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def server(c):
    from thinc.backends import ParamServer
    ps = ParamServer()
    n = [0]

    def fresh(what):
        def make(key):
            n[0] += 1
            return c.array("%s%d" % (what, n[0]), c.dim("%sn%d" % (what, n[0])))
        return make

    ps._params = c.map("params", fresh("p"))
    ps._grads = c.map("grads", fresh("g"))
    return ps


def look(c, ps, key):
    """everything observable at a key"""
    out = []
    for has, get in ((ps.has_param, ps.get_param), (ps.has_grad, ps.get_grad)):
        h = bool(has(*key))
        v = get(*key) if h else None
        out.append((h, v, c.value(v) if h else None))
    return out


def missing(c, ps, key):
    c.raises("absent parameter is an error", KeyError, lambda: ps.get_param(*key)) if not ps.has_param(*key) else c.ok("present")
    c.raises("absent gradient is an error", KeyError, lambda: ps.get_grad(*key)) if not ps.has_grad(*key) else c.ok("present")


OPS = ["set_param", "set_grad", "inc_grad", "get_param", "get_grad", "has"]


@P.unit("store", secs=200)
def _(c):
    c.use_ops()
    ps = server(c)
    k1 = (c.int("id1", 1, 3 if not c.sym else None), c.name("name1"))
    k2 = (c.int("id2", 1, 3 if not c.sym else None), c.name("name2"))
    op = c.pick("operation", OPS)
    same = c.under(c.and_(k1[0] == k2[0], k1[1] == k2[1]))
    before = look(c, ps, k2)
    own = look(c, ps, k1)
    hg = own[1][0]
    n = own[1][1].shape[0] if (hg and op == "inc_grad") else c.dim("n")
    v = c.array("v", n)
    vs = c.snap(v)
    if op == "set_param":
        ps.set_param(k1[0], k1[1], v)
    elif op == "set_grad":
        ps.set_grad(k1[0], k1[1], v)
    elif op == "inc_grad":
        ps.inc_grad(k1[0], k1[1], v)
    elif op == "has":
        ps.has_param(*k1), ps.has_grad(*k1)
    elif op == "get_param" and own[0][0]:
        c.check("get returns the stored array", ps.get_param(*k1) is own[0][1])
    elif op == "get_grad" and own[1][0]:
        c.check("get returns the stored array", ps.get_grad(*k1) is own[1][1])
    c.frame("argument unmodified", vs)
    after = look(c, ps, k2)
    for what, (h0, a0, v0), (h1, a1, v1) in zip(("param", "grad"), before, after):
        if same and op == "set_" + what:
            c.check("written entry present", h1)
            c.eq("written value", v1, vs[0][1] if not c.sym else v, 0)
        elif same and op == "inc_grad" and what == "grad":
            c.check("written entry present", h1)
            c.eq("old value plus increment", v1, v0 + v if h0 else v)
            c.check("increment not retained", a1 is not v)
        else:
            c.check("presence unchanged", h0 == h1)
            if h0:
                c.check("same array", a0 is a1)
                c.eq("value unchanged", v1, v0, 0)
    missing(c, ps, k2)


@P.unit("increments accumulate")
def _(c):
    """three increments from any state, interleaved with an increment of another gradient"""
    c.use_ops()
    ps = server(c)
    k1 = (c.int("id1", 1, 3 if not c.sym else None), c.name("name1"))
    k2 = (c.int("id2", 1, 3 if not c.sym else None), c.name("name2"))
    c.assume(c.not_(c.and_(k1[0] == k2[0], k1[1] == k2[1])))
    h, a, g0 = look(c, ps, k1)[1]
    n = a.shape[0] if h else c.dim("n")
    h2, a2, o0 = look(c, ps, k2)[1]
    m = a2.shape[0] if h2 else c.dim("m")
    vs = [c.array("v%d" % i, n) for i in range(3)]
    w = c.array("w", m)
    s = c.snap(vs, w)
    ps.inc_grad(k1[0], k1[1], vs[0])
    ps.inc_grad(k2[0], k2[1], w)
    ps.inc_grad(k1[0], k1[1], vs[1])
    ps.inc_grad(k1[0], k1[1], vs[2])
    tot = vs[0] + vs[1] + vs[2]
    c.eq("sum of the increments", ps.get_grad(*k1), g0 + tot if h else tot)
    c.eq("other gradient", ps.get_grad(*k2), o0 + w if h2 else w)
    c.frame("increments unmodified", s)
    # an array passed in twice, and the same array for two parameters
    ps.inc_grad(k2[0], k2[1], w)
    c.eq("passed twice", ps.get_grad(*k2), o0 + w + w if h2 else w + w)
    c.frame("increments unmodified", s)


@P.unit("same array for two gradients")
def _(c):
    c.use_ops()
    ps = server(c)
    k1 = (c.int("id1", 1, 3 if not c.sym else None), c.name("name1"))
    k2 = (c.int("id2", 1, 3 if not c.sym else None), c.name("name2"))
    c.assume(c.not_(c.and_(k1[0] == k2[0], k1[1] == k2[1])))
    c.assume(c.not_(c.or_(bool(ps.has_grad(*k1)), bool(ps.has_grad(*k2)))))
    n = c.dim("n")
    v, w = c.array("v", n), c.array("w", n)
    s = c.snap(v, w)
    view = c.pick("view", ["same", "view", "row"])
    if view == "row":
        M = c.array("M", 2, n)
        s = c.snap(M, w)
        v = M[1]
    ps.inc_grad(k1[0], k1[1], v)
    ps.inc_grad(k2[0], k2[1], v if view != "view" else v.reshape((n,)))
    ps.inc_grad(k1[0], k1[1], w)
    c.eq("first gradient", ps.get_grad(*k1), v + w)
    c.eq("second gradient", ps.get_grad(*k2), v)
    c.frame("arrays passed in unmodified", s)


def model(c, name="m", layers=(), params=()):
    from thinc.model import Model
    return Model(name, lambda model, X, is_train: (X, lambda d: d), layers=list(layers), params={p: None for p in params})


@P.unit("model store", secs=300, split=4, paths=3000)
def _(c):
    """two layers, possibly with equal names, in arbitrary states"""
    c.use_ops()
    a = model(c, "m")
    b = model(c, c.pick("second name", ["m", "other"]))
    c.check("distinct identifiers", a.id != b.id)
    for m in (a, b):
        m._params = server(c)
        m._params._params = c.map("p%d" % m.id, m._params._params.value, None) if c.sym else {(m.id, k): c.array("p", c.dim("n")) for k in c.NAMES[:2]}
        if not c.sym:
            m._params._grads = {(m.id, k): c.array("g", c.dim("n")) for k in c.NAMES[:1]}
        else:
            m._params._grads = c.map("g%d" % m.id, m._params._grads.value)
        m._has_params = c.map("h%d" % m.id, lambda k: None if (c.sym and c.flag("unset")) else True, keys=c.NAMES)
        if not c.sym:
            for k in list(m._has_params):
                if (m.id, k) not in m._params._params:
                    m._has_params[k] = None
    x = a
    y = c.pick("observed layer", [a, b])
    n1, n2 = c.name("name1"), c.name("name2")
    op = c.pick("operation", ["set_param", "set_param none", "set_grad", "inc_grad", "read"])

    def look(m, n):
        hp = m.has_param(n)
        hg = bool(m.has_grad(n))
        try:
            p = m.get_param(n)
        except KeyError:
            p = None
        if hp is None or hp is False:
            c.check("maybe_get_param of an unset parameter", m.maybe_get_param(n) is None)
        if not hg:
            c.check("maybe_get_grad of an absent gradient", m.maybe_get_grad(n) is None)
        g = m.get_grad(n) if hg else None
        return hp, p, None if p is None else c.value(p), hg, g, None if g is None else c.value(g)

    # invariant: a parameter marked as set is stored
    for m, n in ((x, n1), (y, n2)):
        if m.has_param(n):
            c.assume(bool(m._params.has_param(m.id, n)))
    before = {y.id: look(y, n2)}
    own = look(x, n1)
    size = own[4].shape[0] if own[3] and op == "inc_grad" else c.dim("n")
    v = c.array("v", size)
    s = c.snap(v)
    if op == "set_param":
        x.set_param(n1, v)
    elif op == "set_param none":
        x.set_param(n1, None)
    elif op == "set_grad":
        x.set_grad(n1, v)
    elif op == "inc_grad":
        x.inc_grad(n1, v)
    c.frame("argument unmodified", s)
    same = c.under(n1 == n2)
    for m in (y,):
        h0, p0, pv0, g0, ga0, gv0 = before[m.id]
        h1, p1, pv1, g1, ga1, gv1 = look(m, n2)
        hit = m is x and same
        if hit and op == "set_param":
            c.check("parameter is set", h1 is True)
            c.eq("parameter has the value", pv1, v, 0)
        elif hit and op == "set_param none":
            c.check("parameter is unset", h1 is None)
        else:
            c.check("parameter presence unchanged", h0 is h1)
            c.check("same parameter array", p0 is p1)
            if p0 is not None:
                c.eq("parameter value unchanged", pv1, pv0, 0)
        if hit and op == "set_grad":
            c.check("gradient is set", g1)
            c.eq("gradient has the value", gv1, v, 0)
        elif hit and op == "inc_grad":
            c.check("gradient is set", g1)
            c.eq("gradient accumulated", gv1, gv0 + v if g0 else v)
            c.check("increment not retained", ga1 is not v)
        else:
            c.check("gradient presence unchanged", g0 == g1)
            c.check("same gradient array", ga0 is ga1)
            if ga0 is not None:
                c.eq("gradient value unchanged", gv1, gv0, 0)


TREES = ["single", "chain", "nested", "shared", "empty"]


def tree(c, kind, names):
    if kind == "single":
        r = model(c, "a", params=names)
        return r, [r]
    leaf = [model(c, n, params=names[:k]) for n, k in (("x", 2), ("x", 1))]
    if kind == "chain":
        r = model(c, "r", leaf)
        return r, [r] + leaf
    if kind == "nested":
        mid = model(c, "m", [leaf[1]], params=names[:1])
        r = model(c, "r", [leaf[0], mid], params=names)
        return r, [r, leaf[0], mid, leaf[1]]
    if kind == "shared":
        mid = model(c, "m", [leaf[0]])
        r = model(c, "r", [leaf[0], mid, leaf[0], leaf[1]])
        return r, [r, leaf[0], mid, leaf[1]]
    r = model(c, "r", [])
    return r, [r]


@P.unit("finish_update", secs=300, split=4)
def _(c):
    finish(c, ["W", "b"], c.pick("tree", TREES))


@P.unit("finish_update, one to eight parameters per layer", secs=300)
def _(c):
    finish(c, ["W", "b", "G", "c", "Q", "r", "E", "z"][:c.pick("parameters", [1, 3, 5, 8])], c.pick("tree", ["single", TREES[-1]]))


def finish(c, names, kind):
    c.use_ops()
    r, nodes = tree(c, kind, names)
    state = {}
    withg = c.pick("gradients on", ["all", "first", "last", "none"])
    for j, m in enumerate(nodes):
        for q, n in enumerate(m.param_names):
            size = c.dim("n%d%s" % (j, n))
            p = c.array("p%d%s" % (j, n), size)
            m.set_param(n, p)
            last = q == len(m.param_names) - 1
            if withg == "all" or (withg == "first" and q == 0) or (withg == "last" and last and j == len(nodes) - 1):
                m.set_grad(n, c.array("g%d%s" % (j, n), size))
                state[(m.id, n)] = (m, n, p, m.get_grad(n))
    calls = []
    done = {}

    class Sh:
        def __init__(self):
            self.got = []

        def finish_update(self, optimizer):
            self.got.append(optimizer)

    sh = Sh()
    nodes[-1]._shims = [sh]
    vals = {k: (c.value(p), c.value(g)) for k, (m, n, p, g) in state.items()}
    old = {(m.id, n): m.get_param(n) for m in nodes for n in m.param_names}

    def optimizer(key, param, grad, **kw):
        calls.append(key)
        m, n, p, g = state[key]
        c.check("optimizer gets the stored parameter", param is p)
        c.check("optimizer gets its own gradient", grad is g)
        c.eq("parameter value", param, vals[key][0], 0)
        c.eq("gradient value", grad, vals[key][1], 0)
        done[key] = c.array("new%d" % len(calls), param.shape[0])
        return done[key], grad

    grads = r.get_gradients()
    c.check("get_gradients lists every gradient", set(grads) == set(state) and all(grads[k][0] is state[k][2] and grads[k][1] is state[k][3] for k in state))
    r.finish_update(optimizer)
    c.check("each parameter with a gradient exactly once", sorted(map(str, calls)) == sorted(map(str, state)))
    c.check("shims are finished exactly once with the optimizer", sh.got == [optimizer] if c.sym is False else len(sh.got) == 1 and sh.got[0] is optimizer)
    for m in nodes:
        for n in m.param_names:
            k = (m.id, n)
            c.check("result stored", m.get_param(n) is (done[k] if k in done else old[k]))


@P.unit("finish_update with the library's optimizers", secs=300)
def _(c):
    """the stored gradient is zero afterwards, whatever its memory layout, and the caller's increments are untouched"""
    import thinc.api as A
    c.use_ops()
    opt = c.pick("optimizer", [lambda: A.Adam(0.1), lambda: A.SGD(0.1), lambda: A.RAdam(0.1), lambda: A.SGD(0.1, L2=0.1, L2_is_weight_decay=False)])()
    names = ["W", "b"]
    r, nodes = tree(c, c.pick("tree", ["single", "shared"]), names)
    n, k = c.dim("n", 1), c.dim("k", 1)
    snaps, arrays = [], {}
    layout = c.pick("layout", ["increment", "set", "set transposed", "increment transposed"])
    for j, m in enumerate(nodes):
        for name in m.param_names:
            m.set_param(name, c.array("p%d%s" % (j, name), n, k))
            g = c.array("g%d%s" % (j, name), *((k, n) if "transposed" in layout else (n, k)))
            if "transposed" in layout:
                g = g.T
            arrays[(m.id, name)] = c.value(m.get_param(name))
            if layout.startswith("set"):
                m.set_grad(name, g)
            else:
                snaps += c.snap(g)
                m.inc_grad(name, g)
    r.finish_update(opt)
    c.frame("increments unmodified", snaps)
    for m in nodes:
        for name in m.param_names:
            c.eq_build("gradient is zero", m.get_grad(name), (n, k), lambda i, j: 0)
            c.check("shape kept", len(m.get_param(name).shape) == 2)
            c.check("averages under the same key", (m.id, name) in opt.averages)
    c.check("one state entry per parameter", len(opt.averages) == len(arrays))
