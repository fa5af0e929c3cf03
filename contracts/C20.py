"""C20: id remapping and de-duplication layers are exact and side-effect free."""
from vc.spec import Property

P = Property("C20", explanation=(
    "The remapping layers are proved, for an arbitrary table (given by arbitrary functions of the key), arbitrary batches of any size, any column and any "
    "default, to return the table's entry for known keys and the default for others, to leave table and input alone and to share nothing between layers; uniqued is "
    "proved, around an arbitrary layer that depends on the key column, to equal that layer on the full batch and to hand it the gradients summed over the "
    "duplicates."),
    assumptions=["table entries and default fit a 32-bit integer (the layers' output type)", "numpy.unique returns the distinct values with first positions, inverse and counts (external)",
                 "premap_ids is compiled code over preshed's hash map: evaluated, not proved; its keys are non-negative 64-bit integers"],
    bounded=["premap_ids: concrete evaluation on random tables and batches"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def expected(c, has, val, key, default):
    if not c.sym:
        return val(key) if has(key) else default
    return c.ite(has(key), val(key), default)


@P.unit("remap arrays", secs=60, trials=2)
def _(c):
    from thinc.layers import remap_ids_v2
    c.use_ops()
    table, has, val = c.table("table")
    other, _, _ = c.table("other")
    d = c.int("default", -50, 50)
    N = c.dim("N")
    col = c.pick("column", [None, "column"])
    dt = c.pick("dtype", ["int32", "int64", "uint64"])
    lo = 0 if dt == "uint64" or not c.sym else None
    if col:
        K = c.dim("K", 1)
        k = c.int("k", 0, None if c.sym else 6)
        c.assume(k < K)
        X = c.array("X", N, K, dtype=dt, lo=lo, hi=None if c.sym else 8)
        key = lambda i: c.at(X, i, k)
    else:
        k = None
        X = c.array("X", N, dtype=dt, lo=lo, hi=None if c.sym else 8)
        key = lambda i: c.at(X, i)
    late = c.flag("table set later")
    m = remap_ids_v2(None if late else table, d, column=k)
    m2 = remap_ids_v2(other, d + 1)
    if late:
        c.raises("no table is an error", ValueError, lambda: m(X, False))
        m.attrs["mapping_table"] = table
    snaps = c.snap(X)
    entries = None if c.sym else dict(table)
    Y, bp = m(X, c.flag("train"))
    c.eq_build("table entry or default", Y, (N, 1), lambda i, j: expected(c, has, val, key(i), d), tol=0)
    c.frame("input unmodified", snaps)
    dX = bp(c.array("dY", N, 1))
    c.eq_build("no gradient for ids", dX, (N, K) if col else (N,), lambda *i: 0, tol=0)
    c.check("table unmodified", table.writes == 0 if c.sym else dict(table) == entries)
    c.check("layers share nothing", m2.attrs["mapping_table"] is other and m.attrs["mapping_table"] is table)
    Y2, _ = m(X, False)
    c.eq("same answer again", Y2, Y, 0)


@P.unit("remap sequences", secs=60, trials=2)
def _(c):
    from thinc.layers import remap_ids, remap_ids_v2
    c.use_ops()
    table, has, val = c.table("table")
    d = c.int("default", -50, 50)
    n = c.dim("N")
    keys = c.lst("keys", n, lambda i: c.fint("key", i, 0, None if c.sym else 7))
    which = c.pick("layer", ["v1", "v2"])
    late = c.flag("table set later")
    if which == "v1":
        m = remap_ids(default=d) if late else remap_ids(table, d)
    else:
        m = remap_ids_v2(default=d) if late else remap_ids_v2(table, d)
    if late:
        m.attrs["mapping_table"] = table
    Y, bp = m(keys, c.flag("train"))
    c.eq_build("table entry or default", Y, (n, 1), lambda i, j: expected(c, has, val, c.fint("key", i, 0, None if c.sym else 7), d), tol=0)
    c.check("no gradient", bp(c.array("dY", n, 1)) == [])
    c.check("table unmodified", table.writes == 0 if c.sym else True)


@P.unit("layers do not share tables")
def _(c):
    from thinc.layers import remap_ids, remap_ids_v2
    c.use_ops()
    make = c.pick("layer", [remap_ids, remap_ids_v2])
    a, b = make(), make()
    if make is remap_ids_v2:
        c.check("no table yet", a.attrs["mapping_table"] is None and b.attrs["mapping_table"] is None)
        a.attrs["mapping_table"] = {}
        b.attrs["mapping_table"] = {}
    a.attrs["mapping_table"][3] = 4
    a.attrs["default"] = 9
    Y, _ = b([3, 5], False)
    c.eq_build("the other layer is unaffected", Y, (2, 1), lambda i, j: 0, tol=0)
    Y, _ = a([3, 5], False)
    c.eq_build("the layer's own table", Y, (2, 1), lambda i, j: c.ite(i == 0, 4, 9), tol=0)
    e = make()
    c.check("layers made later are unaffected", not e.attrs["mapping_table"] and e.attrs["default"] == 0)


@P.unit("strings", sym=False)
def _(c):
    from thinc.layers import remap_ids, remap_ids_v2
    c.use_ops()
    words = ["a", "b", "cc", "", "é"]
    table = {w: c.rng.randint(-9, 9) for w in words if c.rng.random() < .6}
    seq = [c.rng.choice(words + ["zz"]) for _ in range(c.rng.randint(0, 5))]
    for make in (remap_ids, remap_ids_v2):
        Y, bp = make(dict(table), 77)(c._log("seq", seq), True)
        c.check("entries", Y.reshape((-1,)).tolist() == [table.get(w, 77) for w in seq])
        c.check("shape", Y.shape == (len(seq), 1))


@P.unit("premap", sym=False, trials=3)
def _(c):
    import numpy
    from thinc.layers import premap_ids
    c.use_ops()
    rng = c.rng
    pool = [0, 1, 2, 3, 7, 2 ** 31, 2 ** 40, 2 ** 63 - 1]
    tabs = [c._log("table%d" % k, {rng.choice(pool): rng.choice([0, 1, 5, 2 ** 31 - 1]) for _ in range(rng.randint(0, 5))}) for k in range(2)]
    d = rng.choice([0, -1, 9])
    col = rng.choice([None, 0, 1])
    N = rng.randint(0, 5)
    X = numpy.asarray([[rng.choice(pool + [5, 9]) for _ in range(2)] for _ in range(N)], dtype="int64").reshape((N, 2))
    x = X[:, 0 if col is None else col]
    inp = numpy.ascontiguousarray(x) if col is None else X
    src = [dict(t) for t in tabs]
    ms = [premap_ids(t, default=d, column=col) for t in tabs]
    before = inp.copy()
    for m, t, s in zip(ms, tabs, src):
        t[5] = 123  # later changes of the caller's table do not matter
        Y, bp = m(inp, True)
        c.check("entries", Y.shape == (N, 1) and Y.reshape((-1,)).tolist() == [s.get(int(k), d) for k in x])
        dX = bp(numpy.ones((N, 1), dtype="f"))
        c.check("no gradient", dX.shape == inp.shape and not dX.any())
    c.check("input unmodified", (inp == before).all())
    c.raises("entries must be integers", ValueError, lambda: premap_ids({1: "a"}))


@P.unit("uniqued", secs=200, trials=3)
def _(c):
    from thinc.layers import uniqued
    from thinc.model import Model
    c.use_ops()
    N, K, nO = c.dim("N"), c.dim("K", 1), c.dim("nO", 1)
    k = c.int("column", 0, None if c.sym else 6)
    c.assume(k < K)
    X = c.array("X", N, K, dtype="int64", **({} if c.sym else dict(lo=0, hi=4)))
    train = c.flag("train")
    calls = []
    dU = []

    def fwd(model, Xu, is_train):
        def bp(dYu):
            dU.append(dYu)
            n = Xu.shape[0]
            r = c.build((n, K), lambda u, j: c.app("dX", u, j), dtype="float32")
            calls.append(r)
            return r
        calls.append((Xu, is_train))
        return c.build((Xu.shape[0], nO), lambda u, j: c.app("f", c.at(Xu, u, k), j), dtype="float32"), bp
    inner = Model("inner", fwd, dims={"nO": nO, "nI": None})
    m = uniqued(inner, column=k)
    snaps = c.snap(X)
    Y, bp = m(X, train)
    c.eq_build("the layer's result on the full batch", Y, (N, nO), lambda i, j: c.app("f", c.at(X, i, k), j), tol=1e-6)
    c.frame("input unmodified", snaps)
    c.check("one call", len(calls) == 1 and calls[0][1] is train)
    Xu = calls[0][0]
    M = Xu.shape[0]
    small = bool(X.size < 2)
    dY = c.array("dY", N, nO)
    snaps = c.snap(dY)
    dX = bp(dY)
    c.frame("gradient unmodified", snaps)
    c.check("one call of the inner backward", len(dU) == 1 and len(calls) == 2)
    if small:
        c.eq("tiny batches are passed on", Xu, X, 0)
        c.eq("gradient passed on", dU[0], dY, 0)
        c.eq("gradient returned", dX, calls[1], 0)
        return
    if c.sym:
        inv, cnt = c.groups()
        c.check("one row per distinct key", M == cnt)
    else:
        first = {}
        for u in range(M):
            first.setdefault(int(Xu[u, k]), u)
        c.check("every key is there", all(int(v) in first for v in X[:, k]))
        inv = lambda i: first[int(X[i, k])]
    i = c.int("i", 0, None if c.sym else 6)
    c.assume(i < N)
    c.check("group exists", c.and_(inv(i) >= 0, inv(i) < M))
    c.eq("group of a row has its key", c.at(Xu, inv(i), k), c.at(X, i, k), 0)
    if c.sym:
        u, v = c.int("u", 0), c.int("v", 0)
        c.assume(u < v)
        c.assume(v < M)
        c.check("keys are distinct", c.not_(c.at(Xu, u, k) == c.at(Xu, v, k)))
    else:
        c.check("keys are distinct", len(first) == M)
    c.eq_build("gradients summed over the duplicates", dU[0], (M, nO), lambda u, j: c.sum(N, lambda r: c.ite(inv(r) == u, c.at(dY, r, j), 0)), tol=1e-5)
    c.eq_build("gradient shared equally by the duplicates", dX, (N, K), lambda r, j: c.app("dX", inv(r), j) / c.sum(N, lambda q: c.ite(inv(q) == inv(r), 1, 0)), tol=1e-5)


@P.unit("uniqued embedding", sym=False, trials=2)
def _(c):
    """with a real embedding: same rows and the same parameter gradients as without de-duplication"""
    import numpy
    from thinc.api import Embed, HashEmbed, uniqued, chain
    c.use_ops()
    N, nO = c.rng.randint(0, 7), c.rng.randint(1, 4)
    col = c.rng.randint(0, 1)
    X = numpy.asarray([[c.rng.randint(0, 4) for _ in range(2)] for _ in range(N)], dtype="uint64").reshape((N, 2))
    make = c.pick("layer", [lambda: Embed(nO, 8, column=col), lambda: HashEmbed(nO, 9, seed=3, column=col)])
    if N == 0:
        return
    plain = make()
    plain.initialize()
    u = uniqued(plain.copy(), column=col)
    u.initialize()
    for n, q in zip(plain.walk(), u.layers[0].walk()):
        for name in n.param_names:
            q.set_param(name, n.get_param(name).copy())
    Y1, b1 = plain(X, True)
    Y2, b2 = u(X, True)
    c.eq("same rows", Y2, Y1, 1e-6)
    dY = c.array("dY", N, nO)
    b1(dY.copy())
    b2(dY.copy())
    for n, q in zip(plain.walk(), u.layers[0].walk()):
        for name in n.param_names:
            c.eq("same parameter gradient", q.get_grad(name), n.get_grad(name), 1e-4)
    c.check("layer width", u.get_dim("nO") == nO if plain.has_dim("nO") else True)
