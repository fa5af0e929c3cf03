"""C11: sequence reductions compute their statistic and back-propagate its transpose."""
from vc.spec import Property
from contracts.common import lengths, offsets, check_layer

P = Property("C11", explanation=(
    "Each pooling operation and its backward operation is executed for an arbitrary number of sequences with arbitrary lengths over arbitrary data and "
    "proved, cell by cell, equal to the statistic of that sequence (the sum / mean / maximum over its rows, its first / last row) and to the transpose of "
    "that statistic.  With unconstrained lengths every call that returns is proved to have had lengths that fit the data.  The pooling layers are proved "
    "over the operations' contracts."),
    assumptions=["int32 lengths do not overflow when summed"],
    bounded=[])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


KINDS = ["sum", "mean", "max", "first", "last"]
POS = {"max", "first", "last"}


def batch(c, kind, fit=True):
    B = c.dim("B")
    L = lengths(c, B, lo=1 if kind in POS else 0)
    n = c.sum(B, lambda b: c.at(L, b))
    W = c.dim("W", 1)
    X = c.array("X", n, W)
    return X, L, B, n, W


def stat(c, kind, X, L, b, j):
    s = offsets(c, L, b)
    l = c.at(L, b)
    if kind == "first":
        return c.at(X, s, j)
    if kind == "last":
        return c.at(X, s + l - 1, j)
    if kind == "max":
        return c.max(l, lambda k: c.at(X, s + k, j))
    t = c.sum(l, lambda k: c.at(X, s + k, j))
    return t if kind == "sum" else c.ite(l == 0, 0, t / c.ite(l == 0, 1, l))


@P.unit("statistic", secs=200)
def _(c):
    ops = c.use_ops()
    kind = c.pick("kind", KINDS)
    X, L, B, n, W = batch(c, kind)
    snaps = c.snap(X, L)
    r = getattr(ops, "reduce_" + kind)(X, L)
    Y = r[0] if kind in ("max", "first", "last") else r
    c.frame("inputs unmodified", snaps)
    c.eq_build("%s of every sequence" % kind, Y, (B, W), lambda b, j: stat(c, kind, X, L, b, j))


@P.unit("transpose", secs=200)
def _(c):
    """backward operation alone: the gradient of every row"""
    ops = c.use_ops()
    kind = c.pick("kind", KINDS)
    B = c.dim("B")
    L = lengths(c, B, lo=1 if kind in POS or kind == "mean" else 0)
    n = c.sum(B, lambda b: c.at(L, b))
    W = c.dim("W", 1)
    X = c.array("X", n, W)
    d = c.array("dY", B, W)
    if kind == "sum":
        args = (d, L)
    elif kind == "mean":
        args = (d, L)
    else:
        r = getattr(ops, "reduce_" + kind)(X, L)
        args = (d, r[1], L) if kind == "max" else (d, r[1])
    snaps = c.snap(*args)
    dX = getattr(ops, "backprop_reduce_" + kind)(*args)
    c.frame("inputs unmodified", snaps)
    c.check("one gradient row per data row", c.and_(dX.shape[0] == n, dX.shape[1] == W))
    b = c.int("b", 0)
    c.assume(b < B)
    k = c.int("k", 0)
    l = c.at(L, b)
    c.assume(k < l)
    j = c.int("j", 0)
    c.assume(j < W)
    s = offsets(c, L, b)
    g = c.at(d, b, j)
    want = {"sum": lambda: g, "mean": lambda: g / l, "first": lambda: c.ite(k == 0, g, 0), "last": lambda: c.ite(k == l - 1, g, 0),
            "max": lambda: c.ite(k == c.argmax(l, lambda q: c.at(X, s + q, j)), g, 0)}[kind]()
    c.eq("gradient of row k of sequence b", c.at(dX, s + k, j), want)


@P.unit("fit", secs=200)
def _(c):
    """unconstrained lengths: a call that returns had lengths that fit the data"""
    ops = c.use_ops()
    kind = c.pick("kind", KINDS)
    B = c.dim("B")
    n = c.dim("n")
    W = c.dim("W", 1)
    L = c.array("L", B, dtype="int32", lo=-2, hi=4)
    X = c.array("X", n, W)
    snaps = c.snap(X, L)
    r, err = c.run(lambda: getattr(ops, "reduce_" + kind)(X, L), ValueError, IndexError)
    c.frame("inputs unmodified", snaps)
    if err is not None:
        c.ok("rejected")
        return
    b = c.int("b", 0)
    c.assume(b < B)
    lb = c.at(L, b)
    c.check("every length is valid", lb > 0 if kind in POS else lb >= 0)
    total = c.sum(B, lambda k: c.at(L, k))
    if kind in ("first", "last"):
        c.check("lengths cover the data exactly", total == n)
    else:
        c.check("lengths stay inside the data", total <= n)


@P.unit("layers", secs=300)
def _(c):
    from thinc.types import Ragged
    from thinc.layers.reduce_sum import reduce_sum
    from thinc.layers.reduce_mean import reduce_mean
    from thinc.layers.reduce_max import reduce_max
    from thinc.layers.reduce_first import reduce_first
    from thinc.layers.reduce_last import reduce_last
    ops = c.use_ops()
    kind = c.pick("kind", KINDS)
    model = {"sum": reduce_sum, "mean": reduce_mean, "max": reduce_max, "first": reduce_first, "last": reduce_last}[kind]()
    model.ops = ops
    B = c.dim("B")
    L = lengths(c, B, lo=1 if kind != "sum" else 0)
    n = c.sum(B, lambda b: c.at(L, b))
    W = c.dim("W", 1)
    X = c.array("X", n, W)
    Xr = Ragged(X, L)
    snaps = c.snap(X, L)
    Y, back = model(Xr, is_train=c.flag("is_train"))
    c.eq_build("%s of every sequence" % kind, Y, (B, W), lambda b, j: stat(c, kind, X, L, b, j))
    if c.flag("wrong gradient shape"):
        B2, W2 = c.dim("B2"), c.dim("W2", 1)
        c.assume(c.or_(B2 != B, W2 != W))
        bad = c.array("bad", B2, W2)
        c.raises("a gradient of another shape is rejected", ValueError, lambda: back(bad))
        return
    d = c.array("dY", B, W)
    dsnap = c.snap(d)
    R = back(d)
    c.frame("inputs unmodified", snaps)
    c.frame("gradient unmodified", dsnap)
    dX = R.data
    c.check("one gradient row per data row", c.and_(dX.shape[0] == n, dX.shape[1] == W))
    b = c.int("b", 0)
    c.assume(b < B)
    k = c.int("k", 0)
    l = c.at(L, b)
    c.assume(k < l)
    j = c.int("j", 0)
    c.assume(j < W)
    c.eq("lengths of the gradient", c.at(R.lengths, b), l, 0)
    g = c.at(d, b, j)
    s = offsets(c, L, b)
    want = {"sum": lambda: g, "mean": lambda: g / l, "first": lambda: c.ite(k == 0, g, 0), "last": lambda: c.ite(k == l - 1, g, 0),
            "max": lambda: c.ite(k == c.argmax(l, lambda q: c.at(X, s + q, j)), g, 0)}[kind]()
    c.eq("gradient of row k of sequence b", c.at(dX, s + k, j), want)
