"""C22: padded and ragged batches index consistently with the data they hold."""
from vc.spec import Property
from contracts.common import lengths, offsets

P = Property("C22", explanation=(
    "Indexing a Padded or Ragged batch of any size is proved to return, for every selected row, that row's data, its length and (Padded) its label and the "
    "number of sequences alive at each step; selections by position, by slice (any start and stop, given or omitted, positive or negative) and by index array. "
    "Copies are proved equal and independent, and the reported start and end positions to be the running totals of the lengths."),
    assumptions=["a selection from a Padded batch lists the rows by decreasing length, each labelled with its place in the original batch"],
    bounded=["index arrays of at most three (Padded) or two (Ragged) entries over arbitrary batches; slices with a step, by execution on sampled batches"])


def padded(c):
    """arbitrary Padded batch: lengths decreasing"""
    from thinc.types import Padded
    T, B, W = c.dim("T"), c.dim("B"), c.dim("W", 1)
    X = c.array("X", T, B, W)
    if c.sym:
        L = c.array("L", B, dtype="int32", fact=lambda x: c.and_(x >= 0, x <= T))
        D = c.array("I", B, dtype="int32", fact=lambda x: c.and_(x >= 0, x < B))
    else:
        import numpy
        L = c._log("L", numpy.array(sorted([c.rng.randint(0, T) for _ in range(B)], reverse=True), dtype="int32"))
        D = numpy.array(c.rng.sample(range(B), B), dtype="int32")
        c._log("I", D)
    S = c.build((T,), lambda t: c.sum(B, lambda b: c.ite(c.at(L, b) > t, 1, 0)), dtype="int32")
    return Padded(X, S, L, D), X, S, L, D, T, B, W


def check_padded(c, R, rows, m, X, L, D, T, W):
    """R holds rows(0..m-1)"""
    c.check("number of sequences", c.and_(R.lengths.shape[0] == m, R.indices.shape[0] == m))
    c.check("shape", c.and_(R.data.shape[0] == T, R.data.shape[1] == m, R.data.shape[2] == W))
    c.eq_build("lengths", R.lengths, (m,), lambda k: c.at(L, rows(k)))
    c.eq_build("labels", R.indices, (m,), lambda k: c.at(D, rows(k)))
    c.eq_build("data", R.data, (T, m, W), lambda t, k, j: c.at(X, t, rows(k), j), tol=0)
    c.eq_build("sequences alive at each step", R.size_at_t, (T,), lambda t: c.sum(m, lambda k: c.ite(c.at(L, rows(k)) > t, 1, 0)))


def ends(c, n):
    """slice bounds and the range they select from n items (as documented for Python slices)"""
    lo = c.pick("start", [None, "+", "-"])
    hi = c.pick("stop", [None, "+", "-"])

    def norm(kind, name, default):
        if kind is None:
            return None, default
        v = c.int(name, 0) if kind == "+" else c.int(name, 1)
        if kind == "+":
            return v, v if v < n else n
        return -v, n - v if v < n else 0
    a, a1 = norm(lo, "a", 0)
    b, b1 = norm(hi, "b", n)
    return slice(a, b), a1, b1 - a1 if b1 > a1 else 0


@P.unit("padded by position", secs=100)
def _(c):
    p, X, S, L, D, T, B, W = padded(c)
    i = c.int("i", -5 if not c.sym else None, 5 if not c.sym else None)
    snaps = c.snap(X, S, L, D)
    R, err = c.run(lambda: p[i], IndexError)
    c.frame("batch unmodified", snaps)
    inside = c.and_(i < B, -B <= i)
    if err is not None:
        c.check("only positions outside the batch are rejected", c.not_(inside))
        return
    c.check("positions outside the batch are rejected", inside)
    row = c.ite(i < 0, i + B, i)
    check_padded(c, R, lambda k: row + k, 1, X, L, D, T, W)


@P.unit("padded by slice", secs=200)
def _(c):
    p, X, S, L, D, T, B, W = padded(c)
    sl, a, m = ends(c, B)
    snaps = c.snap(X, S, L, D)
    R = p[sl]
    c.frame("batch unmodified", snaps)
    check_padded(c, R, lambda k: a + k, m, X, L, D, T, W)


def few(c, B, most):
    """a few arbitrary valid row numbers; (as given, normalised)"""
    m = c.pick("m", list(range(most + 1)))
    if m:
        c.assume(B > 0)
    out, norm = [], []
    for k in range(m):
        i = c.int("r%d" % k, 0, None if c.sym else 6)
        c.assume(i < B)
        if k == 1 and c.flag("negative"):
            out.append(i - B)
        else:
            out.append(i)
        norm.append(i)
    return out, norm


@P.unit("padded by index array", secs=200)
def _(c):
    p, X, S, L, D, T, B, W = padded(c)
    given, rows = few(c, B, 3)
    m = len(rows)
    snaps = c.snap(X, S, L, D)
    arg = c.ivec(given) if given else c.ivec([])
    R = p[arg]
    c.frame("batch unmodified", snaps)
    # rows in the order of the padded batch (stable order of decreasing length)
    rank = [c.total([c.ite(c.or_(rows[q] < rows[k], c.and_(rows[q] == rows[k], q < k)), 1, 0) for q in range(m)]) for k in range(m)]

    def row(k):
        r = rows[-1] if m else 0
        for q in range(m):
            r = c.ite(rank[q] == k, rows[q], r)
        return r
    check_padded(c, R, row, m, X, L, D, T, W)


@P.unit("padded copy", secs=60)
def _(c):
    p, X, S, L, D, T, B, W = padded(c)
    q = p.copy()
    for name in ("data", "size_at_t", "lengths", "indices"):
        a, b = getattr(p, name), getattr(q, name)
        c.eq("equal " + name, b, a, 0)
        old = c.value(a)
        if c.sym:
            b.write(lambda i: c.t(7), lambda i: c.Tm.TRUE)
        else:
            b.fill(7)
        c.eq("independent " + name, a, old, 0)
    c.check("length", c.len(p) == B)


def ragged(c, ndim=None):
    from thinc.types import Ragged
    B = c.dim("B")
    L = lengths(c, B)
    n = c.sum(B, lambda b: c.at(L, b))
    extra = 0 if c.sym else c.rng.choice([0, 0, 1])
    W = c.dim("W", 1)
    shape = {1: (), 2: (W,), 3: (W, 2)}[ndim or c.pick("ndim", [2, 3])]
    X = c.array("X", n + extra, *shape)
    return Ragged(X, L), X, L, B, n, shape


def check_ragged(c, R, rows, m, X, L, shape):
    """R holds sequences rows(0..m-1) in order"""
    c.check("number of sequences", R.lengths.shape[0] == m)
    c.eq_build("lengths", R.lengths, (m,), lambda k: c.at(L, rows(k)))
    out = R.dataXd
    total = c.sum(m, lambda k: c.at(L, rows(k)))
    c.check("amount of data", out.shape[0] == total)
    c.check("rank", len(out.shape) == 1 + len(shape))
    c.check("row shape", c.and_(*[a == b for a, b in zip(out.shape[1:], shape)]))
    if type(m) is int:
        if m == 0:
            return
        k = c.pick("k", list(range(m)))
    else:
        k = c.int("k", 0)
        c.assume(k < m)
    t = c.int("t", 0)
    c.assume(t < c.at(L, rows(k)))
    j = c.int("j", 0)
    c.assume(j < shape[0])
    idx = (j,) + (1,) * (len(shape) - 1)
    s = c.sum(k, lambda q: c.at(L, rows(q)))
    c.eq("data of sequence k", c.at(out, s + t, *idx), c.at(X, offsets(c, L, rows(k)) + t, *idx), 0)


@P.unit("ragged by position", secs=100)
def _(c):
    r, X, L, B, n, shape = ragged(c)
    i = c.int("i", None if c.sym else -5, None if c.sym else 5)
    snaps = c.snap(X, L)
    R, err = c.run(lambda: r[i], IndexError)
    c.frame("batch unmodified", snaps)
    inside = c.and_(i < B, -B <= i)
    if err is not None:
        c.check("only positions outside the batch are rejected", c.not_(inside))
        return
    c.check("positions outside the batch are rejected", inside)
    row = c.ite(i < 0, i + B, i)
    check_ragged(c, R, lambda k: row + k, 1, X, L, shape)


@P.unit("ragged by slice", secs=200)
def _(c):
    r, X, L, B, n, shape = ragged(c)
    sl, a, m = ends(c, B)
    snaps = c.snap(X, L)
    R = r[sl]
    c.frame("batch unmodified", snaps)
    check_ragged(c, R, lambda k: a + k, m, X, L, shape)


@P.unit("ragged by index array", secs=200)
def _(c):
    r, X, L, B, n, shape = ragged(c, 2)
    given, rows = few(c, B, 2)
    m = len(rows)
    snaps = c.snap(X, L)
    R = r[c.ivec(given)]
    c.frame("batch unmodified", snaps)

    def row(k):
        x = rows[-1] if m else 0
        for q in range(m):
            x = c.ite(k == q, rows[q], x)
        return x
    check_ragged(c, R, row, m, X, L, shape)


@P.unit("strided slices", sym=False, trials=2)
def _(c):
    r, X, L, B, n, shape = ragged(c)
    step = c.rng.choice([-3, -2, -1, 1, 2, 3])
    pick = lambda: c.rng.choice([None, -4, -3, -2, -1, 0, 1, 2, 3, 5])
    sl = c._log("slice", slice(pick(), pick(), step))
    rows = list(range(B))[sl]
    if rows:
        check_ragged(c, r[sl], rows.__getitem__, len(rows), X, L, shape)
    else:
        c.check("empty selection", len(r[sl].lengths) == 0 and r[sl].dataXd.shape == (0,) + tuple(shape))


@P.unit("strided slices of padded", sym=False, trials=2)
def _(c):
    p, X, S, L, D, T, B, W = padded(c)
    step = c.rng.choice([-3, -2, -1, 1, 2, 3])
    pick = lambda: c.rng.choice([None, -4, -3, -2, -1, 0, 1, 2, 3, 5])
    sl = c._log("slice", slice(pick(), pick(), step))
    rows = sorted(list(range(B))[sl])
    check_padded(c, p[sl], rows.__getitem__, len(rows), X, L, D, T, W)


@P.unit("cumulative positions", secs=60)
def _(c):
    r, X, L, B, n, shape = ragged(c)
    for again in range(2):
        s, e = r._get_starts(), r._get_ends()
        c.eq_build("starts", s, (B,), lambda b: offsets(c, L, b))
        c.eq_build("ends", e, (B,), lambda b: offsets(c, L, b + 1))
    c.check("length", c.len(r) == B)
    c.eq("data kept", r.dataXd, X, 0)
    c.raises("two-dimensional indexing is rejected", IndexError, lambda: r[0, 1])


@P.unit("pairs", secs=60)
def _(c):
    from thinc.types import Pairs
    n = c.dim("n")
    A, B = c.array("A", n, 2), c.array("B", n)
    p = Pairs(A, B)
    c.check("length", c.len(p) == n)
    sl, a, m = ends(c, n)
    q = p[sl]
    c.eq_build("first", q.one, (m, 2), lambda k, j: c.at(A, a + k, j), tol=0)
    c.eq_build("second", q.two, (m,), lambda k: c.at(B, a + k), tol=0)


@P.unit("argument bundles", secs=60)
def _(c):
    """items() and from_items() are inverse"""
    from thinc.types import ArgsKwargs
    na = c.pick("positional", [0, 1, 2, 3])
    names = c.pick("named", [[], ["x"], ["x", "y"], ["y", "x"]])
    vals = [c.opaque("v%d" % k) for k in range(na + len(names))]
    ak = ArgsKwargs(tuple(vals[:na]), dict(zip(names, vals[na:])))
    back = ArgsKwargs.from_items(list(ak.items()))
    c.check("positional arguments", len(back.args) == na and all(x is y for x, y in zip(back.args, ak.args)))
    c.check("named arguments", list(back.kwargs) == names and all(back.kwargs[k] is ak.kwargs[k] for k in names))
    c.check("keys and values", list(zip(ak.keys(), ak.values())) == list(ak.items()) if not c.sym else len(list(ak.keys())) == len(list(ak.values())) == len(vals))
