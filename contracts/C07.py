"""C07: each layer's backward pass is the exact gradient of its forward pass."""
from vc.spec import Property
from contracts.common import attach, lengths, offsets, check_layer, ragged_input

P = Property("C07", explanation=(
    "For each layer the real forward and backward code run on arbitrary parameters, inputs and gradients of symbolic size; the "
    "returned input gradient and the parameter gradients (minus what was accumulated before) are proved equal, cell by cell, to the "
    "vector-Jacobian product obtained by differentiating the forward result symbolically; parameters, inputs, incoming gradient and "
    "the produced output are proved unmodified."),
    assumptions=[
        "layer widths and the number of maxout pieces are at least one",
        "piecewise-linear activations enter through their contract from C06 (backward = gradient * derivative)",
        "softmax output layers take the gradient with respect to the logits (documented convention)",
        "Maxout: derivative of the maximum is the derivative of the selected (first maximal) piece",
        "NumpyOps kernels behave as the base Ops methods (their own contracts are C06, C10, C11, C12)",
    ],
    bounded=["normalize=/dropout= constructor variants are sampled"])


def setup():
    import contracts.C06 as c6
    c6.setup()
    import thinc.backends.ops as O
    from vc import terms as T, tensor as X, engine
    names = {}

    def smooth(name, params):
        key = "act:%s:%s" % (name, ",".join(str(engine.term(p).id) for p in params))
        T._DERIV.setdefault(key, lambda x: T.app(key + "'", x))
        return key

    def fwd(name, nparams):
        def f(self, Xa, *a, inplace=False, **k):
            key = smooth(name, list(a) + [k[x] for x in sorted(k)])
            r = X.ew(lambda c: T.app(key, c), Xa)
            if inplace:
                X.assign(Xa, r)
                return Xa
            return r

        def b(self, dY, Xa, *a, inplace=False, **k):
            key = smooth(name, list(a) + [k[x] for x in sorted(k)])
            r = dY * X.ew(lambda c: T.app(key + "'", c), Xa)
            if inplace:
                X.assign(dY, r)
                return dY
            return r

        setattr(O.Ops, name, f)
        setattr(O.Ops, "backprop_" + name, b)

    for n in ("clipped_linear", "hard_swish", "hard_swish_mobilenet", "mish"):
        fwd(n, 0)
    sig = lambda x: T.app("act:sigmoid", x)
    T._DERIV["act:sigmoid"] = lambda x: T.mul(sig(x), T.sub(T.ONE, sig(x)))

    def sigmoid(self, Xa, *, inplace=False):
        r = X.ew(sig, Xa)
        if inplace:
            X.assign(Xa, r)
            return Xa
        return r

    O.Ops.sigmoid = sigmoid


def dense(name, make, attrs=None, trials=1.0, backs=True):
    @P.unit(name, trials=trials, secs=400)
    def _(c):
        import thinc.api as A
        N, nI, nO = c.dim("N"), c.dim("nI", 1), c.dim("nO", 1)
        c.use_ops()
        m = make(A, c, nO, nI)
        W, b = c.array("W", nO, nI), c.array("b", nO)
        attach(c, m, [(m, "W", W), (m, "b", b)])
        X = c.array("X", N, nI)
        Y, dX, dY, ds = check_layer(c, m, X, lambda y: (N, nO), [(m, "W", W), (m, "b", b)])

        def run(x, w, bb):
            m.set_param("W", w)
            m.set_param("b", bb)
            return m.predict(x)

        c.vjp(name, run, [X, W, b], dY, [dX] + ds)


dense("Linear", lambda A, c, o, i: A.Linear(o, i))
dense("Relu", lambda A, c, o, i: A.Relu(o, i))
dense("Gelu", lambda A, c, o, i: A.Gelu(o, i))
dense("Dish", lambda A, c, o, i: A.Dish(o, i))
dense("Swish", lambda A, c, o, i: A.Swish(o, i))
dense("Mish", lambda A, c, o, i: A.Mish(o, i))
dense("HardSwish", lambda A, c, o, i: A.HardSwish(o, i))
dense("HardSwishMobilenet", lambda A, c, o, i: A.HardSwishMobilenet(o, i))
dense("Sigmoid", lambda A, c, o, i: A.Sigmoid(o, i))
dense("HardSigmoid", lambda A, c, o, i: A.HardSigmoid(o, i))
dense("HardTanh", lambda A, c, o, i: A.HardTanh(o, i))
dense("ReluK", lambda A, c, o, i: A.ReluK(o, i, k=c.real("k", lo=0.5)))


def _cl(A, c, o, i):
    return A.ClippedLinear(o, i, slope=c.real("slope", lo=0.1), offset=c.real("offset"), min_val=c.real("lo", hi=0.0), max_val=c.real("hi", lo=0.0))


dense("ClippedLinear", _cl)


@P.unit("ClippedLinear/values", trials=0.5)
def _(c):
    """the layer hands exactly its configured slope, offset and bounds to the activation"""
    import thinc.api as A
    N, nI, nO = c.dim("N"), c.dim("nI", 1), c.dim("nO", 1)
    c.use_ops()
    s, o, lo, hi = c.real("slope", lo=0.1), c.real("offset"), c.real("lo", hi=0.0), c.real("hi", lo=0.0)
    which = c.pick("which", ["ClippedLinear", "HardSigmoid", "HardTanh", "ReluK"])
    if which == "ClippedLinear":
        m = A.ClippedLinear(nO, nI, slope=s, offset=o, min_val=lo, max_val=hi)
    elif which == "ReluK":
        m = A.ReluK(nO, nI, k=hi)
        s, o, lo = 1.0, 0.0, 0.0
    elif which == "HardSigmoid":
        m = A.HardSigmoid(nO, nI)
        s, o, lo, hi = 0.2, 0.5, 0.0, 1.0
    else:
        m = A.HardTanh(nO, nI)
        s, o, lo, hi = 1.0, 0.0, -1.0, 1.0
    W, b, X = c.array("W", nO, nI), c.array("b", nO), c.array("X", N, nI)
    attach(c, m, [(m, "W", W), (m, "b", b)])
    Y = m.predict(X)
    pre = c.ops.affine(X, W, b)
    c.eq("clipped linear of the affine map", Y, c.ops.clipped_linear(pre, s, o, lo, hi))


# ---------------------------------------------------------------- softmax outputs (gradient of the logits)
def softmax_rows(c, Y, Z, N, nO, name, lo=0, hi=None):
    """Y[:, lo:hi] is the softmax of the logits Z[:, lo:hi]"""
    w = nO if hi is None else hi - lo
    c.eq_build(name, Y[:, lo:lo + w] if hi is not None else Y, (N, w),
               lambda i, j: c.exp(c.at(Z, i, lo + j)) / c.sum(w, lambda k: c.exp(c.at(Z, i, lo + k))))


@P.unit("Softmax")
def _(c):
    import thinc.api as A
    N, nI, nO = c.dim("N"), c.dim("nI", 1), c.dim("nO", 1)
    kind = c.pick("kind", ["v1", "v2", "v2 unnormalized"])
    t = 1.0 if kind == "v1" else c.real("temperature", lo=0.1, hi=10.0)
    if kind == "v1":
        m = A.Softmax(nO, nI)
    else:
        m = A.Softmax_v2(nO, nI, temperature=t, normalize_outputs=kind == "v2")
    W, b, X = c.array("W", nO, nI), c.array("b", nO), c.array("X", N, nI)
    attach(c, m, [(m, "W", W), (m, "b", b)])
    Y, dX, dY, ds = check_layer(c, m, X, None, [(m, "W", W), (m, "b", b)])
    logits = lambda x, w, bb: c.ops.affine(x, w, bb) / t
    c.vjp("Softmax", logits, [X, W, b], dY, [dX] + ds)
    soft = c.ops.softmax(c.ops.affine(X, W, b), temperature=t)
    c.eq("Softmax: training output is the softmax of the logits", Y, soft)
    P2 = m.predict(X)
    c.eq("Softmax: prediction", P2, c.ops.affine(X, W, b) if kind == "v2 unnormalized" else soft)


@P.unit("Softmax/unnormalized has no backward")
def _(c):
    import thinc.api as A
    N, nI, nO = c.dim("N", 1), c.dim("nI", 1), c.dim("nO", 1)
    m = A.Softmax_v2(nO, nI, normalize_outputs=False)
    W, b, X = c.array("W", nO, nI), c.array("b", nO), c.array("X", N, nI)
    attach(c, m, [(m, "W", W), (m, "b", b)])
    Y, back = m(X, is_train=False)
    c.raises("backward of unnormalised outputs is refused", ValueError, lambda: back(Y))
    t = c.real("bad temperature", hi=0.0)
    c.raises("non-positive temperature is refused", ValueError, lambda: A.Softmax_v2(nO, nI, temperature=t))


@P.unit("MultiSoftmax")
def _(c):
    import thinc.api as A
    N, nI = c.dim("N"), c.dim("nI", 1)
    k = c.pick("groups", [1, 2, 3])
    nOs = tuple(c.dim("n%d" % j, 1) for j in range(k))
    nO = 0
    for x in nOs:
        nO = nO + x
    m = A.MultiSoftmax(nOs, nI)
    W, b, X = c.array("W", nO, nI), c.array("b", nO), c.array("X", N, nI)
    attach(c, m, [(m, "W", W), (m, "b", b)])
    Y, dX, dY, ds = check_layer(c, m, X, None, [(m, "W", W), (m, "b", b)])
    c.vjp("MultiSoftmax", lambda x, w, bb: c.ops.affine(x, w, bb), [X, W, b], dY, [dX] + ds)
    Z = c.ops.affine(X, W, b)
    o = 0
    for j, x in enumerate(nOs):
        c.eq("MultiSoftmax group %d" % j, Y[:, o:o + x], c.ops.softmax(Z[:, o:o + x]))
        o = o + x


@P.unit("Maxout", secs=400)
def _(c):
    import thinc.api as A
    N, nI, nO, nP = c.dim("N"), c.dim("nI", 1), c.dim("nO", 1), c.dim("nP", 1)
    m = A.Maxout(nO, nI, nP)
    W, b, X = c.array("W", nO, nP, nI), c.array("b", nO, nP), c.array("X", N, nI)
    attach(c, m, [(m, "W", W), (m, "b", b)])
    Y, dX, dY, ds = check_layer(c, m, X, None, [(m, "W", W), (m, "b", b)])
    c.eq_build("Maxout: value", Y, (N, nO), lambda i, o: c.max(nP, lambda p: c.sum(nI, lambda k: c.at(X, i, k) * c.at(W, o, p, k)) + c.at(b, o, p)))

    def run(x, w, bb):
        m.set_param("W", w)
        m.set_param("b", bb)
        return m.predict(x)

    c.vjp("Maxout", run, [X, W, b], dY, [dX] + ds)


@P.unit("LayerNorm", secs=400)
def _(c):
    import thinc.api as A
    N, nI = c.dim("N"), c.dim("nI", 1)
    m = A.LayerNorm(nI)
    G, b, X = c.array("G", nI), c.array("b", nI), c.array("X", N, nI)
    attach(c, m, [(m, "G", G), (m, "b", b)])
    Y, dX, dY, ds = check_layer(c, m, X, None, [(m, "G", G), (m, "b", b)])

    def run(x, g, bb):
        m.set_param("G", g)
        m.set_param("b", bb)
        return m.predict(x)

    c.vjp("LayerNorm", run, [X, G, b], dY, [dX] + ds)


@P.unit("LayerNorm/value")
def _(c):
    import thinc.api as A
    N, nI = c.dim("N"), c.dim("nI", 1)
    m = A.LayerNorm(nI)
    G, b, X = c.array("G", nI), c.array("b", nI), c.array("X", N, nI)
    attach(c, m, [(m, "G", G), (m, "b", b)])
    Y = m.predict(X)
    mu = lambda i: c.sum(nI, lambda k: c.at(X, i, k)) / nI
    var = lambda i: c.sum(nI, lambda k: (c.at(X, i, k) - mu(i)) * (c.at(X, i, k) - mu(i))) / nI + 1e-8
    c.eq_build("normalised, scaled and shifted", Y, (N, nI), lambda i, j: c.at(G, j) * (c.at(X, i, j) - mu(i)) / c.sqrt(var(i)) + c.at(b, j))


# ---------------------------------------------------------------- dropout
@P.unit("Dropout mask", trials=0.5)
def _(c):
    N, M = c.dim("N"), c.dim("M")
    ops = c.use_ops()
    r = c.pick("rate kind", ["none", "zero or less", "inside", "one or more"])
    if r == "none":
        rate = None
    else:
        rate = {"zero or less": lambda: c.real("rate", hi=0.0), "inside": lambda: c.real("rate", lo=0.05, hi=0.95),
                "one or more": lambda: c.real("rate", lo=1.0)}[r]()
    mask = ops.get_dropout_mask((N, M), rate)
    i, j = c.int("i", 0), c.int("j", 0)
    c.assume(c.and_(i < N, j < M))
    v = c.at(mask, i, j)
    if r in ("none", "zero or less"):
        c.eq("no dropout keeps everything", v, 1.0)
    elif r == "one or more":
        c.eq("full dropout zeroes everything", v, 0.0)
    elif c.sym:
        c.check("kept cells are scaled by 1/(1-rate), others are zero", c.or_(v == 0, v * (1 - rate) == 1))
    else:
        c.check("kept cells are scaled by 1/(1-rate), others are zero", v == 0 or abs(v * (1 - rate) - 1) < 1e-5)
    c.check("shape", c.and_(mask.shape[0] == N, mask.shape[1] == M))


def masked(c, X, Y, dY, dX, tag):
    """Y = X * mask and dX = dY * mask for one and the same mask: X*dX == Y*dY cell by cell"""
    c.vjp(tag, None, [X], dY, [dX], Y=Y) if c.sym else c.eq(tag, X * dX, Y * dY)


@P.unit("Dropout")
def _(c):
    import thinc.api as A
    from thinc.types import Ragged, Padded
    rate = c.real("rate", lo=0.1, hi=0.9)
    kind = c.pick("kind", ["array", "ragged", "padded", "list"])
    m = A.Dropout(rate)
    attach(c, m)
    train = c.flag("train")
    enabled = c.flag("enabled")
    m.attrs["is_enabled"] = enabled
    if kind == "array":
        X = c.array("X", c.dim("N"), c.dim("M"))
        xin, get, mk = X, (lambda y: y), (lambda d, y: d)
    elif kind == "ragged":
        xin, X, L, B, n = ragged_input(c)
        get, mk = (lambda y: y.data), (lambda d, y: Ragged(d, y.lengths))
    elif kind == "padded":
        X = c.array("X", c.dim("T"), c.dim("B"), c.dim("W"))
        xin = Padded(X, c.array("size_at_t", X.shape[0], dtype="int32"), c.array("lens", X.shape[1], dtype="int32"), c.array("ind", X.shape[1], dtype="int32"))
        get, mk = (lambda y: y.data), (lambda d, y: Padded(d, y.size_at_t, y.lengths, y.indices))
    else:
        n = c.dim("n")
        W = c.dim("W")
        xin = c.lst("Xs", n, lambda i: c.farray("Xs", i, c.fint("len", i, 0), W))
        snaps = c.snap(xin)
        Y, back = m(xin, is_train=train)
        dYs = c.lst("dYs", n, lambda i: c.farray("dYs", i, c.fint("len", i, 0), W))
        ds = c.snap(dYs)
        dXs = back(dYs)
        c.frame("inputs unmodified", snaps + ds)
        if not (train and enabled):
            c.eq("identity when not training", Y, xin)
            c.eq("identity gradient when not training", dXs, dYs)
            return
        c.check("one output per input", c.and_(c.len(Y) == n, c.len(dXs) == n))
        i = c.int("i", 0)
        c.assume(i < n)
        c.eq("Dropout list: one mask for both passes", xin[i] * dXs[i], Y[i] * dYs[i])
        return
    snaps = c.snap(xin)
    Y, back = m(xin, is_train=train)
    dY = c.array("dY", *X.shape)
    dYo = mk(dY, Y)
    ds = c.snap(dYo)
    dXo = back(dYo)
    c.frame("inputs unmodified", snaps + ds)
    if not (train and enabled):
        c.eq("identity when not training", Y, xin)
        c.eq("identity gradient when not training", dXo, dYo)
        return
    masked(c, X, get(Y), dY, get(dXo), "Dropout %s" % kind)
    if kind == "ragged":
        c.eq("lengths kept", Y.lengths, xin.lengths)
        c.eq("lengths kept in the gradient", dXo.lengths, xin.lengths)
    if kind == "padded":
        for f in ("size_at_t", "lengths", "indices"):
            c.eq("%s kept" % f, getattr(Y, f), getattr(xin, f))
            c.eq("%s kept in the gradient" % f, getattr(dXo, f), getattr(xin, f))


# ---------------------------------------------------------------- embeddings, similarity, attention, indexing
@P.unit("Embed")
def _(c):
    import thinc.api as A
    import numpy
    N, nO, nV = c.dim("N"), c.dim("nO", 1), c.dim("nV", 1)
    col = c.pick("column", [False, True])
    drop = c.pick("dropout", [None, 0.25])
    if col:
        c.assume(N > 0)  # known finding: empty batch with a column
        K = c.dim("K", 1)
        k = c.int("column index", 0)
        c.assume(k < K)
        m = A.Embed(nO, nV, column=k, dropout=drop)
        node = m.layers[1]
        X = c.array("X", N, K, dtype="int32", lo=0, hi=nV)
        ids = lambda i: c.at(X, i, k)
    else:
        m = node = A.Embed(nO, nV, dropout=drop)
        X = c.array("X", N, dtype="int32", lo=0, hi=nV)
        ids = lambda i: c.at(X, i)
    E = c.array("E", nV, nO)
    attach(c, m, [(node, "E", E)])
    train = c.flag("train")
    Y, dX, dY, ds = check_layer(c, m, X, None, [(node, "E", E)], is_train=train, seed=11)
    if drop is None or not train:
        c.eq_build("Embed: rows of the table", Y, (N, nO), lambda i, j: c.at(E, ids(i), j))

    def run(e):
        node.set_param("E", e)
        numpy.random.seed(11)
        return m(X, is_train=train)[0]

    c.vjp("Embed", run, [E], dY, ds, **({"Y": Y} if c.sym else {}))


@P.unit("CauchySimilarity")
def _(c):
    import thinc.api as A
    N, nI = c.dim("N"), c.dim("nI", 1)
    m = A.CauchySimilarity(nI)
    W = c.array("W", nI, lo=0.0, hi=2.0)
    X1, X2 = c.array("X1", N, nI), c.array("X2", N, nI)
    attach(c, m, [(m, "W", W)])
    Y, dX, dY, ds = check_layer(c, m, (X1, X2), None, [(m, "W", W)])
    c.eq_build("Cauchy similarity", Y, (N,), lambda i: 1 / (1 + c.sum(nI, lambda k: c.at(W, k) * (c.at(X1, i, k) - c.at(X2, i, k)) * (c.at(X1, i, k) - c.at(X2, i, k)))))

    def run(a, b, w):
        m.set_param("W", w)
        return m.predict((a, b))

    c.vjp("CauchySimilarity", run, [X1, X2, W], dY, [dX[0], dX[1]] + ds)


@P.unit("activations", trials=0.7)
def _(c):
    import thinc.api as A
    N, M = c.dim("N"), c.dim("M", 1)
    which = c.pick("layer", ["sigmoid_activation", "Logistic", "softmax_activation"])
    m = getattr(A, which)()
    X = c.array("X", N, M, lo=-15.0, hi=15.0)
    attach(c, m)
    Y, dX, dY, ds = check_layer(c, m, X, None, [])
    c.eq(which + " value", Y, c.ops.softmax(X) if which == "softmax_activation" else c.ops.sigmoid(X))
    c.vjp(which, lambda x: m.predict(x), [X], dY, [dX])


@P.unit("getitem layers")
def _(c):
    import thinc.api as A
    from thinc.layers.array_getitem import array_getitem, floats_getitem, ints_getitem
    N, M = c.dim("N"), c.dim("M", 1)
    f = c.pick("layer", [array_getitem, floats_getitem, ints_getitem])
    kind = c.pick("index", ["column", "row slice", "column slice"])
    X = c.array("X", N, M, dtype="int32" if f is ints_getitem else "float32")
    if kind == "column":
        j = c.int("j", 0)
        c.assume(j < M)
        index = (slice(0, None), j)
    elif kind == "row slice":
        a, b = c.int("a", 0), c.int("b", 0)
        c.assume(c.and_(a <= b, b <= N))
        index = slice(a, b)
    else:
        a, b = c.int("a", 0), c.int("b", 0)
        c.assume(c.and_(a <= b, b <= M))
        index = (slice(None), slice(a, b))
    m = f(index)
    c.assume(N > 0)
    attach(c, m)
    s = c.snap(X)
    Y, back = m(X, is_train=True)
    dY = c.array("dY", *((N,) if kind == "column" else (b - a, M) if kind == "row slice" else (N, b - a)), dtype=X.dtype)
    dX = back(dY)
    c.frame("input unmodified", s)
    if kind == "column":
        c.eq_build("selected column", Y, (N,), lambda i: c.at(X, i, j))
        c.eq_build("gradient goes back to that column", dX, (N, M), lambda i, q: c.ite(q == j, c.at(dY, i), 0))
    elif kind == "row slice":
        c.eq_build("selected rows", Y, (b - a, M), lambda i, q: c.at(X, a + i, q))
        c.check("shape", c.and_(dX.shape[0] == N, dX.shape[1] == M))
        i, q = c.int("i", 0), c.int("q", 0)
        c.assume(c.and_(i < N, q < M))
        if c.under(c.and_(a <= i, i < b)):
            c.eq("gradient of a selected row", c.at(dX, i, q), c.at(dY, i - a, q))
        else:
            c.eq("gradient of another row", c.at(dX, i, q), 0)
    else:
        c.eq_build("selected columns", Y, (N, b - a), lambda i, q: c.at(X, i, a + q))
        i, q = c.int("i", 0), c.int("q", 0)
        c.assume(c.and_(i < N, q < M))
        if c.under(c.and_(a <= q, q < b)):
            c.eq("gradient of a selected column", c.at(dX, i, q), c.at(dY, i, q - a))
        else:
            c.eq("gradient of another column", c.at(dX, i, q), 0)


@P.unit("ParametricAttention")
def _(c):
    """checked against the contracts of its parts (C06: softmax over sequences and its backward; the key transform is
    any layer: Linear or identity): keys K = transform(X), logits K @ Q, weights A = softmax over each sequence, output
    A * X; backward: the weights' gradient is the row sum of X * dY, and the gradients of Q, X and the transform are the
    vector-Jacobian products of the logits for the gradient the softmax returns, plus A * dY for X."""
    import thinc.api as A
    from thinc.types import Ragged
    v2 = c.flag("v2")
    Xr, X, L, B, n = ragged_input(c, lo=1)
    W = X.shape[1]
    kt = A.Linear(W, W) if v2 and c.flag("key transform") else None
    m = (A.ParametricAttention_v2(nO=W, **({"key_transform": kt} if kt else {})) if v2 else A.ParametricAttention(nO=W))
    Q = c.array("Q", W)
    ps = [(m, "Q", Q)]
    KW = Kb = None
    if kt:
        KW, Kb = c.array("KW", W, W), c.array("Kb", W)
        ps += [(kt, "W", KW), (kt, "b", Kb)]
    attach(c, m, ps)
    K = lambda x, w=KW, b=Kb: c.ops.affine(x, w, b) if kt else x
    calls = {}
    real_f, real_b = c.ops.softmax_sequences, c.ops.backprop_softmax_sequences

    def fwd(Z, lengths, *a, **k):
        calls["Z"], calls["L"], calls["extra"] = c.value(Z), lengths, (a, k)
        calls["A"] = c.array("attention", n, 1) if c.sym else real_f(Z, lengths)
        return calls["A"]

    def bwd(dA, A_, lengths):
        calls["dA"], calls["bA"], calls["bL"] = c.value(dA), c.value(A_), lengths
        calls["dZ"] = c.array("dZ", n, 1) if c.sym else real_b(dA, A_, lengths)
        return calls["dZ"]

    ops = c.ops
    ops.softmax_sequences, ops.backprop_softmax_sequences = fwd, bwd
    try:
        Y, dX, dY, ds = check_layer(c, m, Xr, None, ps, out=lambda y: y.data, wrap=lambda d, y: Ragged(d, y.lengths))
    finally:
        del ops.softmax_sequences, ops.backprop_softmax_sequences
    c.eq("lengths kept", Y.lengths, L)
    c.eq("lengths kept in the gradient", dX.lengths, L)
    c.check("softmax called with its default arguments", calls["extra"] == ((), {}))
    for k in ("L", "bL"):
        c.eq("softmax over the batch's sequences", calls[k], L)
    At, dZ = calls["A"], calls["dZ"]
    logits = lambda x, q, *kp: (K(x, *kp) @ q).reshape((-1, 1))
    c.eq("logits are keys times query", calls["Z"], logits(X, Q))
    c.eq("output is the weighted input", Y.data, X * At)
    c.eq("gradient of the weights", calls["dA"], (X * dY).sum(axis=1, keepdims=True))
    c.eq("softmax backward gets the weights", calls["bA"], At)
    c.vjp("ParametricAttention", logits, [X, Q] + ([KW, Kb] if kt else []), dZ, [dX.data - dY * At] + ds)


@P.finding("empty-column")
def _(c):
    import thinc.api as A
    import numpy
    m = A.Embed(4, 10, column=0)
    m.initialize()
    return m.predict(numpy.zeros((0, 3), dtype="int32")).shape != (0, 4)


@P.finding("repeated-index")
def _(c):
    import thinc.api as A
    import numpy
    from thinc.layers.array_getitem import floats_getitem
    m = floats_getitem([0, 0])
    Y, back = m(numpy.ones((2, 3), dtype="f"), is_train=True)
    return not (back(numpy.ones((2, 3), dtype="f"))[0] == 2).all()
