"""C08: combinators compose forward passes and route gradients back exactly."""
from vc.spec import Property
from contracts.common import lengths, ragged_input

P = Property("C08", explanation=(
    "Inner layers are arbitrary: uninterpreted forward and backward functions, or layers returning arbitrary arrays and recording "
    "what they are handed, or the identity.  For chain, add, tuplify and map_list the number of parts (list items) is symbolic and the "
    "composition is proved by induction-free closed forms of the loops; the array combinators are proved for arbitrary array sizes and "
    "values, with the gradient each part receives, the sum returned, and frame conditions on the caller's arrays and on every array a "
    "part has seen or produced."),
    assumptions=["inner layers leave their own arguments unmodified (C07 proves this for the library's layers)",
                 "widths are at least one; ragged batches have at least one row"],
    bounded=["with_flatten: random evaluation only", "concatenate, residual, add on arrays: 2 to 4 parts (array sizes and values unbounded); clone: 0 to 4 copies"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


class Part:
    """an arbitrary layer on abstract values: forward F_k, backward B_k, both may depend on the train flag"""
    name = "part"

    def __init__(self, c, k):
        self.c, self.k = c, k

    def __call__(self, X, is_train):
        c, k, fl = self.c, self.k, 1 if is_train else 0

        def back(dY):
            return c.app("B", k, fl, X, dY)

        return c.app("F", k, fl, X), back

    def has_dim(self, name):
        return False


def combined(c, make, n):
    """the combinator with n arbitrary parts in place of its layers"""
    from thinc.model import Model
    c.use_ops()
    stub = lambda: Model("stub", lambda model, X, is_train: (X, lambda dY: dY))
    m = make(stub(), stub())
    m._layers = c.lst("layers", n, lambda k: Part(c, k))
    return m


@P.unit("chain/any number of layers")
def _(c):
    import thinc.api as A
    n, train = c.int("n", 1), c.flag("train")
    m = combined(c, A.chain, n)
    fl = 1 if train else 0
    x, dy = c.real("X"), c.real("dY")
    Y, back = m(x, is_train=train)
    F = lambda s, k: c.app("F", k, fl, s)
    inp = lambda j: c.iterate(j, x, F)
    c.eq("composition of the layers in order", Y, F(inp(n - 1), n - 1))
    B = lambda s, k: c.app("B", n - 1 - k, fl, inp(n - 1 - k), s)
    dX = back(dy)
    c.eq("backward callbacks composed in reverse", dX, B(c.iterate(n - 1, dy, B), n - 1))


@P.unit("add/any number of layers")
def _(c):
    import thinc.api as A
    n, train = c.int("n", 1), c.flag("train")
    m = combined(c, A.add, n)
    fl = 1 if train else 0
    x, dy = c.real("X"), c.real("dY")
    Y, back = m(x, is_train=train)
    c.eq("sum of the layers", Y, c.sum(n, lambda k: c.app("F", k, fl, x)))
    c.eq("sum of the gradients", back(dy), c.sum(n, lambda k: c.app("B", k, fl, x, dy)))


@P.unit("tuplify/any number of layers")
def _(c):
    import thinc.api as A
    n, train = c.int("n", 1), c.flag("train")
    m = combined(c, A.tuplify, n)
    fl = 1 if train else 0
    x = c.real("X")
    Y, back = m(x, is_train=train)
    c.check("one output per layer", c.len(Y) == n)
    k = c.int("k", 0)
    c.assume(k < n)
    c.eq("output of each layer", Y[k], c.app("F", k, fl, x))
    dys = c.lst("dYs", n, lambda i: c.app("dY", i))
    c.eq("each layer gets its own gradient", back(dys), c.sum(n, lambda i: c.app("B", i, fl, x, c.app("dY", i))))


@P.unit("map_list/any list")
def _(c):
    from thinc.layers.map_list import map_list
    from thinc.model import Model
    n, train = c.int("n", 0), c.flag("train")
    m = map_list(Model("stub", lambda model, X, is_train: (X, lambda dY: dY)))
    m._layers = [Part(c, 0)]
    fl = 1 if train else 0
    xs = c.lst("Xs", n, lambda i: c.app("X", i))
    Y, back = m(xs, is_train=train)
    c.check("one output per item", c.len(Y) == n)
    dX = back(c.lst("dYs", n, lambda i: c.app("dY", i)))
    c.check("one gradient per item", c.len(dX) == n)
    k = c.int("k", 0)
    c.assume(k < n)
    c.eq("each item mapped", Y[k], c.app("F", 0, fl, c.app("X", k)))
    c.eq("each gradient mapped with its own callback", dX[k], c.app("B", 0, fl, c.app("X", k), c.app("dY", k)))


@P.unit("siamese")
def _(c):
    import thinc.api as A
    from thinc.model import Model
    train = c.flag("train")
    fl = 1 if train else 0
    c.use_ops()
    stub = lambda: Model("stub", lambda model, X, is_train: (X, lambda dY: dY), dims={"nI": 1, "nO": 1})
    m = A.siamese(stub(), stub())

    def sim(xs, is_train):
        f = 1 if is_train else 0
        return c.app("S", f, *xs), lambda d: (c.app("S1", f, d, *xs), c.app("S2", f, d, *xs))

    m._layers = [Part(c, 0), sim]
    a, b, d = c.real("X1"), c.real("X2"), c.real("dY")
    Y, back = m((a, b), is_train=train)
    fa, fb = c.app("F", 0, fl, a), c.app("F", 0, fl, b)
    c.eq("similarity of the two encodings", Y, c.app("S", fl, fa, fb))
    da, db = back(d)
    c.eq("gradient of the first input", da, c.app("B", 0, fl, a, c.app("S1", fl, d, fa, fb)))
    c.eq("gradient of the second input", db, c.app("B", 0, fl, b, c.app("S2", fl, d, fa, fb)))


# ------------------------------------------------------------------ array combinators
class Probe:
    """arbitrary layer on arrays; mode 'any' returns fresh arrays, 'same' returns its input and gradient unchanged.
    get/put access the array inside the container the combinator hands over."""

    def __init__(self, c, k, mode, out, grad):
        self.c, self.k, self.mode, self.out, self.grad = c, k, mode, out, grad
        self.snaps = []

    def model(self):
        from thinc.model import Model
        return Model("probe%d" % self.k, self.forward)

    def forward(self, model, X, is_train):
        c = self.c
        self.X, self.train = X, is_train
        self.snaps += c.snap(X)
        Y = X if self.mode == "same" else self.out(self.k, X)
        self.Y = Y
        self.snaps += c.snap(Y)

        def back(dY):
            c.frame("part %d: nothing it saw or produced was altered before its backward pass" % self.k, self.snaps)
            self.dY = dY
            self.snaps += c.snap(dY)
            dX = dY if self.mode == "same" else self.grad(self.k, self.X)
            self.dX = dX
            return dX

        return Y, back


def family(c, kind):
    """(input X, fresh-output function, fresh-gradient function, data(x, i) accessor, wrap)"""
    from thinc.types import Ragged, Padded
    if kind == "array":
        N, W = c.dim("N"), c.dim("W", 1)
        X = c.array("X", N, W)
        like = lambda x, name, w=None: c.array(name, x.shape[0], x.shape[1] if w is None else w)
        return X, like, lambda x: x
    if kind == "ragged":
        X, D, L, B, n = ragged_input(c)
        like = lambda x, name, w=None: Ragged(c.array(name, x.data.shape[0], x.data.shape[1] if w is None else w), x.lengths)
        return X, like, lambda x: x.data
    if kind == "padded":
        T_, B, W = c.dim("T"), c.dim("B"), c.dim("W", 1)
        aux = (c.array("size_at_t", T_, dtype="int32"), c.array("lengths", B, dtype="int32"), c.array("indices", B, dtype="int32"))
        X = Padded(c.array("X", T_, B, W), *aux)
        like = lambda x, name, w=None: Padded(c.array(name, x.data.shape[0], x.data.shape[1], x.data.shape[2] if w is None else w), x.size_at_t, x.lengths, x.indices)
        return X, like, lambda x: x.data
    n, W = c.dim("n", 1), c.dim("W", 1)
    ln = lambda i: c.fint("len", i, 0)
    X = c.lst("Xs", n, lambda i: c.farray("Xs", i, ln(i), W))
    like = lambda x, name, w=None: c.lst(name, n, lambda i: c.farray(name, i, ln(i), W if w is None else w))
    return X, like, None


def same_batch(c, name, kind, a, b):
    """a and b have the same layout information"""
    if kind == "ragged":
        c.eq(name + ": lengths", a.lengths, b.lengths)
    if kind == "padded":
        for f in ("size_at_t", "lengths", "indices"):
            c.eq(name + ": " + f, getattr(a, f), getattr(b, f))


@P.unit("add/arrays", secs=300)
def _(c):
    import thinc.api as A
    c.use_ops()
    X, like, data = family(c, "array")
    k = c.pick("parts", [2, 3, 4])
    train = c.flag("train")
    wid = c.dim("nO", 1)
    same = c.pick("identity part", [None] + list(range(k)))
    w = None if same is not None else wid
    ps = [Probe(c, i, "same" if i == same else "any", lambda i, x: like(x, "Y%d" % i, w), lambda i, x: like(x, "dX%d" % i)) for i in range(k)]
    m = A.add(*[p.model() for p in ps])
    s = c.snap(X)
    Y, back = m(X, is_train=train)
    dY = like(X, "dY", w)
    ds = c.snap(dY)
    tot = ps[0].Y
    for p in ps[1:]:
        tot = tot + p.Y
    c.eq("sum of the parts", Y, tot)
    dX = back(dY)
    c.frame("caller's input unmodified", s)
    c.frame("caller's gradient unmodified", ds)
    tot = ps[0].dX
    for p in ps[1:]:
        tot = tot + p.dX
    c.eq("sum of the gradients", dX, tot)
    for p in ps:
        c.check("train flag passed on", p.train == train)
        c.eq("every part gets the input", p.X, X)
        c.eq("every part gets the gradient", p.dY, dY)
        c.frame("part %d arrays unaltered afterwards" % p.k, p.snaps)


@P.unit("tuplify/arrays", secs=300)
def _(c):
    import thinc.api as A
    c.use_ops()
    X, like, data = family(c, "array")
    k = c.pick("parts", [2, 3])
    train = c.flag("train")
    same = c.pick("identity parts", [(), (0,), (1,), (0, 1)])
    ps = [Probe(c, i, "same" if i in same else "any", lambda i, x: like(x, "Y%d" % i), lambda i, x: like(x, "dX%d" % i)) for i in range(k)]
    m = A.tuplify(*[p.model() for p in ps])
    s = c.snap(X)
    Y, back = m(X, is_train=train)
    dYs = tuple(like(X, "dY%d" % i) for i in range(k))
    ds = c.snap(dYs)
    for y, p in zip(Y, ps):
        c.eq("output of each part", y, p.Y)
    dX = back(dYs)
    c.frame("caller's input unmodified", s)
    c.frame("caller's gradients unmodified", ds)
    tot = ps[0].dX
    for p in ps[1:]:
        tot = tot + p.dX
    c.eq("sum of the gradients", dX, tot)
    for p, d in zip(ps, dYs):
        c.check("train flag passed on", p.train == train)
        c.eq("every part gets the input", p.X, X)
        c.eq("every part gets its own gradient", p.dY, d)
        c.frame("part %d arrays unaltered afterwards" % p.k, p.snaps)


def concat_unit(c, kind, k):
    import thinc.api as A
    c.use_ops()
    X, like, data = family(c, kind)
    train = True if (kind, k) == ("list", 3) else c.flag("train")
    same = c.pick("identity part", [None, 1] if (kind, k) == ("list", 3) else [None] + list(range(k)))
    W0 = X.shape[1] if kind == "array" else X.data.shape[1] if kind == "ragged" else c.drawn["W"] if not c.sym else None
    ws = [c.dim("w%d" % i, 1) for i in range(k)]
    ps = [Probe(c, i, "same" if i == same else "any", lambda i, x: like(x, "Y%d" % i, ws[i]), lambda i, x: like(x, "dX%d" % i)) for i in range(k)]
    m = A.concatenate(*[p.model() for p in ps])
    s = c.snap(X)
    Y, back = m(X, is_train=train)
    if kind == "list":
        i = c.int("i", 0)
        c.assume(i < c.len(X))
        c.check("one output per sequence", c.len(Y) == c.len(X))
        pick = lambda v: v[i]
        W0 = pick(X).shape[1]
    else:
        pick = data
    widths = [W0 if j == same else ws[j] for j in range(k)]
    tot = 0
    for w in widths:
        tot = tot + w
    dY = like(X, "dY", tot)
    ds = c.snap(dY)
    o = 0
    c.check("total width", pick(Y).shape[1] == tot)
    for p, w in zip(ps, widths):
        c.eq("columns of part %d" % p.k, pick(Y)[:, o:o + w], pick(p.Y))
        o = o + w
    if kind == "ragged":
        c.eq("lengths kept", Y.lengths, X.lengths)
    dX = back(dY)
    c.frame("caller's input unmodified", s)
    c.frame("caller's gradient unmodified", ds)
    o = 0
    for p, w in zip(ps, widths):
        c.check("train flag passed on", p.train == train)
        c.eq("every part gets the input", pick(p.X), pick(X))
        c.eq("part %d gets its columns of the gradient" % p.k, pick(p.dY), pick(dY)[:, o:o + w])
        c.frame("part %d arrays unaltered afterwards" % p.k, p.snaps)
        o = o + w
    if kind == "list":
        c.check("one gradient per sequence", c.len(dX) == c.len(X))
    t = pick(ps[0].dX)
    for p in ps[1:]:
        t = t + pick(p.dX)
    c.eq("sum of the gradients", pick(dX), t)
    if kind == "ragged":
        c.eq("lengths kept in the gradient", dX.lengths, X.lengths)


for _kind in ("array", "ragged", "list"):
    for _k in (2, 3):
        P.unit("concatenate/%s/%d" % (_kind, _k), secs=400)(lambda c, kind=_kind, k=_k: concat_unit(c, kind, k))


@P.unit("residual", secs=300)
def _(c):
    import thinc.api as A
    c.use_ops()
    kind = c.pick("kind", ["array", "ragged", "padded", "list"])
    X, like, data = family(c, kind)
    train = c.flag("train")
    p = Probe(c, 0, c.pick("part", ["any", "same"]), lambda i, x: like(x, "Y0"), lambda i, x: like(x, "dX0"))
    m = A.residual(p.model())
    s = c.snap(X)
    Y, back = m(X, is_train=train)
    dY = like(X, "dY")
    ds = c.snap(dY)
    dX = back(dY)
    c.frame("caller's input unmodified", s)
    c.frame("caller's gradient unmodified", ds)
    c.frame("part's arrays unaltered", p.snaps)
    c.check("train flag passed on", p.train == train)
    if kind == "list":
        i = c.int("i", 0)
        c.assume(i < c.len(X))
        c.check("one output per sequence", c.and_(c.len(Y) == c.len(X), c.len(dX) == c.len(X)))
        data = lambda v: v[i]
    c.eq("input plus layer output", data(Y), data(X) + data(p.Y))
    c.eq("gradient plus layer gradient", data(dX), data(dY) + data(p.dX))
    c.eq("part gets the input", data(p.X), data(X))
    c.eq("part gets the gradient", data(p.dY), data(dY))
    same_batch(c, "output", kind, Y, X)
    same_batch(c, "gradient", kind, dX, X)


@P.unit("with_reshape")
def _(c):
    import thinc.api as A
    from thinc.layers.with_reshape import with_reshape
    from thinc.model import Model
    c.use_ops()
    B, T_, nI, nO = c.dim("B"), c.dim("T"), c.dim("nI", 1), c.dim("nO", 1)
    X = c.array("X", B, T_, nI)
    p = Probe(c, 0, "any", lambda i, x: c.array("Y0", x.shape[0], nO), lambda i, x: c.array("dX0", x.shape[0], nI))
    inner = Model("probe", p.forward, dims={"nO": nO, "nI": nI})
    m = with_reshape(inner)
    s = c.snap(X)
    Y, back = m(X, is_train=True)
    dY = c.array("dY", B, T_, nO)
    ds = c.snap(dY)
    dX = back(dY)
    c.frame("caller's arrays unmodified", s + ds)
    c.eq("layer sees the rows of the input", p.X, X.reshape((B * T_, nI)))
    c.eq("rows of the output", Y, p.Y.reshape((B, T_, nO)))
    c.eq("layer sees the rows of the gradient", p.dY, dY.reshape((B * T_, nO)))
    c.eq("rows of the input gradient", dX, p.dX.reshape((B, T_, nI)))


@P.unit("with_flatten_v2", sym=False)
def _(c):
    from thinc.layers.with_flatten_v2 import with_flatten_v2
    from thinc.model import Model
    c.use_ops()
    n = c.int("n", 0)
    ln = lambda i: c.fint("len", i, 0)
    nest = c.lst("X", n, lambda i: c.lst("x", ln(i), lambda j: c.app("X", i, j)))
    rec = {}

    def forward(model, X, is_train):
        rec["X"] = X
        Y = [c.app("F", x) for x in X]

        def back(dY):
            return [c.app("B", x, dy) for x, dy in zip(X, dY)]

        return Y, back

    m = with_flatten_v2(Model("items", forward))
    Y, back = m(nest, is_train=True)
    dX = back(c.lst("dY", n, lambda i: c.lst("dy", ln(i), lambda j: c.app("dY", i, j))))
    c.check("one output list per input list", c.and_(c.len(Y) == n, c.len(dX) == n))
    i, j = c.int("i", 0), c.int("j", 0)
    c.assume(i < n)
    c.check("same number of items", c.and_(c.len(Y[i]) == ln(i), c.len(dX[i]) == ln(i)))
    c.assume(j < ln(i))
    c.eq("items in place", Y[i][j], c.app("F", c.app("X", i, j)))
    c.eq("gradients in place", dX[i][j], c.app("B", c.app("X", i, j), c.app("dY", i, j)))


@P.unit("bidirectional")
def _(c):
    import thinc.api as A
    c.use_ops()
    X, like, data = family(c, "padded")
    h = c.dim("h", 1)
    ps = [Probe(c, i, "any", lambda i, x: like(x, "Y%d" % i, h), lambda i, x: like(x, "dX%d" % i)) for i in range(2)]
    m = A.bidirectional(ps[0].model(), ps[1].model())
    s = c.snap(X)
    Y, back = m(X, is_train=True)
    dY = like(X, "dY", 2 * h)
    ds = c.snap(dY)
    dX = back(dY)
    c.frame("caller's arrays unmodified", s + ds)
    c.eq("first half is the forward layer", Y.data[:, :, :h], ps[0].Y.data)
    c.eq("second half is the backward layer", Y.data[:, :, h:], ps[1].Y.data)
    c.eq("forward layer gets the first half of the gradient", ps[0].dY.data, dY.data[:, :, :h])
    c.eq("backward layer gets the second half of the gradient", ps[1].dY.data, dY.data[:, :, h:])
    c.eq("gradients summed", dX.data, ps[0].dX.data + ps[1].dX.data)
    same_batch(c, "output", "padded", Y, X)
    same_batch(c, "gradient", "padded", dX, X)


@P.unit("noop and wrappers")
def _(c):
    import thinc.api as A
    from thinc.model import Model
    from thinc.layers.with_debug import with_debug
    c.use_ops()
    train = c.flag("train")
    fl = 1 if train else 0
    x, dy = c.real("X"), c.real("dY")
    which = c.pick("layer", ["noop", "with_debug", "concatenate of none", "concatenate of one", "clone none", "clone one"])
    inner = Model("inner", lambda model, X, is_train: (c.app("F", 1 if is_train else 0, X), lambda d: c.app("B", 1 if is_train else 0, X, d)))
    seen = []
    if which == "noop":
        m = A.noop(inner)
    elif which == "with_debug":
        m = with_debug(inner, on_forward=lambda mm, X, t: seen.append(("f", mm, X, t)), on_backprop=lambda d: seen.append(("b", d)))
    elif which == "concatenate of none":
        m = A.concatenate()
    elif which == "concatenate of one":
        m = A.concatenate(inner)
    elif which == "clone none":
        m = A.clone(inner, 0)
    else:
        m = A.clone(inner, 1)
    Y, back = m(x, is_train=train)
    dX = back(dy)
    if which in ("noop", "concatenate of none", "clone none"):
        c.eq("identity", Y, x, 0)
        c.eq("identity gradient", dX, dy, 0)
    else:
        c.eq("the layer's output", Y, c.app("F", fl, x))
        c.eq("the layer's gradient", dX, c.app("B", fl, x, dy))
    if which == "with_debug":
        c.check("callbacks saw the arguments", len(seen) == 2)
        c.eq("forward argument", seen[0][2], x, 0)
        c.check("train flag", seen[0][3] == train and seen[0][1] is m)
        c.eq("backward argument", seen[1][1], dy, 0)


@P.unit("clone")
def _(c):
    """clone(f, n) is f applied n times, each copy with its own parameters"""
    import thinc.api as A
    c.use_ops()
    n = c.pick("n", [2, 3, 4])
    W = c.dim("W", 1)
    N = c.dim("N")
    orig = A.Linear(W, W)
    m = A.clone(orig, n)
    c.check("n layers", len(m.layers) == n)
    nodes = list(m.layers)
    c.check("distinct layers", len({id(x) for x in nodes}) == n and len({x.id for x in nodes}) == n)
    ops = c.ops
    for x in m.walk():
        x.ops = ops
    Ws = [c.array("W%d" % i, W, W) for i in range(n)]
    bs = [c.array("b%d" % i, W) for i in range(n)]
    for x, w, b in zip(nodes, Ws, bs):
        x.set_param("W", w)
        x.set_param("b", b)
    for x, w, b in zip(nodes, Ws, bs):
        c.eq("parameters are distinct", x.get_param("W"), w, 0)
        c.eq("parameters are distinct", x.get_param("b"), b, 0)
    X = c.array("X", N, W)
    Y = m.predict(X)
    for w, b in zip(Ws, bs):
        X = ops.affine(X, w, b)
    c.eq("applied in order", Y, X)


@P.finding("bidirectional-reverse")
def _(c):
    """the right-to-left layer is handed the sequence in its original order"""
    import numpy
    import thinc.api as A
    from thinc.model import Model
    from thinc.types import Padded
    seen = []
    fwd = lambda model, X, is_train: (seen.append(X.data.copy()) or X, lambda d: d)
    m = A.bidirectional(Model("a", fwd), Model("b", fwd))
    X = Padded(numpy.arange(3, dtype="f").reshape((3, 1, 1)), numpy.ones(3, dtype="i"), numpy.asarray([3], dtype="i"), numpy.asarray([0], dtype="i"))
    m(X, is_train=False)
    return numpy.array_equal(seen[1], X.data)
