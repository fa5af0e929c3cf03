"""C10: window extraction and its transpose."""
from vc.spec import Property
from contracts.common import lengths, offsets

P = Property(
    "C10",
    explanation="NumpyOps.seq2col/backprop_seq2col are extracted from the .pyx, and the kernels seq2col/backprop_seq2col/vec_add from "
    "cpu_kernels.hh (clang's own AST), on every run. For any number of sequences of any (zero included) lengths, any width and any window "
    "size the executed loops are summarised and every cell of the result is proved equal to the neighbour in its own sequence or zero, "
    "and every cell of the gradient to the sum over the windows that contain it; every pointer access is proved in bounds. The layer "
    "expand_window is run on top for plain and ragged input.",
    assumptions=["C integers do not overflow and floats are reals", "arrays passed by Python have the element type, rank and contiguity that the Cython signature checks (violations raise there)",
                 "window_size >= 0 (a negative window size is rejected by the allocation of a negative width)"],
    bounded=[],
)


def expect(c, tag, Y, X, L, B, nW, I):
    """Y is the window extraction of X over the sequences of lengths L"""
    b = c.idx(tag + "b", B)
    l = c.at(L, b) if not callable(L) else L(b)
    k = c.idx(tag + "k", l)
    w = c.idx(tag + "w", 2 * nW + 1)
    j = c.idx(tag + "j", I)
    s = offsets(c, L, b) if not callable(L) else 0
    t = k + w - nW
    c.eq(tag + "entry = neighbour in its own sequence, else 0", c.at(Y, s + k, w * I + j), c.ite(c.and_(t >= 0, t < l), lambda: c.at(X, s + t, j), 0))


def expect_back(c, tag, dX, D, L, B, nW, I):
    b = c.idx(tag + "b", B)
    l = c.at(L, b) if not callable(L) else L(b)
    k = c.idx(tag + "k", l)
    j = c.idx(tag + "j", I)
    s = offsets(c, L, b) if not callable(L) else 0

    def part(w):
        t = k - w + nW
        return c.ite(c.and_(t >= 0, t < l), lambda: c.at(D, s + t, w * I + j), 0)

    c.eq(tag + "gradient = sum over the windows containing the position", c.at(dX, s + k, j), c.sum(2 * nW + 1, part))


def batch(c):
    B = c.dim("B", 1)
    L = lengths(c, B)
    n = c.sum(B, lambda b: c.at(L, b))
    c.assume(n > 0)
    return B, L, n, c.dim("I", 1), c.int("nW", 0)


@P.unit("seq2col of sequences", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", ["float32", "float64"])
    B, L, n, I, nW = batch(c)
    X = c.array("X", n, I, dtype=dt)
    snap = c.snap(X, L)
    Y = ops.seq2col(X, nW, lengths=L)
    c.frame("input and lengths unmodified", snap)
    c.eq("rows", Y.shape[0], n)
    c.eq("columns", Y.shape[1], (2 * nW + 1) * I)
    expect(c, "", Y, X, L, B, nW, I)


@P.unit("seq2col of one sequence", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", ["float32", "float64"])
    n, I, nW = c.dim("n", 1), c.dim("I", 1), c.int("nW", 0)
    X = c.array("X", n, I, dtype=dt)
    snap = c.snap(X)
    Y = ops.seq2col(X, nW)
    c.frame("input unmodified", snap)
    c.eq("rows", Y.shape[0], n)
    c.eq("columns", Y.shape[1], (2 * nW + 1) * I)
    expect(c, "", Y, X, lambda b: n, 1, nW, I)


@P.unit("backprop_seq2col of sequences", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", ["float32", "float64"])
    B, L, n, I, nW = batch(c)
    D = c.array("D", n, (2 * nW + 1) * I, dtype=dt)
    snap = c.snap(D, L)
    dX = ops.backprop_seq2col(D, nW, lengths=L)
    c.frame("gradient and lengths unmodified", snap)
    c.eq("rows", dX.shape[0], n)
    c.eq("columns", dX.shape[1], I)
    expect_back(c, "", dX, D, L, B, nW, I)


@P.unit("backprop_seq2col of one sequence", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", ["float32", "float64"])
    n, I, nW = c.dim("n", 1), c.dim("I", 1), c.int("nW", 0)
    D = c.array("D", n, (2 * nW + 1) * I, dtype=dt)
    snap = c.snap(D)
    dX = ops.backprop_seq2col(D, nW)
    c.frame("gradient unmodified", snap)
    c.eq("rows", dX.shape[0], n)
    c.eq("columns", dX.shape[1], I)
    expect_back(c, "", dX, D, lambda b: n, 1, nW, I)


@P.unit("lengths that do not fit are refused", secs=100)
def _(c):
    ops = c.native
    n, I, nW = c.dim("n"), c.dim("I", 1), c.int("nW", 0)
    B = c.dim("B", 1)
    L = c.array("L", B, dtype="int32", lo=-3, hi=6)
    if c.flag("a negative length"):
        c.assume(c.at(L, c.idx("b", B)) < 0)
    else:
        c.assume(c.not_(c.sum(B, lambda b: c.at(L, b)) == n))
    back = c.flag("backward")
    X = c.array("X", n, (2 * nW + 1) * I if back else I, dtype="float32")
    c.raises("refused", AssertionError, lambda: (ops.backprop_seq2col if back else ops.seq2col)(X, nW, lengths=L))


@P.unit("layer on plain arrays", secs=200)
def _(c):
    from thinc.api import expand_window
    ops = c.use_ops(c.native)
    n, I, nW = c.dim("n"), c.dim("I", 1), c.int("nW", 0)
    m = expand_window(nW)
    m.ops = ops
    X = c.array("X", n, I, dtype="float32")
    snap = c.snap(X)
    Y, back = m(X, is_train=c.flag("train"))
    c.eq("rows", Y.shape[0], n)
    c.eq("columns", Y.shape[1], (2 * nW + 1) * I)
    D = c.array("D", n, (2 * nW + 1) * I, dtype="float32")
    dX = back(D)
    c.frame("input unmodified", snap)
    c.eq("gradient rows", dX.shape[0], n)
    c.eq("gradient columns", dX.shape[1], I)
    c.assume(n > 0)
    expect(c, "forward: ", Y, X, lambda b: n, 1, nW, I)
    expect_back(c, "backward: ", dX, D, lambda b: n, 1, nW, I)


@P.unit("layer on ragged batches", secs=200)
def _(c):
    from thinc.api import expand_window
    from thinc.types import Ragged
    ops = c.use_ops(c.native)
    B = c.dim("B", 1)
    L = lengths(c, B)
    n = c.sum(B, lambda b: c.at(L, b))
    I, nW = c.dim("I", 1), c.int("nW", 0)
    m = expand_window(nW)
    m.ops = ops
    X = c.array("X", n, I, dtype="float32")
    snap = c.snap(X, L)
    Y, back = m(Ragged(X, L), is_train=c.flag("train"))
    c.eq("lengths kept", Y.lengths, L)
    c.eq("rows", Y.data.shape[0], n)
    c.eq("columns", Y.data.shape[1], (2 * nW + 1) * I)
    D = c.array("D", n, (2 * nW + 1) * I, dtype="float32")
    dX = back(Ragged(D, L))
    c.frame("input unmodified", snap)
    c.eq("gradient lengths", dX.lengths, L)
    c.eq("gradient rows", dX.data.shape[0], n)
    c.eq("gradient columns", dX.data.shape[1], I)
    c.assume(n > 0)
    expect(c, "forward: ", Y.data, X, L, B, nW, I)
    expect_back(c, "backward: ", dX.data, D, L, B, nW, I)


@P.unit("portable implementation (window 1, one sequence)", secs=100)
def _(c):
    from thinc.api import Ops
    ops = Ops()
    if not c.sym:
        import numpy
        ops.xp = numpy
    n, I = c.dim("n", 1), c.dim("I", 1)
    X = c.array("X", n, I, dtype="float32")
    snap = c.snap(X)
    Y = ops.seq2col(X, 1)
    c.frame("input unmodified", snap)
    expect(c, "", Y, X, lambda b: n, 1, 1, I)
    D = c.array("D", n, 3 * I, dtype="float32")
    dX = ops.backprop_seq2col(D, 1)
    expect_back(c, "backward: ", dX, D, lambda b: n, 1, 1, I)


@P.unit("vec_add meets its contract", conc=False, secs=60)
def _(c):
    """X[0:N] += scale * Y[0:N] on flat memory, the contract used at its calls"""
    from vc import kernels, native
    K = kernels.load()
    ct = c.pick("type", ["float", "double"])
    dt = {"float": "float32", "double": "float64"}[ct]
    n, m = c.dim("n"), c.dim("m")
    o, p, N = c.int("o", 0), c.int("p", 0), c.int("N")
    c.assume(c.or_(N <= 0, c.and_(o + N <= n, p + N <= m)))
    X, Y = c.array("X", n, dtype=dt), c.array("Y", m, dtype=dt)
    X0 = c.value(X)
    s = c.real("s")
    snap = c.snap(Y)
    K.ns[K.body("vec_add", [ct, ct])](native.data(X) + o, native.data(Y) + p, s, N)
    c.frame("source unmodified", snap)
    i = c.idx("i", n)
    c.eq("result", c.at(X, i), c.at(X0, i) + c.ite(c.and_(i >= o, i < o + N), lambda: s * c.at(Y, p + i - o), 0))
