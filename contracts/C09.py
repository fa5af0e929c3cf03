"""C09: sequence formats convert back and forth without losing or moving a value."""
from vc.spec import Property
from contracts.common import lengths, offsets, attach

P = Property("C09", explanation=(
    "flatten, unflatten, pad, unpad and the padded packing are executed over an arbitrary number of sequences of arbitrary lengths and arbitrary values and "
    "proved cell by cell: every value is at its documented place and the way back returns it.  The with_* layers and the conversion layers are executed "
    "around an arbitrary inner layer whose output, gradient and callbacks are uninterpreted."),
    assumptions=["an inner layer returns one output row per input row and the lengths of its input (what the layers' type signatures promise)"],
    bounded=["padded packing (list2padded, padded2list and the layers around padded batches): proved for 0 to 3 sequences of arbitrary lengths "
             "(2 for the layers); more sequences only by concrete replay",
             "with_flatten: at most 3 groups of at most 2 items"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def seqs(c, lo=0, ndim=2, dtype="float32", name="X", B=None, L=None):
    """a list of B arrays with arbitrary lengths >= lo"""
    B = c.dim("B") if B is None else B
    L = lengths(c, B, lo=lo) if L is None else L
    W = c.dim("W", 1)
    if ndim == 2:
        Xs = c.lst("Xs", B, lambda i: c.farray(name, i, c.at(L, i), W, dtype=dtype))
    else:
        Xs = c.lst("Xs", B, lambda i: c.farray(name, i, c.at(L, i), dtype=dtype))
    return Xs, L, B, W


@P.unit("flatten", secs=200)
def _(c):
    ops = c.use_ops()
    two, dtype = c.pick("kind", [(True, "float32"), (False, "float32"), (True, "int32"), (False, "int32")])
    Xs, L, B, W = seqs(c, ndim=2 if two else 1, dtype=dtype)
    F = ops.flatten(Xs)
    if not c.under(B == 0):
        c.check("type of the values", str(F.dtype) == dtype)
    b = c.int("b", 0)
    c.assume(b < B)
    k = c.int("k", 0)
    c.assume(k < c.at(L, b))
    c.check("all rows", F.shape[0] == c.sum(B, lambda b: c.at(L, b)))
    at = (offsets(c, L, b) + k,)
    src = (k,)
    if two:
        j = c.int("j", 0)
        c.assume(j < W)
        c.check("width", F.shape[1] == W)
        at, src = at + (j,), src + (j,)
    c.eq("row k of sequence b", c.at(F, *at), c.at(Xs[b], *src), 0)


@P.unit("flatten with padding", secs=200)
def _(c):
    ops = c.use_ops()
    dtype = c.pick("dtype", ["float32", "float64", "int64"])
    Xs, L, B, W = seqs(c, lo=1, dtype=dtype)
    pad = c.pick("pad", [1, 2, 5])
    F = ops.flatten(Xs, pad=pad)
    if not c.under(B == 0):
        c.check("type of the values", str(F.dtype) == dtype)
    b = c.int("b", 0)
    c.assume(b < B)
    k = c.int("k", 0)
    l = c.at(L, b)
    j = c.int("j", 0)
    c.assume(j < W)
    c.check("rows", F.shape[0] == c.sum(B, lambda b: c.at(L, b)) + pad * B + pad)
    s = offsets(c, L, b) + pad * b
    if c.flag("padding"):
        c.assume(k < pad)
        c.eq("zeros before sequence b", c.at(F, s + k, j), 0, 0)
        c.eq("zeros at the end", c.at(F, F.shape[0] - pad + k, j), 0, 0)
    else:
        c.assume(k < l)
        c.eq("row k of sequence b", c.at(F, s + pad + k, j), c.at(Xs[b], k, j), 0)


@P.unit("unflatten", secs=200)
def _(c):
    ops = c.use_ops()
    B = c.dim("B")
    L = lengths(c, B)
    pad = c.pick("pad", [0, 0, 1, 3])
    extra = c.sum(B, lambda b: c.ite(c.at(L, b) > 0, pad, 0)) + pad if pad else 0
    n = c.sum(B, lambda b: c.at(L, b)) + extra
    W = c.dim("W", 1)
    X = c.array("X", n, W)
    Xs = ops.unflatten(X, L, pad=pad)
    c.check("as many sequences", c.len(Xs) == B)
    b = c.int("b", 0)
    c.assume(b < B)
    s = offsets(c, L, b)
    if pad:
        s = s + c.sum(b, lambda k: c.ite(c.at(L, k) > 0, pad, 0)) + pad
    c.eq_build("sequence b", Xs[b], (c.at(L, b), W), lambda k, j: c.at(X, s + k, j), 0)


@P.unit("flatten and back", secs=200)
def _(c):
    ops = c.use_ops()
    pad = c.pick("pad", [0, 1, 3])
    dtype = c.pick("dtype", ["float32", "float64", "int64"])
    Xs, L, B, W = seqs(c, lo=0 if pad == 0 or not c.sym else 1, dtype=dtype)
    Ys = ops.unflatten(ops.flatten(Xs, pad=pad), L, pad=pad)
    c.check("as many sequences", c.len(Ys) == B)
    b = c.int("b", 0)
    c.assume(b < B)
    c.check("type of the values", str(Ys[b].dtype) == dtype)
    c.eq_build("sequence b comes back", Ys[b], (c.at(L, b), W), lambda k, j: c.at(Xs[b], k, j), 0)


@P.unit("pad", secs=200)
def _(c):
    ops = c.use_ops()
    dtype = c.pick("dtype", ["float32", "float64", "int64"])
    Xs, L, B, W = seqs(c, dtype=dtype)
    if c.under(B == 0):
        c.raises("no sequences", ValueError, lambda: ops.pad(Xs))
        return
    r = c.pick("round_to", [1, 2, 8])
    Y = ops.pad(Xs, round_to=r)
    c.check("type of the values", str(Y.dtype) == dtype)
    c.check("dimensions", c.and_(Y.shape[0] == B, Y.shape[2] == W, c.mod(Y.shape[1], r) == 0))
    b = c.int("b", 0)
    c.assume(b < B)
    c.check("long enough", Y.shape[1] >= c.at(L, b))
    top = c.max(B, lambda b: c.at(L, b))
    c.check("no longer than the next multiple", Y.shape[1] < top + r)
    k = c.int("k", 0)
    c.assume(k < Y.shape[1])
    j = c.int("j", 0)
    c.assume(j < W)
    if c.under(k < c.at(L, b)):
        c.eq("row k of sequence b", c.at(Y, b, k, j), c.at(Xs[b], k, j), 0)
    else:
        c.eq("zero beyond the sequence", c.at(Y, b, k, j), 0, 0)


@P.unit("unpad", secs=200)
def _(c):
    ops = c.use_ops()
    B, T, W = c.dim("B"), c.dim("T"), c.dim("W", 1)
    X = c.array("X", B, T, W)
    L = c.array("L", B, dtype="int32", lo=0, hi=T) if c.sym else c.array("L", B, dtype="int32", lo=0, hi=T)
    Ys = ops.unpad(X, L)
    c.check("as many sequences", c.len(Ys) == B)
    b = c.int("b", 0)
    c.assume(b < B)
    c.eq_build("sequence b", Ys[b], (c.at(L, b), W), lambda k, j: c.at(X, b, k, j), 0)


def few(c, name="B", most=3):
    """a number of sequences small enough that their order by length can be enumerated"""
    if c.sym:
        return c.pick(name, list(range(most + 1)))
    return c.rng.choice([0, 1, 2, 2, 3, 3, 4, 6])


def few_seqs(c, B, name="X", lo=0, W=None):
    W = c.dim("W", 1) if W is None else W
    L = [c.int("l%d" % b, lo, 5 if not c.sym else None) for b in range(B)]
    return [c.array("%s%d" % (name, b), L[b], W) for b in range(B)], L, W


def batch_sizes(c):
    """invariant of list2padded's second loop: before step t as many sequences are counted as have at least t items"""
    if c.sym:
        from vc import runtime
        runtime.UNROLL.add("list2padded")
        runtime.INVARIANTS["current_size"] = lambda loc: None if "lengths_" not in loc else (
            lambda t: c.total([c.ite(l >= t, 1, 0) for l in loc["lengths_"]]))


def padded_of(c, P, B, Xs, L, W, tag):
    """P packs the sequences Xs"""
    if B == 0:
        c.check(tag + ": empty", c.and_(P.data.shape[0] == 0, P.data.shape[1] == 0, c.len(P.lengths) == 0, c.len(P.indices) == 0, c.len(P.size_at_t) == 0))
        return
    ind = [c.concrete(c.at(P.indices, b)) for b in range(B)]
    c.check(tag + ": indices are a permutation", sorted(ind) == list(range(B)), str(ind))
    c.check(tag + ": one length each", P.lengths.shape[0] == B)
    for b in range(B):
        c.eq(tag + ": length", c.at(P.lengths, b), L[ind[b]], 0)
        c.check(tag + ": no sequence is longer than the data", L[b] <= P.data.shape[0])
        if b:
            c.check(tag + ": longest first", c.at(P.lengths, b - 1) >= c.at(P.lengths, b))
    c.check(tag + ": as long as the longest", c.or_(*[P.data.shape[0] == l for l in L]))
    c.check(tag + ": dimensions", c.and_(P.data.shape[1] == B, P.data.shape[2] == W, P.size_at_t.shape[0] == P.data.shape[0]))
    t = c.int("t", 0)
    c.assume(t < P.data.shape[0])
    j = c.int("j", 0)
    c.assume(j < W)
    c.eq(tag + ": active sequences at step t", c.at(P.size_at_t, t), c.total([c.ite(l > t, 1, 0) for l in L]), 0)
    for b in range(B):
        v = c.at(P.data, t, b, j)
        if c.under(t < L[ind[b]]):
            c.eq(tag + ": item t of the sequence", v, c.at(Xs[ind[b]], t, j), 0)
        else:
            c.eq(tag + ": zero beyond the sequence", v, 0, 0)


@P.unit("list2padded", secs=300, split=4)
def _(c):
    ops = c.use_ops()
    batch_sizes(c)
    B = few(c)
    Xs, L, W = few_seqs(c, B)
    snaps = c.snap(*Xs)
    P_ = ops.list2padded(Xs)
    c.frame("sequences unmodified", snaps)
    padded_of(c, P_, B, Xs, L, W, "padded")


@P.unit("padded and back", secs=300, split=4)
def _(c):
    ops = c.use_ops()
    batch_sizes(c)
    B = few(c)
    Xs, L, W = few_seqs(c, B)
    Ys = ops.padded2list(ops.list2padded(Xs))
    c.check("as many sequences", c.len(Ys) == B)
    for b in range(B):
        c.eq_build("sequence %d comes back" % b, Ys[b], (L[b], W), lambda k, j: c.at(Xs[b], k, j), 0)


class Batch:
    """a batch in one of the formats, with access to item k of sequence b"""

    def __init__(self, c, fmt, obj, B, L, W):
        self.c, self.fmt, self.obj, self.B, self.L, self.W = c, fmt, obj, B, L, W

    def length(self, b):
        return self.c.at(self.L, b) if not isinstance(self.L, list) else self.L[b]

    def item(self, b, k, j):
        c, o = self.c, self.obj
        if self.fmt == "list":
            return c.at(o[b], k, j)
        if self.fmt in ("ragged", "pair"):
            d = o.dataXd if self.fmt == "ragged" else o[0]
            s = offsets(c, self.L, b) if not isinstance(self.L, list) else c.total(self.L[:b])
            return c.at(d, s + k, j)
        if self.fmt in ("padded", "tuple4"):
            d, ind = (o.data, o.indices) if self.fmt == "padded" else (o[0], o[3])
            pos = [c.concrete(c.at(ind, q)) for q in range(self.B)].index(b)
            return c.at(d, k, pos, j)
        raise KeyError(self.fmt)

    def arrays(self):
        o = self.obj
        if self.fmt == "list":
            return [o]
        if self.fmt == "ragged":
            return [o.dataXd, o.lengths]
        if self.fmt == "padded":
            return [o.data, o.size_at_t, o.lengths, o.indices]
        return list(o)


def batch(c, fmt, name, B, L, W, like=None):
    """an arbitrary batch of B sequences with lengths L and width W"""
    from thinc.types import Ragged, Padded
    one = isinstance(L, list)
    if fmt == "list":
        if one:
            o = [c.array("%s%d" % (name, b), L[b], W) for b in range(B)]
        else:
            o = c.lst(name, B, lambda i: c.farray(name, i, c.at(L, i), W))
    elif fmt in ("ragged", "pair"):
        n = c.total(L) if one else c.sum(B, lambda b: c.at(L, b))
        o = (c.array(name, n, W), c.ivec(L) if one else L)
        if fmt == "ragged":
            o = Ragged(*o)
    else:
        if like is not None:
            T_, size, lens, ind = like.data.shape[0], like.size_at_t, like.lengths, like.indices
        else:
            import itertools
            perm = list(c.pick("order", list(itertools.permutations(range(B)))))
            for p, q in zip(perm, perm[1:]):
                c.assume(L[p] >= L[q])
            T_ = L[perm[0]] if B else 0
            ind, lens = c.ivec(perm), c.ivec([L[p] for p in perm])
            size = c.build((T_,), lambda t: c.total([c.ite(l > t, 1, 0) for l in L]), "int32")
        o = Padded(c.array(name, T_, B, W), size, lens, ind)
        if fmt == "tuple4":
            o = (o.data, o.size_at_t, o.lengths, o.indices)
    return Batch(c, fmt, o, B, L, W)


def recorder(c, fmt, B, L, WY, WX):
    """an arbitrary layer over the given format: whatever it is handed is recorded, what it returns is arbitrary"""
    from thinc.api import Model
    log = {}

    def fwd(model, X, is_train):
        log["X"], log["train"] = X, is_train
        Y = log["Y"] = respond("Yin", X, WY)

        def back(dY):
            log["dY"] = dY
            log["dX"] = respond("dXin", dY, WX)
            return log["dX"]

        return Y, back

    def respond(name, X, W):
        from thinc.types import Ragged, Padded
        if fmt == "array":
            return c.array(name, X.shape[0], W)
        if fmt == "array3":
            return c.array(name, X.shape[0], X.shape[1], W)
        if fmt == "list":
            return batch(c, "list", name, B, L, W).obj
        if fmt == "ragged":
            return Ragged(c.array(name, X.dataXd.shape[0], W), X.lengths)
        return Padded(c.array(name, X.data.shape[0], X.data.shape[1], W), X.size_at_t, X.lengths, X.indices)

    return Model("inner", fwd), log


def same_items(c, what, a, b):
    """two batches hold the same sequences"""
    if isinstance(a.L, list):
        bs = list(range(a.B))
    else:
        q = c.int("b:" + what, 0)
        c.assume(q < a.B)
        bs = [q]
    j = c.int("j:" + what, 0)
    c.assume(j < a.W)
    for q in bs:
        k = c.int("k:%s%s" % (what, q if isinstance(q, int) else ""), 0)
        c.assume(k < a.length(q))
        c.eq(what, a.item(q, k, j), b.item(q, k, j), 0)


def shaped(c, what, x, B, L, W):
    """the batch x has the right number of sequences of the right lengths and width"""
    o = x.obj
    one = isinstance(L, list)
    if x.fmt == "list":
        c.check(what + ": number of sequences", c.len(o) == B)
        if one:
            for b in range(B):
                c.check(what + ": shape of a sequence", c.and_(o[b].shape[0] == L[b], o[b].shape[1] == W))
        else:
            b = c.int("b:shape " + what, 0)
            if not c.under(b < B):
                return
            c.check(what + ": shape of a sequence", c.and_(o[b].shape[0] == c.at(L, b), o[b].shape[1] == W))
    elif x.fmt in ("ragged", "pair"):
        d, l = (o.dataXd, o.lengths) if x.fmt == "ragged" else o
        if not one and c.under(B == 0):
            c.check(what + ": no rows", d.shape[0] == 0)
            return
        c.check(what + ": rows", c.and_(d.shape[0] == (c.total(L) if one else c.sum(B, lambda b: c.at(L, b))), d.shape[1] == W))
        if one:
            for b in range(B):
                c.eq(what + ": lengths", c.at(l, b), L[b], 0)
        else:
            b = c.int("b:shape " + what, 0)
            if not c.under(b < B):
                return
            c.eq(what + ": lengths", c.at(l, b), c.at(L, b), 0)
    else:
        d, size, l, ind = (o.data, o.size_at_t, o.lengths, o.indices) if x.fmt == "padded" else o
        c.check(what + ": dimensions", c.and_(d.shape[1] == B, d.shape[2] == W, *[d.shape[0] >= v for v in L]))
        pos = [c.concrete(c.at(ind, q)) for q in range(B)]
        c.check(what + ": indices are a permutation", sorted(pos) == list(range(B)))
        for q in range(B):
            c.eq(what + ": lengths", c.at(l, q), L[pos[q]], 0)
        t = c.int("t:" + what, 0)
        c.assume(t < d.shape[0])
        c.eq(what + ": batch size at a step", c.at(size, t), c.total([c.ite(v > t, 1, 0) for v in L]), 0)


def wrapper(c, make, inner_fmt, fmt, B, L):
    """a with_* layer around an arbitrary layer: the inner layer sees the same items in its format, its output comes back in
    the caller's format, and likewise for the gradients"""
    W, WY = c.dim("W", 1), c.dim("WY", 1)
    X = batch(c, fmt, "X", B, L, W)
    inner, log = recorder(c, inner_fmt, B, L, WY, W)
    model = make(inner)
    attach(c, model)
    train = c.flag("train")
    snaps = c.snap(*X.arrays())
    Y, back = model(X.obj, is_train=train)
    c.check("training flag handed on", log["train"] is train)
    c.frame("input unmodified", snaps)
    seen = Batch(c, inner_fmt, log["X"], B, L, W)
    Yb = Batch(c, fmt, Y, B, L, WY)
    if inner_fmt == fmt:
        c.check("input handed on as it is", log["X"] is X.obj)
        c.check("output handed back as it is", Y is log["Y"])
    else:
        shaped(c, "the inner layer's input", seen, B, L, W)
        same_items(c, "the inner layer's input items", X, seen)
        shaped(c, "output", Yb, B, L, WY)
        same_items(c, "output items", Batch(c, inner_fmt, log["Y"], B, L, WY), Yb)
    like = Y if fmt == "padded" else None
    if fmt == "tuple4":
        from thinc.types import Padded
        like = Padded(*Y)
    dY = batch(c, fmt, "dY", B, L, WY, like=like)
    snaps = c.snap(*dY.arrays()) + snaps
    dX = back(dY.obj)
    c.frame("input and gradient unmodified", snaps)
    if inner_fmt == fmt:
        c.check("gradient handed on as it is", log["dY"] is dY.obj)
        c.check("gradient handed back as it is", dX is log["dX"])
    else:
        shaped(c, "the inner layer's gradient", Batch(c, inner_fmt, log["dY"], B, L, WY), B, L, WY)
        same_items(c, "the inner layer's gradient items", dY, Batch(c, inner_fmt, log["dY"], B, L, WY))
        shaped(c, "returned gradient", Batch(c, fmt, dX, B, L, W), B, L, W)
        same_items(c, "returned gradient items", Batch(c, inner_fmt, log["dX"], B, L, W), Batch(c, fmt, dX, B, L, W))


def many(c):
    B = c.dim("B")
    return B, lengths(c, B)


def some(c, most=2, lo=0):
    batch_sizes(c)
    B = c.pick("B", list(range(1, most + 1))) if c.sym else c.rng.choice([1, 2, 3, 4])
    return B, [c.int("l%d" % b, lo, 5 if not c.sym else None) for b in range(B)]


@P.unit("with_list around ragged", secs=300, split=4)
def _(c):
    from thinc.api import with_list
    wrapper(c, with_list, "list", "ragged", *many(c))


@P.unit("with_ragged", secs=300, split=8)
def _(c):
    from thinc.api import with_ragged
    wrapper(c, with_ragged, "ragged", c.pick("format", ["list", "ragged", "pair"]), *many(c))


@P.unit("with_list around padded", secs=300, split=4)
def _(c):
    from thinc.api import with_list
    wrapper(c, with_list, "list", c.pick("format", ["padded", "list"]), *some(c))


@P.unit("with_ragged around padded", secs=300, split=4)
def _(c):
    from thinc.api import with_ragged
    wrapper(c, with_ragged, "ragged", "padded", *some(c))


@P.unit("with_padded", secs=300, split=8)
def _(c):
    from thinc.api import with_padded
    wrapper(c, with_padded, "padded", c.pick("format", ["list", "ragged", "padded", "tuple4"]), *some(c))


def array_wrapper(c, make, fmt, B, L, flat, pad=0):
    """with_array / with_array2d: the inner layer sees one array"""
    from thinc.types import Ragged
    W, WY = c.dim("W", 1), c.dim("WY", 1)
    inner, log = recorder(c, "array3" if fmt == "padded" and not flat else "array", B, L, WY, W)
    model = make(inner, pad=pad)
    attach(c, model)
    part = c.pick("part", ["input", "output", "gradient", "returned gradient"])
    train = part in ("input", "gradient")
    X = batch(c, fmt, "X", B, L, W)
    snaps = c.snap(*X.arrays())
    Y, back = model(X.obj, is_train=train)
    c.check("training flag handed on", log["train"] is train)
    c.frame("input unmodified", snaps)
    if fmt == "list" and not isinstance(L, list) and c.under(B == 0):
        c.check("no sequences", c.len(Y) == 0)
        return
    Yb = Batch(c, fmt, Y, B, L, WY)
    if part == "output":
        shaped(c, "output", Yb, B, L, WY)
    dY = batch(c, fmt, "dY", B, L, WY, like=Y)
    snaps = c.snap(*dY.arrays()) + snaps
    dX = back(dY.obj)
    c.frame("input and gradient unmodified", snaps)
    dXb = Batch(c, fmt, dX, B, L, W)
    if part == "returned gradient":
        shaped(c, "returned gradient", dXb, B, L, W)
    for what, outer, a, width in (("input", X, log["X"], W), ("output", Yb, log["Y"], WY), ("gradient", dY, log["dY"], WY), ("returned gradient", dXb, log["dX"], W)):
        if what != part:
            continue
        c.check(what + ": width of the array", a.shape[-1] == width)
        if isinstance(L, list):
            q = c.pick("b:" + what, list(range(B)))
        else:
            q = c.int("b:" + what, 0)
            c.assume(q < B)
        k = c.int("k:" + what, 0)
        c.assume(k < outer.length(q))
        j = c.int("j:" + what, 0)
        c.assume(j < width)
        if fmt == "padded":
            o = outer.obj
            pos = [c.concrete(c.at(o.indices, r)) for r in range(B)].index(q)
            got = c.at(a, k * B + pos, j) if flat else c.at(a, k, pos, j)
            c.check(what + ": all items", (a.shape[0] == o.data.shape[0] * B) if flat else c.and_(a.shape[0] == o.data.shape[0], a.shape[1] == B))
        else:
            s = offsets(c, L, q) + (pad * q + pad if fmt == "list" and pad else 0)
            n = c.sum(B, lambda b: c.at(L, b)) + (pad * B + pad if fmt == "list" and pad else 0)
            c.check(what + ": all rows", a.shape[0] == n)
            got = c.at(a, s + k, j)
        c.eq(what + ": item k of sequence b", got, outer.item(q, k, j), 0)


@P.unit("with_array", secs=400, split=8)
def _(c):
    from thinc.api import with_array, with_array2d
    flat = c.flag("two dimensions")
    pad = c.pick("pad", [0, 2])
    B = c.dim("B")
    L = lengths(c, B, lo=1 if pad else 0)
    array_wrapper(c, with_array2d if flat else with_array, c.pick("format", ["list", "ragged"]) if not pad else "list", B, L, flat, pad)


@P.unit("with_array around padded", secs=300, split=4)
def _(c):
    from thinc.api import with_array, with_array2d
    flat = c.flag("two dimensions")
    B, L = some(c)
    array_wrapper(c, with_array2d if flat else with_array, "padded", B, L, flat)


@P.unit("with_array around an array", secs=100)
def _(c):
    from thinc.api import with_array, with_array2d, with_padded
    W, WY = c.dim("W", 1), c.dim("WY", 1)
    kind = c.pick("layer", ["array", "array2d", "padded"])
    N, M = c.dim("N"), c.dim("M")
    train = c.flag("train")
    if kind != "padded":
        X = c.array("X", N, W)
        inner, log = recorder(c, "array", None, None, WY, W)
        model = attach(c, (with_array if kind == "array" else with_array2d)(inner, pad=c.pick("pad", [0, 2])))
        Y, back = model(X, is_train=train)
        c.check("handed on as it is", log["X"] is X and Y is log["Y"] and log["train"] is train)
        dY = c.array("dY", N, WY)
        dX = back(dY)
        c.check("gradient handed on as it is", log["dY"] is dY and dX is log["dX"])
        return
    X = c.array("X", N, M, W)
    inner, log = recorder(c, "padded", None, None, WY, W)
    model = attach(c, with_padded(inner))
    Y, back = model(X, is_train=train)
    c.check("output is the data", log["train"] is train and Y is log["Y"].data)
    dY = c.array("dY", N, M, WY)
    dX = back(dY)
    c.check("returned gradient is the data", dX is log["dX"].data)
    for what, P_, a in (("input", log["X"], X), ("gradient", log["dY"], dY)):
        c.check(what + " is the data", P_.data is a)
        c.check(what + ": dimensions", c.and_(P_.size_at_t.shape[0] == N, P_.lengths.shape[0] == M, P_.indices.shape[0] == M))
        t, b = c.int("t:" + what, 0), c.int("b:" + what, 0)
        c.assume(c.and_(t < N, b < M))
        c.eq(what + ": every sequence is active at every step", c.at(P_.size_at_t, t), M, 0)
        c.eq(what + ": every sequence has full length", c.at(P_.lengths, b), N, 0)
        c.eq(what + ": in order", c.at(P_.indices, b), b, 0)


CONVERT = {"list2ragged": ("list", "ragged"), "ragged2list": ("ragged", "list"), "list2padded": ("list", "padded"), "padded2list": ("padded", "list")}


def conversion(c, name, B, L):
    import thinc.api
    src, dst = CONVERT[name]
    model = attach(c, getattr(thinc.api, name)())
    W = c.dim("W", 1)
    X = batch(c, src, "X", B, L, W)
    snaps = c.snap(*X.arrays())
    Y, back = model(X.obj, is_train=c.flag("train"))
    Yb = Batch(c, dst, Y, B, L, W)
    shaped(c, "output", Yb, B, L, W)
    if not isinstance(L, list) and c.under(B == 0):
        return
    same_items(c, "output items", X, Yb)
    dY = batch(c, dst, "dY", B, L, W, like=Y)
    snaps = c.snap(*dY.arrays()) + snaps
    dX = Batch(c, src, back(dY.obj), B, L, W)
    shaped(c, "gradient", dX, B, L, W)
    same_items(c, "gradient items", dY, dX)
    c.frame("input and gradient unmodified", snaps)


@P.unit("list2ragged and ragged2list", secs=300, split=4)
def _(c):
    conversion(c, c.pick("layer", ["list2ragged", "ragged2list"]), *many(c))


@P.unit("list2padded and padded2list layers", secs=300, split=4)
def _(c):
    conversion(c, c.pick("layer", ["list2padded", "padded2list"]), *some(c))


@P.unit("list2array", secs=200)
def _(c):
    from thinc.api import list2array
    B, L = many(c)
    W = c.dim("W", 1)
    X = batch(c, "list", "X", B, L, W)
    model = attach(c, list2array())
    Y, back = model(X.obj, is_train=c.flag("train"))
    n = c.sum(B, lambda b: c.at(L, b))
    c.check("rows", Y.shape[0] == n)
    dX = back(c.array("dY", n, W))
    c.check("as many gradients", c.len(dX) == B)
    b = c.int("b", 0)
    c.assume(b < B)
    k, j = c.int("k", 0), c.int("j", 0)
    c.assume(c.and_(k < c.at(L, b), j < W))
    c.eq("item k of sequence b", c.at(Y, offsets(c, L, b) + k, j), X.item(b, k, j), 0)
    c.check("shape of a gradient", c.and_(dX[b].shape[0] == c.at(L, b), dX[b].shape[1] == W))


@P.unit("with_flatten", secs=300, split=4)
def _(c):
    """nested lists of opaque items: the inner layer sees them all in order"""
    from thinc.api import Model, with_flatten, with_flatten_v2
    v2 = c.flag("v2")
    B = c.pick("B", [1, 2, 3])
    ls = [c.pick("l%d" % b, [0, 1, 2]) for b in range(B)]
    X = [["X%d.%d" % (b, k) for k in range(ls[b])] for b in range(B)]
    W = c.dim("W", 1)
    n = sum(ls)
    log = {}

    def fwd(model, Xs, is_train):
        log["X"], log["train"] = list(Xs), is_train
        log["Y"] = ["Y%d" % i for i in range(n)] if v2 else c.array("Y", n, W)

        def back(dY):
            log["dY"] = dY
            log["dX"] = ["dX%d" % i for i in range(n)] if v2 else c.array("dX", n, W)
            return log["dX"]

        return log["Y"], back

    train = c.flag("train")
    model = attach(c, (with_flatten_v2 if v2 else with_flatten)(Model("inner", fwd)))
    Y, back = model(X, is_train=train)
    flat = [x for s in X for x in s]
    c.check("inner layer sees every item in order", log["X"] == flat and log["train"] is train)
    at = [sum(ls[:b]) for b in range(B)]
    if v2:
        c.check("outputs regrouped", [list(y) for y in Y] == [["Y%d" % (at[b] + k) for k in range(ls[b])] for b in range(B)])
        dY = [["dY%d.%d" % (b, k) for k in range(ls[b])] for b in range(B)]
        dX = back(dY)
        c.check("gradients flattened", list(log["dY"]) == [x for s in dY for x in s])
        c.check("gradients regrouped", [list(y) for y in dX] == [["dX%d" % (at[b] + k) for k in range(ls[b])] for b in range(B)])
        return
    c.check("as many groups", c.len(Y) == B)
    dY = [c.array("dY%d" % b, ls[b], W) for b in range(B)]
    dX = back(dY)
    c.check("as many gradient groups", c.len(dX) == B)
    for b in range(B):
        c.eq_build("outputs of group %d" % b, Y[b], (ls[b], W), lambda k, j: c.at(log["Y"], at[b] + k, j), 0)
        c.eq_build("gradients of group %d" % b, dX[b], (ls[b], W), lambda k, j: c.at(log["dX"], at[b] + k, j), 0)
        if n:
            c.eq_build("gradient rows of group %d" % b, log["dY"][at[b]:at[b] + ls[b]], (ls[b], W), lambda k, j: c.at(dY[b], k, j), 0)
