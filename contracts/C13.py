"""C13: minibatching partitions the data in order."""
from vc.spec import Property

P = Property("C13", explanation=(
    "minibatch and multibatch are executed for datasets of any size with a constant or an arbitrary varying batch size.  The starts of the batches are proved "
    "to be the running total of the sizes drawn, the last start to lie before the end of the data and the total not to; item k of batch b is proved to be item "
    "start(b)+k of every dataset (of the shuffled order, the same for all datasets), so every item is yielded exactly once and parallel datasets stay aligned."),
    assumptions=["batch sizes are at least one (the loop that draws them ends)", "numpy.random.shuffle permutes its argument",
                 "the data is not changed while the batches are consumed (batches are produced on demand)"],
    bounded=["buffers larger than one: at most four batches", "tuple, Pairs, Ragged and Padded data: concrete runs only"])


def sizes(c):
    if c.flag("constant size"):
        s = c.int("size", 1)
        return s, lambda k: s
    return c.stream("size", 1)


def data(c, n, kind, tag):
    if kind == "list":
        if c.sym:
            f = lambda i: c.fint(tag, i)
            return c.lst(tag, n, f), f
        xs = [(tag, k) for k in range(n)]
        return xs, xs.__getitem__
    X = c.array(tag, n, 2, dtype="float32")
    return X, lambda i: [c.at(X, i, 0), c.at(X, i, 1)]


def same(c, name, item, want):
    if isinstance(want, list):
        c.eq(name, c.at(item, 0), want[0], 0)
        c.eq(name, c.at(item, 1), want[1], 0)
    else:
        c.check(name, item == want)


def total(c, size, b):
    return c.sum(b, size)


def nth(c, batch, k):
    return batch[k]


def verify(c, multi, buffer, bounded=False):
    ops = c.use_ops()
    n = c.dim("n")
    kinds = c.pick("kinds", [["list"], ["array"]] if not multi else [["list", "array"], ["array", "list", "list"]]) if not bounded else ["list", "list"][:1 + multi]
    seqs, items = zip(*[data(c, n, k, "X%d" % q) for q, k in enumerate(kinds)])
    snaps = c.snap(*[s for s, k in zip(seqs, kinds) if k == "array"])
    arg, size = sizes(c) if not bounded else c.stream("size", 1)
    shuffle = c.flag("shuffle")
    kw = {} if buffer is None else {"buffer": buffer}
    if multi:
        B = ops.multibatch(arg, *seqs, shuffle=shuffle, **kw)
    else:
        B = ops.minibatch(arg, seqs[0], shuffle=shuffle, **kw)
    out = c.items(B)
    N = c.len(out)
    c.frame("data unmodified", snaps)
    c.check("advertised number of batches", B.length == N)
    c.check("all items are covered", total(c, size, N) >= n)
    b = c.int("b", 0)
    c.assume(b < N)
    if bounded:
        b = c.concrete(b, 0, 4)
    s = total(c, size, b)
    c.check("no batch starts after the end", s < n)
    batch = out[b]
    parts = batch if multi else [batch]
    c.check("one part per dataset", len(parts) == len(seqs))
    want = c.ite(s + size(b) <= n, size(b), n - s)
    k = c.int("k", 0)
    c.assume(k < want)
    for part, item in zip(parts, items):
        c.check("batch size", c.len(part) == want)
    if not shuffle:
        for part, item in zip(parts, items):
            same(c, "item k of the batch", part[k], item(s + k))
    elif c.sym:
        p = c.shuffled()
        for part, item in zip(parts, items):
            same(c, "item k of the batch", part[k], item(p(s + k)))
    else:
        shuffled(c, [[x for batch in out for x in (batch[q] if multi else batch)] for q in range(len(seqs))], seqs)


def shuffled(c, got, seqs):
    """concrete runs: the same permutation of every dataset"""
    import numpy
    n = len(seqs[0])
    for perm in [None]:
        order = []
        for x in got[0]:
            cands = [i for i in range(n) if i not in order and numpy.array_equal(numpy.asarray(seqs[0][i], dtype=object), numpy.asarray(x, dtype=object))]
            c.check("every item exactly once", bool(cands))
            good = [i for i in cands if all(numpy.array_equal(numpy.asarray(s[i], dtype=object), numpy.asarray(g[len(order)], dtype=object)) for s, g in zip(seqs, got))]
            c.check("datasets stay aligned", bool(good))
            order.append(good[0])
        c.check("every item exactly once", sorted(order) == list(range(n)))


@P.unit("minibatch", secs=200)
def _(c):
    verify(c, False, None)


@P.unit("multibatch", secs=200)
def _(c):
    verify(c, True, None)


@P.unit("buffers", secs=200, split=4)
def _(c):
    """buffered output (bounded: at most four batches)"""
    if c.sym:
        from vc import runtime
        runtime.UNROLL.add("_get_batch_sizes")
        runtime.WHILE_MAX["_get_batch_sizes"] = 4
    verify(c, c.flag("multi"), c.pick("buffer", [0, 2, 3, 7]), True)


@P.unit("all kinds of data", sym=False, trials=2)
def _(c):
    import numpy
    from thinc.types import Pairs, Ragged, Padded
    ops = c.use_ops()
    n = c.int("n", 0, 9)
    kind = c.pick("kind", ["tuple", "Pairs", "array1", "array3", "Ragged"])
    ids = list(range(n))
    arr = numpy.arange(n, dtype="float32")
    seq = {"tuple": tuple(ids), "Pairs": None, "array1": arr, "array3": arr.reshape(n, 1, 1) * numpy.ones((1, 2, 3), dtype="f"),
           "Ragged": Ragged(numpy.repeat(arr, 2).reshape(-1, 1), numpy.full(n, 2, dtype="i"))}[kind]
    if kind == "Pairs":
        seq = Pairs(arr, arr.reshape(n, 1) * numpy.ones((1, 2), dtype="f"))
    size, shuffle = c.int("size", 1, 4), c.flag("shuffle")
    got = []
    batches = list(ops.minibatch(size, seq, shuffle=shuffle, buffer=c.int("buffer", 0, 4)))
    again = list(ops.minibatch(size, seq, shuffle=False))
    c.check("as many batches as needed", len(batches) == len(again) == -(-n // size))
    for q, b in enumerate(batches):
        if kind == "tuple":
            c.check("kind kept", isinstance(b, tuple))
            xs = list(b)
        elif kind == "Pairs":
            c.check("kind kept", isinstance(b, Pairs))
            xs = [int(x) for x in b.one]
            c.check("pairs stay aligned", all((b.two[i] == x).all() for i, x in enumerate(xs)) and len(b.two) == len(xs))
        elif kind == "Ragged":
            c.check("kind kept", isinstance(b, Ragged))
            c.check("lengths kept", (b.lengths == 2).all() and b.data.shape[0] == 2 * len(b.lengths))
            xs = [int(x) for x in b.data[::2, 0]]
            c.check("sequences kept", (b.data[::2] == b.data[1::2]).all())
        else:
            xs = [int(x) for x in b.reshape(len(b), -1)[:, 0]] if len(b) else []
            c.check("kind kept", b.shape[1:] == seq.shape[1:])
        c.check("batch size", len(xs) == (size if q < len(batches) - 1 else n - size * (len(batches) - 1)))
        got += xs
    c.check("every item exactly once", sorted(got) == ids)
    if not shuffle:
        c.check("order kept", got == ids)


@P.unit("things without a length are rejected", secs=60)
def _(c):
    ops = c.use_ops()
    c.raises("minibatch", ValueError, lambda: ops.minibatch(2, iter([1, 2])))
    c.raises("multibatch", ValueError, lambda: ops.multibatch(2, [1, 2], iter([1, 2])))
