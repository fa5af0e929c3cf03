"""C17: loss objects return the documented loss and its exact gradient."""
from vc.spec import Property

P = Property("C17", explanation=(
    "Every loss object is executed on arbitrary guesses and targets (any batch size, any class count, every documented label encoding) and its gradient and "
    "loss are proved equal to the documented formulas; a row whose target is missing is proved to contribute zero, a guess equal to its target to have a zero "
    "gradient, and the guesses and targets passed in to be unmodified.  The gradient of the cosine distance is proved to be the derivative of its loss."),
    assumptions=["float arithmetic is treated as exact real arithmetic"],
    bounded=["lists of string labels: at most two targets over two or three label names (every combination of plain, negated and missing labels)"])


def grads(c, loss, G, T):
    """the three entry points agree"""
    g, l = loss(G, T)
    g2 = loss.get_grad(G, T)
    l2 = loss.get_loss(G, T)
    c.eq("get_grad agrees", g2, g)
    c.eq("get_loss agrees", l2, l)
    return g, l


def unit_array(c, name, *shape):
    return c.array(name, *shape, lo=0, hi=1, fact=(lambda x: c.and_(x >= 0, x <= 1)) if c.sym else None, ties=True)


def make(c, **kw):
    from thinc.loss import CategoricalCrossentropy
    norm = c.flag("normalize")
    return CategoricalCrossentropy(normalize=norm, **kw), norm


def norm_of(c, norm, n):
    return n if norm else 1


def verify(c, loss, norm, G, T, B, C, target, live):
    """target(b, k) / live(b, k): the documented one-hot target and the 0/1 weight of a cell"""
    snaps = c.snap(G, T)
    g, l = grads(c, loss, G, T)
    c.frame("guesses and targets unmodified", snaps)
    n = norm_of(c, norm, B)
    cell = lambda b, k: (c.at(G, b, k) - target(b, k)) * live(b, k) / n
    c.eq_build("gradient", g, (B, C), cell)
    c.eq("loss", l, c.sum(B, lambda b: c.sum(C, lambda k: cell(b, k) * cell(b, k))))
    return g


@P.unit("cross-entropy: dense targets", secs=200)
def _(c):
    named = c.flag("names")
    B = c.dim("B", 1)
    C = 3 if named else c.dim("C", 1)
    miss = c.pick("missing_value", [None, 0, 1])
    loss, norm = make(c, missing_value=miss, names=["a", "b", "c"] if named else None)
    G = unit_array(c, "G", B, C)
    T = unit_array(c, "T", B, C)
    c.assume(C >= 2)

    def live(b, k):
        if miss is None:
            return 1
        return c.ite(c.argmax(C, lambda q: c.at(T, b, q)) == miss, 0, 1)
    verify(c, loss, norm, G, T, B, C, lambda b, k: c.at(T, b, k), live)


@P.unit("cross-entropy: values outside the interval", secs=200)
def _(c):
    B, C = c.dim("B"), c.dim("C", 1)
    named = c.flag("names")
    if named:
        C = 2
    loss, norm = make(c, names=["a", "b"] if named else None)
    G = c.array("G", B, C)
    T = c.array("T", B, C)
    snaps = c.snap(G, T)
    r, err = c.run(lambda: loss.get_grad(G, T), ValueError)
    c.frame("guesses and targets unmodified", snaps)
    if err is not None:
        c.ok("rejected")
        return
    b, k = c.int("b", 0), c.int("k", 0)
    c.assume(c.and_(b < B, k < C))
    g = c.at(G, b, k)
    c.check("accepted guesses lie in the unit interval", c.and_(g >= 0, g <= 1))


@P.unit("cross-entropy: integer targets", secs=300)
def _(c):
    kind = c.pick("kind", ["array", "list"])
    B, C = c.dim("B", 1), c.dim("C", 2)
    smooth = c.real("smoothing", lo=0) if c.flag("smooth") else 0.0
    if type(smooth) is not float or smooth:
        c.assume(c.and_(smooth > 0, smooth < (C - 1) / C))
    miss = c.int("missing_value", 0) if c.flag("missing") else None
    if miss is not None:
        c.assume(miss < C)
    loss, norm = make(c, missing_value=miss, label_smoothing=smooth)
    G = unit_array(c, "G", B, C)
    T = c.array("T", B, dtype="int32", lo=0, hi=4, fact=(lambda x: c.and_(x >= 0, x < C))) if c.sym else None
    if T is None:
        import numpy
        T = c._log("T", numpy.array([c.rng.randrange(C) for _ in range(B)], dtype="int32"))
    arg = T
    if kind == "list":
        arg = c.lst("TL", B, lambda i: c.at(T, i)) if c.sym else [int(x) for x in T]

    def target(b, k):
        return c.ite(c.at(T, b) == k, 1 - smooth, smooth / (C - 1))

    def live(b, k):
        return 1 if miss is None else c.ite(c.at(T, b) == miss, 0, 1)
    verify(c, loss, norm, G, arg, B, C, target, live)


@P.unit("cross-entropy: string targets", secs=300, paths=3000, split=4)
def _(c):
    names = c.pick("names", [["a", "b"], ["a", "b", "c"]])
    neg = c.pick("prefix", [None, "!"])
    miss = c.pick("missing", [None, ""])
    B = c.pick("B", [1, 2])
    options = list(names)
    if neg:
        options += ["!" + n for n in names]
    options.append(miss)
    T = [c.pick("t%d" % b, options) for b in range(B)]
    C = len(names)
    smooth = c.real("smoothing", lo=0) if c.flag("smooth") else 0.0
    if type(smooth) is not float or smooth:
        c.assume(c.and_(smooth > 0, smooth < (C - 1) / C))
    loss, norm = make(c, names=names, neg_prefix=neg, missing_value=miss, label_smoothing=smooth)
    G = unit_array(c, "G", B, C)
    before = list(T)

    def target(b, k):
        if neg and before[b] and before[b].startswith(neg):
            return 0
        return 1 - smooth if before[b] == names[k] else smooth / (C - 1)

    def live(b, k):
        t = before[b]
        if t == miss:
            return 0
        if t.startswith("!"):
            return 1 if t[1:] == names[k] else 0
        return 1
    g, l = grads(c, loss, G, T)
    c.check("targets unmodified", T == before)
    n = norm_of(c, norm, B)
    tot = 0
    for b in range(B):
        for k in range(C):
            want = (c.at(G, b, k) - target(b, k)) * live(b, k) / n
            c.eq("gradient", c.at(g, b, k), want)
            tot = tot + want * want
    c.eq("loss", l, tot)


@P.unit("cross-entropy: guess equal to the target", secs=100)
def _(c):
    B, C = c.dim("B", 1), c.dim("C", 2)
    loss, norm = make(c)
    T = unit_array(c, "T", B, C)
    g, l = loss(T, T)
    c.eq_build("gradient is zero", g, (B, C), lambda b, k: 0, tol=0)
    c.eq("loss is zero", l, 0)


@P.unit("mismatched shapes are rejected", secs=100)
def _(c):
    from thinc.loss import L2Distance, CosineDistance, SequenceCategoricalCrossentropy
    kind = c.pick("kind", ["cc", "l2", "cos", "seq"])
    if kind == "seq":
        n, m = c.pick("n", [0, 1, 2]), c.pick("m", [0, 1, 2])
        c.assume(n != m)
        G = [unit_array(c, "G%d" % i, 2, 2) for i in range(n)]
        T = [unit_array(c, "T%d" % i, 2, 2) for i in range(m)]
        loss = SequenceCategoricalCrossentropy()
        c.raises("different numbers of sequences are rejected", ValueError, lambda: loss.get_grad(G, T))
        return
    B, C, B2, C2 = c.dim("B", 1), c.dim("C", 1), c.dim("B2", 1), c.dim("C2", 1)
    c.assume(c.or_(B != B2, C != C2))
    loss = make(c)[0] if kind == "cc" else (L2Distance() if kind == "l2" else CosineDistance())
    G, T = unit_array(c, "G", B, C), unit_array(c, "T", B2, C2)
    c.raises("gradient is rejected", ValueError, lambda: loss.get_grad(G, T))
    c.raises("loss is rejected", ValueError, lambda: loss.get_loss(G, T))


@P.unit("sequence cross-entropy", secs=200)
def _(c):
    from thinc.loss import SequenceCategoricalCrossentropy
    norm = c.flag("normalize")
    C = c.dim("C", 2)
    loss = SequenceCategoricalCrossentropy(normalize=norm)
    n = c.dim("n")
    if c.sym:
        unit = lambda x: c.and_(x >= 0, x <= 1)
        g_ = lambda i: c.farray("g", i, c.fint("rows", i, 0), C, fact=unit)
        t_ = lambda i: c.farray("t", i, c.fint("rows", i, 0), C, fact=unit)
        G, T = c.lst("G", n, g_), c.lst("T", n, t_)
    else:
        rows = [c.rng.choice([0, 1, 2, 3]) for _ in range(n)]
        G = [unit_array(c, "g%d" % i, rows[i], C) for i in range(n)]
        T = [unit_array(c, "t%d" % i, rows[i], C) for i in range(n)]
        g_, t_ = G.__getitem__, T.__getitem__
    entry = c.pick("entry", ["call", "separate"])
    if entry == "call":
        gs, l = loss(G, T)
    else:
        gs, l = loss.get_grad(G, T), loss.get_loss(G, T)
    c.check("one gradient per sequence", c.len(gs) == n)
    m = norm_of(c, norm, n)
    tot = c.sum(n, lambda i: c.sum(g_(i).shape[0], lambda b: c.sum(C, lambda k: ((c.at(g_(i), b, k) - c.at(t_(i), b, k)) / m) ** 2)))
    c.eq("loss", l, tot)
    i = c.int("i", 0)
    c.assume(i < n)
    x, t = g_(i), t_(i)
    b, k = c.int("b", 0), c.int("k", 0)
    c.assume(c.and_(b < x.shape[0], k < C))
    c.eq("gradient", c.at(gs[i], b, k), (c.at(x, b, k) - c.at(t, b, k)) / m)


@P.unit("squared distance", secs=100)
def _(c):
    from thinc.loss import L2Distance
    norm = c.flag("normalize")
    B, C = c.dim("B", 1), c.dim("C", 1)
    loss = L2Distance(normalize=norm)
    G, T = c.array("G", B, C), c.array("T", B, C)
    snaps = c.snap(G, T)
    g, l = grads(c, loss, G, T)
    c.frame("guesses and targets unmodified", snaps)
    n = norm_of(c, norm, B)
    cell = lambda b, k: (c.at(G, b, k) - c.at(T, b, k)) / n
    c.eq_build("gradient", g, (B, C), cell)
    c.eq("loss", l, c.sum(B, lambda b: c.sum(C, lambda k: cell(b, k) * cell(b, k))))
    g0, l0 = loss(G, G)
    c.eq_build("gradient is zero at the target", g0, (B, C), lambda b, k: 0, tol=0)


@P.unit("cosine distance", secs=200)
def _(c):
    from thinc.loss import CosineDistance
    norm = c.flag("normalize")
    iz = c.flag("ignore_zeros")
    B, C = c.dim("B", 1), c.dim("C", 1)
    loss = CosineDistance(normalize=norm, ignore_zeros=iz)
    # arbitrary vectors other than the single point the 1e-8 offset maps to the origin
    G, T = c.array("G", B, C), c.array("T", B, C)
    snaps = c.snap(G, T)
    g, l = grads(c, loss, G, T)
    c.frame("guesses and targets unmodified", snaps)
    n = norm_of(c, norm, B)
    e = 1e-8
    G1 = lambda b, k: c.at(G, b, k) + e
    T1 = lambda b, k: c.at(T, b, k) + e
    nG = lambda b: c.sqrt(c.sum(C, lambda k: G1(b, k) ** 2))
    nT = lambda b: c.sqrt(c.sum(C, lambda k: T1(b, k) ** 2))
    cos = lambda b: c.sum(C, lambda k: G1(b, k) * T1(b, k)) / (nG(b) * nT(b))
    zero = (lambda b: c.sum(C, lambda k: abs(c.at(T, b, k))) == 0) if iz else (lambda b: False)
    c.eq_build("gradient", g, (B, C), lambda b, k: c.ite(zero(b), 0, -(T1(b, k) / (nG(b) * nT(b)) - cos(b) * G1(b, k) / nG(b) ** 2)) / n)
    c.eq("loss", l, c.sum(B, lambda b: c.ite(zero(b), 0, abs(cos(b) - 1)) / n))
