"""C12: native kernels compute their contract and stay inside the arrays they were given."""
from vc.spec import Property


def word(c, key, seed, j):
    """word j of the 128-bit MurmurHash3 (x64) of an 8-byte key"""
    if c.sym:
        from vc import native
        return native.hashword(key, seed, j)
    from vc import words
    return words.hash128(int(key), int(seed))[int(j)]


P = Property(
    "C12",
    explanation="NumpyOps is extracted from numpy_ops.pyx and its kernels from cpu_kernels.hh (clang's AST) on every run. Every read, write, memcpy, memset and "
    "BLAS call is an obligation to stay inside the array the pointer came from; a path on which it would leave the array is explored and reported. Results are "
    "proved for arrays of any size and any index values.",
    assumptions=["BLAS gemm/axpy/scal per their mathematical definition; they do not access anything but the stated rows",
                 "C integers do not overflow and floats are reals", "Cython's argument checks for typed buffers (dtype, rank, contiguity, None) as documented by Cython",
                 "murmurhash.mrmr.hash64 (third party) is a function of the bytes it is given"],
    bounded=[])

FLOATS = ["float32", "float64"]


@P.unit("matrix product", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    ta, tb = c.flag("trans1"), c.flag("trans2")
    M, K, N = c.dim("M"), c.dim("K"), c.dim("N")
    lay = c.pick("layout", ["c", "fx", "fy"])
    sx, sy = ((K, M) if ta else (M, K)), ((N, K) if tb else (K, N))
    x = c.array("x", *sx[::-1], dtype=dt).T if lay == "fx" else c.array("x", *sx, dtype=dt)
    y = c.array("y", *sy[::-1], dtype=dt).T if lay == "fy" else c.array("y", *sy, dtype=dt)
    kind = c.pick("out", ["none", "c", "f"])
    out = None if kind == "none" else c.array("out", M, N, dtype=dt) if kind == "c" else c.array("out", N, M, dtype=dt).T
    snap = c.snap(x, y)
    r = ops.gemm(x, y, out=out, trans1=ta, trans2=tb)
    c.frame("factors unmodified", snap)

    def want(i, j):
        return c.sum(K, lambda k: (c.at(x, k, i) if ta else c.at(x, i, k)) * (c.at(y, j, k) if tb else c.at(y, k, j)))

    c.eq_build("product", r, (M, N), want)
    if out is not None:
        c.check("the given array is returned", r is out)
        c.eq_build("the given array holds the product", out, (M, N), want)


@P.unit("matrix product of arrays that do not fit", secs=200)
def _(c):
    ops = c.native
    ta, tb = c.flag("trans1"), c.flag("trans2")
    M, K, N = c.dim("M"), c.dim("K"), c.dim("N")
    how = c.pick("fault", ["inner", "rows of out", "columns of out", "rank of out", "dtype", "dtype of out", "rank of x", "rank of y"])
    K2 = c.dim("K2") if how == "inner" else K
    if how == "inner":
        c.assume(c.not_(K2 == K))
    sx, sy = ((K, M) if ta else (M, K)), ((N, K2) if tb else (K2, N))
    x = c.array("x", *(sx if how != "rank of x" else sx[:1]), dtype="float32")
    y = c.array("y", *(sy if how != "rank of y" else sy + sy[:1]), dtype="float64" if how == "dtype" else "float32")
    out = None
    if "out" in how:
        M2, N2 = c.dim("M2"), c.dim("N2")
        if how == "rows of out":
            c.assume(c.not_(M2 == M))
        elif how == "columns of out":
            c.assume(c.not_(N2 == N))
        else:
            M2, N2 = M, N
        out = c.array("out", M2, N2, dtype="float64" if how == "dtype of out" else "float32") if how != "rank of out" else c.array("out", M2)
    c.raises("refused", ValueError, lambda: ops.gemm(x, y, out=out, trans1=ta, trans2=tb))


@P.unit("maxout", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    B, O = c.dim("B"), c.dim("O")
    Pn = c.pick("pieces", [1, 2, 3, 0]) or c.dim("P", 4)
    X = c.array("X", B, O, Pn, dtype=dt, ties=True)
    snap = c.snap(X)
    best, which = ops.maxout(X)
    c.frame("input unmodified", snap)
    c.eq_build("best = max over pieces", best, (B, O), lambda b, o: c.max(Pn, lambda p: c.at(X, b, o, p), steps=True))
    c.eq_build("which = first piece attaining it", which, (B, O), lambda b, o: c.argmax(Pn, lambda p: c.at(X, b, o, p), steps=True))


@P.unit("maxout of no pieces", secs=60)
def _(c):
    ops = c.native
    B, O = c.dim("B", 1), c.dim("O", 1)
    X = c.array("X", B, O, 0)
    c.raises("refused", (IndexError, ValueError), lambda: ops.maxout(X))


@P.unit("backprop_maxout", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    B, O, Pn = c.dim("B"), c.dim("O"), c.dim("P")
    D = c.array("D", B, O, dtype=dt)
    which = c.array("which", B, O, dtype="int32", lo=0, fact=lambda x: x < Pn)
    snap = c.snap(D, which)
    dX = ops.backprop_maxout(D, which, Pn)
    c.frame("inputs unmodified", snap)
    c.eq_build("gradient goes to the selected piece", dX, (B, O, Pn), lambda b, o, p: c.ite(c.at(which, b, o) == p, lambda: c.at(D, b, o), 0))


@P.unit("backprop_maxout of a bad selection", secs=200)
def _(c):
    ops = c.native
    B, O, Pn = c.dim("B"), c.dim("O"), c.dim("P")
    how = c.pick("fault", ["piece", "rows", "columns"])
    B2, O2 = (c.dim("B2") if how == "rows" else B), (c.dim("O2") if how == "columns" else O)
    D = c.array("D", B, O)
    which = c.array("which", B2, O2, dtype="int32", lo=-3, hi=9)
    if how == "rows":
        c.assume(c.not_(B == B2))
    elif how == "columns":
        c.assume(c.not_(O == O2))
    else:
        w = c.at(which, c.idx("b", B), c.idx("o", O))
        c.assume(c.or_(w < 0, w >= Pn))
    c.raises("refused", (IndexError, ValueError), lambda: ops.backprop_maxout(D, which, Pn))


@P.unit("gather_add", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    it = c.pick("index type", ["int32", "uint32"])
    Tn, O, B, K = c.dim("T"), c.dim("O"), c.dim("B"), c.dim("K")
    c.assume(c.or_(Tn > 0, B == 0, K == 0))  # (otherwise no index exists)
    table = c.array("table", Tn, O, dtype=dt)
    idx = c.array("idx", B, K, dtype=it, lo=0, fact=lambda x: x < Tn)
    snap = c.snap(table, idx)
    Y = ops.gather_add(table, idx)
    c.frame("inputs unmodified", snap)
    c.eq_build("sum of the addressed rows", Y, (B, O), lambda b, o: c.sum(K, lambda k: c.at(table, c.at(idx, b, k), o)))


@P.unit("gather_add of a bad index", secs=200)
def _(c):
    ops = c.native
    Tn, O, B, K = c.dim("T"), c.dim("O", 1), c.dim("B"), c.dim("K")
    table = c.array("table", Tn, O)
    idx = c.array("idx", B, K, dtype="int32", lo=-3, hi=9)
    x = c.at(idx, c.idx("b", B), c.idx("k", K))
    c.assume(c.or_(x < 0, x >= Tn))
    c.raises("refused", IndexError, lambda: ops.gather_add(table, idx))


@P.unit("scatter_add", secs=200)
def _(c):
    ops = c.native
    Tn, O, B = c.dim("T"), c.dim("O"), c.dim("B")
    dt = c.pick("dtype", FLOATS)
    it = c.pick("index type", ["int32", "int64"])
    table = c.array("table", Tn, O, dtype=dt)
    idx = c.array("idx", B, dtype=it, fact=lambda x: c.and_(x >= -Tn, x < Tn))
    V = c.array("V", B, O, dtype=dt)
    old = c.value(table)
    snap = c.snap(idx, V)
    ops.scatter_add(table, idx, V)
    c.frame("indices and values unmodified", snap)

    def want(t, o):
        return c.at(old, t, o) + c.sum(B, lambda b: c.ite(c.ite(c.at(idx, b) < 0, c.at(idx, b) + Tn, c.at(idx, b)) == t, lambda: c.at(V, b, o), 0))

    c.eq_build("every value is added to its row", table, (Tn, O), want)


@P.unit("scatter_add of a bad index", secs=200)
def _(c):
    ops = c.native
    Tn, O, B = c.dim("T"), c.dim("O"), c.dim("B")
    table = c.array("table", Tn, O)
    idx = c.array("idx", B, dtype="int32", lo=-9, hi=9)
    V = c.array("V", B, O)
    x = c.at(idx, c.idx("b", B))
    c.assume(c.or_(x < -Tn, x >= Tn))
    c.raises("refused", IndexError, lambda: ops.scatter_add(table, idx, V))


@P.unit("scatter_add of values that do not fit", secs=200)
def _(c):
    ops = c.native
    Tn, O, B = c.dim("T"), c.dim("O", 2), c.dim("B", 2)
    how = c.pick("fault", ["rows", "columns"])
    table = c.array("table", Tn, O)
    idx = c.array("idx", B, dtype="int32", lo=0, fact=lambda x: x < Tn)
    B2, O2 = (c.dim("B2", 2) if how == "rows" else B), (c.dim("O2", 2) if how == "columns" else O)
    c.assume(c.not_(B2 == B) if how == "rows" else c.not_(O2 == O))
    V = c.array("V", B2, O2)
    c.raises("refused", (ValueError, IndexError), lambda: ops.scatter_add(table, idx, V))


def layouts(c, name, *shape, dtype="float32"):
    """an array in C order, or a transposed view (which no kernel may treat as C order)"""
    lay = c.pick(name + " layout", ["c", "f"])
    return c.array(name, *shape, dtype=dtype) if lay == "c" else c.array(name, *shape[::-1], dtype=dtype).T


@P.unit("relu", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    n, m = c.dim("n"), c.dim("m")
    X = layouts(c, "X", n, m, dtype=dt)
    old = c.value(X)
    inplace = c.flag("inplace")
    Y = ops.relu(X, inplace=inplace)
    c.eq_build("max(x, 0)", Y, (n, m), lambda i, j: c.ite(c.at(old, i, j) > 0, lambda: c.at(old, i, j), 0))
    c.eq("the argument changes only in place", X, Y if inplace else old)


@P.unit("backprop_relu", secs=200)
def _(c):
    ops = c.native
    dt, dt2 = c.pick("dtypes", [("float32", "float32"), ("float64", "float64"), ("float32", "float64")])
    n, m = c.dim("n"), c.dim("m")
    dY, Y = layouts(c, "dY", n, m, dtype=dt), layouts(c, "Y", n, m, dtype=dt2)
    old, snap = c.value(dY), c.snap(Y)
    inplace = c.flag("inplace")
    dX = ops.backprop_relu(dY, Y, inplace=inplace)
    c.frame("output unmodified", snap)
    c.eq_build("gradient where the output is positive", dX, (n, m), lambda i, j: c.ite(c.at(Y, i, j) > 0, lambda: c.at(old, i, j), 0))
    c.eq("the argument changes only in place", dY, dX if inplace else old)


@P.unit("gradients of another shape", secs=200)
def _(c):
    ops = c.native
    what = c.pick("operation", ["backprop_relu", "backprop_mish"])
    how = c.pick("fault", ["rows", "columns", "rank"])
    n, m, n2, m2 = c.dim("n"), c.dim("m"), c.dim("n2"), c.dim("m2")
    c.assume(c.not_(n == n2) if how == "rows" else c.not_(m == m2))
    dY = c.array("dY", n, m) if how != "rank" else c.array("dY", n)
    Y = c.array("Y", n2 if how == "rows" else n, m2 if how == "columns" else m)
    c.raises("refused", ValueError, lambda: getattr(ops, what)(dY, Y))


@P.unit("mish", secs=200)
def _(c):
    ops = c.native
    dt = c.pick("dtype", FLOATS)
    n, m = c.dim("n"), c.dim("m")
    X = layouts(c, "X", n, m, dtype=dt)
    t = c.real("threshold", lo=-30.0, hi=30.0)
    old = c.value(X)
    inplace = c.flag("inplace")
    Y = ops.mish(X, threshold=t, inplace=inplace)
    c.eq_build("x * tanh(log(1 + exp(x))), x itself from the threshold on", Y, (n, m),
               lambda i, j: c.ite(c.at(old, i, j) >= t, lambda: c.at(old, i, j), lambda: c.at(old, i, j) * c.tanh(c.log(1 + c.exp(c.at(old, i, j))))))
    c.eq("the argument changes only in place", X, Y if inplace else old)


@P.unit("backprop_mish", secs=200)
def _(c):
    ops = c.native
    dt, dt2 = c.pick("dtypes", [("float32", "float32"), ("float64", "float64")])
    n, m = c.dim("n"), c.dim("m")
    dY, X = layouts(c, "dY", n, m, dtype=dt), layouts(c, "X", n, m, dtype=dt2)
    t = c.real("threshold", lo=-30.0, hi=30.0)
    old, snap = c.value(dY), c.snap(X)
    inplace = c.flag("inplace")
    dX = ops.backprop_mish(dY, X, threshold=t, inplace=inplace)
    c.frame("input unmodified", snap)

    def d(x):
        e = c.exp(x)
        omega = 4 * (x + 1) + 4 * e * e + e * e * e + e * (4 * x + 6)
        delta = 2 * e + e * e + 2
        return e * omega / (delta * delta)

    c.eq_build("derivative of mish below the threshold, 1 from there on", dX, (n, m),
               lambda i, j: c.ite(c.at(X, i, j) >= t, lambda: c.at(old, i, j), lambda: c.at(old, i, j) * d(c.at(X, i, j))))
    c.eq("the argument changes only in place", dY, dX if inplace else old)


@P.unit("adam", secs=300)
def _(c):
    ops = c.native
    whole = c.flag("at most one block")
    n = c.dim("n")
    if whole:
        c.assume(n <= 64)
    W, G, M1, M2 = c.array("W", n), c.array("G", n), c.array("m1", n), c.array("m2", n, lo=0)
    b1, b2, eps, lr = c.real("b1", 0.01, 0.99), c.real("b2", 0.01, 0.99), c.real("eps", lo=1e-3), c.real("lr", lo=0)
    w, g, p, q = (c.value(a) for a in (W, G, M1, M2))
    r = ops.adam(W, G, M1, M2, b1, b2, eps, lr, 1.0)
    m1 = lambda i: b1 * c.at(p, i) + (1 - b1) * c.at(g, i)
    m2 = lambda i: b2 * c.at(q, i) + (1 - b2) * c.at(g, i) * c.at(g, i)
    c.check("the arrays are returned", r[0] is W and r[2] is M1 and r[3] is M2)
    if c.sym and not whole:
        return  # (that every access is inside the arrays is proved for any size; the values symbolically up to one block of 64)
    c.eq_build("first moment", M1, (n,), m1)
    c.eq_build("second moment", M2, (n,), m2)
    c.eq_build("gradient reset", G, (n,), lambda i: 0)
    c.eq_build("weights", W, (n,), lambda i: c.at(w, i) - lr * m1(i) / (c.sqrt(m2(i)) + eps))


@P.unit("adam on arrays of different sizes", secs=100)
def _(c):
    ops = c.native
    n, k = c.dim("n"), c.dim("k")
    c.assume(c.not_(n == k))
    which = c.pick("argument", [1, 2, 3])
    a = [c.array("a%d" % j, k if j == which else n) for j in range(4)]
    c.raises("refused", ValueError, lambda: ops.adam(*a, 0.9, 0.99, 0.001, 0.1, 1.0))


@P.unit("hash function", conc=False)
def _(c):
    """the word-level body of MurmurHash3_x86_128_uint64, for every key and seed, on bit-vectors"""
    from vc import words
    try:
        obligations = words.check_hash128()
    except Exception as e:
        return c.fail("supported", "hash function not in the supported subset: %s" % e)
    for name, ok, msg in obligations:
        c.ok(name) if ok else c.fail(name, msg)


def wide(c, keys):
    """(in a concrete run) use the whole range of 64-bit keys"""
    if not c.sym and c.flag("wide"):
        keys *= c.np.uint64(0x9E3779B97F4A7C15)


@P.unit("hash", secs=100)
def _(c):
    ops = c.native
    n = c.dim("n")
    ids = c.array("ids", n, dtype="uint64", lo=0)
    seed = c.int("seed", 0, 2**32 - 1)
    wide(c, ids)
    snap = c.snap(ids)
    H = ops.hash(ids, seed)
    c.frame("keys unmodified", snap)
    c.check("dtype", H.dtype == "uint32")
    c.check("shape", tuple(H.shape) == (n, 4))
    i = c.idx("i", n)
    for j in range(4):
        c.eq("word %d" % j, H[i, j] if not c.sym else c.at(H, i, j), word(c, c.at(ids, i), seed, j))


@P.unit("ngrams", secs=100)
def _(c):
    ops = c.native
    n = c.dim("n")
    k = c.int("k", -1, 6)
    keys = c.array("keys", n, dtype="uint64", lo=0)
    wide(c, keys)
    snap = c.snap(keys)
    G = ops.ngrams(k, keys)
    c.frame("keys unmodified", snap)
    c.check("dtype", G.dtype == "uint64")
    if c.under(c.or_(k < 1, n < k)):
        c.check("empty", tuple(G.shape) == (0,))
        return
    c.check("one per window", tuple(G.shape) == (n - k + 1,))
    if c.sym:
        from vc import native
        c.eq_build("hash of each window", G, (n - k + 1,), lambda i: native.hashed(lambda x: c.at(keys, i + x), k, 0))
        return
    i, j = c.idx("i", n - k + 1), c.idx("j", n - k + 1)
    same = all(int(keys[i + x]) == int(keys[j + x]) for x in range(k))
    c.check("equal windows hash equally, different ones differently", (int(G[i]) == int(G[j])) == same)


@P.unit("position_encode", secs=100)
def _(c):
    ops = c.native
    N = c.dim("N")
    D = c.pick("D", [0, 1, 2, 3, 4]) if c.flag("narrow") else c.dim("D")
    period = c.int("period", 2, 20000)
    out = c.array("out", N, D) if c.flag("into") else None
    r = ops.position_encode(N, D, period, out=out)
    if out is not None:
        c.check("the given array is returned", r is out)
    c.check("shape", tuple(r.shape) == (N, D))
    if not c.sym:
        from math import sin, cos
        c.eq_build("sine and cosine of the scaled position", r[:, : D - D % 2], (N, D - D % 2),
                   lambda i, j: (cos if j % 2 else sin)(i / period ** (2 * (j - j % 2) / D)))


@P.unit("position_encode into an array that does not fit", secs=100)
def _(c):
    ops = c.native
    N, D = c.dim("N"), c.dim("D")
    how = c.pick("fault", ["rows", "columns", "rank", "dtype", "order"])
    N2, D2 = (c.dim("N2") if how == "rows" else N), (c.dim("D2") if how == "columns" else D)
    if how == "rows":
        c.assume(c.not_(N == N2))
    elif how == "columns":
        c.assume(c.not_(D == D2))
    elif how == "order":
        c.assume(N > 1)
        c.assume(D > 1)
    if how == "rank":
        out = c.array("out", N)
    elif how == "order":
        out = c.array("out", D, N).T
    else:
        out = c.array("out", N2, D2, dtype="float64" if how == "dtype" else "float32")
    c.raises("refused", (ValueError, AssertionError), lambda: ops.position_encode(N, D, 10000, out=out))
