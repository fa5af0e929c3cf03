"""C18: hashed and sparse features address valid rows and sum them correctly."""
from vc.spec import Property

P = Property("C18", explanation=(
    "HashEmbed on the extracted NumpyOps and SparseLinear on its extracted Cython code are proved, for tables of any size, batches of any size and any keys, to "
    "return the sum of the addressed rows and to add the gradient to exactly those rows, with multiplicity; every table access is an obligation to stay inside. "
    "The hash functions enter the layers as functions of key and seed; their bodies are proved equal to the published MurmurHash3 on bit-vectors."),
    assumptions=["C integers do not overflow (tables have fewer than 2^31 entries) and floats are reals", "keys are non-negative 64-bit integers",
                 "get_dropout_mask draws a mask of the requested width (its values are arbitrary)"],
    bounded=[])


@P.unit("hash functions", conc=False)
def _(c):
    from vc import words
    for what, run in (("table keys", words.check_hash128), ("sparse features", words.check_hash32)):
        try:
            obligations = run()
        except Exception as e:
            c.fail("%s: supported" % what, "hash function not in the supported subset: %s" % e)
            continue
        for name, ok, msg in obligations:
            c.ok("%s: %s" % (what, name)) if ok else c.fail("%s: %s" % (what, name), msg)


def word(c, key, seed, j):
    if c.sym:
        from vc import native
        return native.hashword(key, seed, j)
    from vc import words
    return words.hash128(int(key), int(seed))[j]


def wide(c, keys):
    if not c.sym and c.flag("wide"):
        keys *= c.np.uint64(0x9E3779B97F4A7C15)


@P.unit("hash embedding", secs=300)
def _(c):
    from thinc.layers import HashEmbed
    from contracts.common import attach
    ops = c.native
    c.use_ops(ops)
    nV, nO, N = c.dim("nV", 1), c.dim("nO"), c.dim("N")
    seed = c.int("seed", 0, 2**32 - 1)
    drop = c.pick("dropout", [None, 0.0, 0.5])
    col = c.flag("column")
    train = c.flag("train")
    K = c.dim("K", 1) if col else None
    k = c.idx("k", K) if col else None
    X = c.array("X", N, K, dtype="uint64", lo=0) if col else c.array("X", N, dtype="uint64", lo=0)
    wide(c, X)
    key = (lambda n: c.at(X, n, k)) if col else (lambda n: c.at(X, n))
    m = HashEmbed(nO, nV, seed=seed, column=k, dropout=drop)
    node = m.layers[1] if col else m
    E = c.array("E", nV, nO)
    attach(c, m, [(node, "E", E)])
    for n in m.walk():
        n.ops = ops
    before = c.flag("gradient present")
    if before:
        G = c.array("G", nV, nO)
        node.set_grad("E", G)
        old = c.value(G)
    mask = c.array("mask", nO) if drop and train else None
    asked = []
    ops.get_dropout_mask = lambda shape, rate: asked.append((shape, rate)) or mask
    try:
        snap = c.snap(X, E)
        Y, back = m(X, is_train=train)
        c.frame("forward leaves keys and table unmodified", snap)
        scale = (lambda o: c.at(mask, o)) if mask is not None else (lambda o: 1)
        row = lambda n, j: word(c, key(n), seed, j) % nV
        # the mask applies to a non-empty batch only
        c.eq_build("sum of the four addressed rows", Y, (N, nO), lambda n, o: scale(o) * sum(c.at(E, row(n, j), o) for j in range(4)))
        dY = c.array("dY", N, nO)
        snap += c.snap(dY)
        dX = back(dY)
        c.frame("backward leaves keys, table and incoming gradient unmodified", snap)
        c.eq_build("gradient goes to exactly the rows read", node.get_grad("E"), (nV, nO),
                   lambda v, o: (c.at(old, v, o) if before else 0)
                   + sum(c.sum(N, lambda n: c.ite(row(n, j) == v, lambda: scale(o) * c.at(dY, n, o), 0)) for j in range(4)))
        c.eq_build("no gradient for keys", dX, (N, K) if col else (N,), lambda *i: 0)
    finally:
        del ops.get_dropout_mask


def sparse(c):
    if not c.sym:
        from thinc.layers import sparselinear
        return sparselinear
    from vc import nativeops, native
    return nativeops.load("layers/sparselinear", override=(("MurmurHash3_x86_32_uint64", native.hash32),))


def h32(c, key, seed):
    if c.sym:
        from vc import native
        return native.hash32(key, seed)
    from vc import words
    return words.hash32(int(key), seed)


@P.unit("sparse linear", secs=300)
def _(c):
    from contracts.common import lengths, offsets
    S = sparse(c)
    ops = c.native
    c.use_ops(ops)
    B, nO, length = c.dim("B"), c.dim("nO"), c.dim("length", 1)
    v1 = c.flag("v1")
    m = (S.SparseLinear if v1 else S.SparseLinear_v2)(nO, length)
    m.ops = ops
    L = lengths(c, B)
    total = offsets(c, L, B)
    keys = c.array("keys", total, dtype="uint64", lo=0)
    wide(c, keys)
    values = c.array("values", total)
    W, b = c.array("W", nO * length), c.array("b", nO)
    m.set_param("W", W)
    m.set_param("b", b)
    snap = c.snap(keys, values, L, W, b)
    Y, back = m((keys, values, L), c.flag("train"))
    c.frame("forward leaves features and parameters unmodified", snap)
    if v1:
        return  # (v1 indexing is documented as invalid; what is required of it is memory safety)
    at = lambda i, s, o: o * length + h32(c, c.at(keys, i), s) % length
    start = lambda n: offsets(c, L, n)
    c.eq_build("weighted sum of the hashed features", Y, (B, nO),
               lambda n, o: c.at(b, o) + c.sum(c.at(L, n), lambda i: c.at(values, start(n) + i) * (c.at(W, at(start(n) + i, 0, o)) + c.at(W, at(start(n) + i, 1, o)))))
    dY = c.array("dY", B, nO)
    snap += c.snap(dY)
    back(dY)
    c.frame("backward leaves features, parameters and incoming gradient unmodified", snap)
    c.eq_build("bias gradient", m.get_grad("b"), (nO,), lambda o: c.sum(B, lambda n: c.at(dY, n, o)))
    g = lambda q, n, i, o: c.at(dY, n, o) * c.at(values, start(n) + i) * (c.ite(at(start(n) + i, 0, o) == q, 1, 0) + c.ite(at(start(n) + i, 1, o) == q, 1, 0))
    c.eq_build("weight gradient goes to exactly the weights read", m.get_grad("W"), (nO * length,),
               lambda q: c.sum(B, lambda n: c.sum(c.at(L, n), lambda i: c.sum(nO, lambda o: g(q, n, i, o)))))
