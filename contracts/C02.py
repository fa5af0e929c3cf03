"""C02: dimensions, attributes and references cannot be silently corrupted."""
from vc.spec import Property
from contracts.C01 import model

P = Property("C02", explanation=(
    "The dimension and reference accessors are executed from an arbitrary store (unboundedly many arbitrary entries) with arbitrary names and sizes and "
    "proved to have exactly the documented effect at an arbitrary observed name (inductive step for every history).  Identifiers are proved fresh from an "
    "arbitrary value of the global counter.  Initialisation of every parametrised layer is proved to give parameters of the declared sizes, for all sizes and "
    "every combination of given and inferred dimensions."),
    assumptions=["identifiers: creation is serialised by Model.global_id_lock"],
    bounded=["references: trees of up to 6 nodes, every pair of nodes", "set_dim: 0 to 2 parameters registered",
             "CauchySimilarity, LSTM parameter sizes: random evaluation only for LSTM"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


DIMS = ["nO", "nI", "nP", "width"]


def dimmap(c, label="dims"):
    k = [0]

    def value(key):
        k[0] += 1
        if c.pick("unset%d" % k[0], [True, False]):
            return None
        return c.int("%s%d" % (label, k[0]), 0)

    c.NAMES = DIMS
    return c.map(label, value, keys=DIMS)


@P.unit("dimensions", secs=200)
def _(c):
    from thinc.model import Model
    c.use_ops()
    m = model(c, "m")
    other = model(c, "m")
    m._dims = dimmap(c)
    other._dims = dimmap(c, "odims")
    flags = c.pick("parameters", [{}, {"W": None}, {"W": True}, {"W": None, "b": True}])
    m._has_params = dict(flags)
    n1, n2 = c.name("name1"), c.name("name2")
    v = c.int("value", 0)
    force = c.flag("force")

    def look(mm, n):
        h = mm.has_dim(n)
        if h is True:
            r = mm.get_dim(n)
            c.eq("maybe_get_dim", mm.maybe_get_dim(n), r, 0)
        elif h is None:
            c.raises("unset dimension is an error", ValueError, lambda: mm.get_dim(n))
            c.check("maybe_get_dim of unset", mm.maybe_get_dim(n) is None)
            r = None
        else:
            c.check("has_dim is False", h is False)
            c.raises("undeclared dimension is an error", KeyError, lambda: mm.get_dim(n))
            c.check("maybe_get_dim of undeclared", mm.maybe_get_dim(n) is None)
            r = None
        return h, r

    own, before = look(m, n1), look(m, n2)
    o0 = look(other, n2)
    frozen = any(flags.values())
    err = None
    try:
        if force:
            m.set_dim(n1, v, force=True)
        else:
            m.set_dim(n1, v)
    except (KeyError, ValueError) as e:
        err = type(e)
    if own[0] is False:
        c.check("undeclared dimension cannot be set", err is KeyError)
    elif own[0] is None:
        c.check("unset dimension can be set", err is None)
    else:
        if c.under(own[1] == v):
            c.check("setting to the same value is allowed", err is None)
        elif force and not frozen:
            c.check("forced change without parameters", err is None)
        else:
            c.check("changing a set dimension is an error", err is ValueError)
    after = look(m, n2)
    if err is None and c.under(n1 == n2):
        c.check("set", after[0] is True)
        c.eq("value stored", after[1], v, 0)
    else:
        c.check("presence unchanged", after[0] is before[0])
        if before[0]:
            c.eq("value unchanged", after[1], before[1], 0)
    o1 = look(other, n2)
    c.check("layer of the same name unaffected", o0[0] is o1[0])
    if o0[0]:
        c.eq("layer of the same name unaffected", o0[1], o1[1], 0)


@P.unit("identifiers")
def _(c):
    from thinc.model import Model
    c.use_ops()
    g = c.int("counter", 0)
    saved = Model.global_id
    try:
        Model.global_id = g
        a = model(c, "same")
        b = model(c, "same")
        d = a.copy()
        e = Model("same", a._func)
        ids = [a.id, b.id, d.id, e.id]
        for i in range(4):
            c.check("identifier is new", ids[i] > g)
            for j in range(i):
                c.check("identifiers differ", ids[i] != ids[j])
        c.eq("counter covers all identifiers", c.and_(*[Model.global_id >= x for x in ids]), True, 0)

        class Sub(Model):
            pass

        f = Sub("same", a._func)
        h = model(c, "same")
        c.check("subclasses share the counter", c.and_(f.id != h.id, *[c.and_(f.id != x, h.id != x) for x in ids]))
    finally:
        Model.global_id = saved if not c.sym else 10 ** 6


@P.unit("constructor does not share")
def _(c):
    """two layers built from the same arguments, or from the defaults, share nothing mutable"""
    from thinc.model import Model
    c.use_ops()
    fwd = lambda model, X, is_train: (X, lambda d: d)
    child = model(c, "child")
    n = c.int("n", 1)
    if c.flag("defaults"):
        a, b = Model("a", fwd), Model("b", fwd)
        kw = {}
    else:
        kw = dict(dims={"nO": n, "nI": None}, attrs={"x": n}, refs={"r": child, "q": None}, layers=[child], shims=[], params={"W": None})
        a, b = Model("a", fwd, **kw), Model("b", fwd, **kw)
        c.eq("dimension given", a.get_dim("nO"), n, 0)
        c.check("dimension unset", a.has_dim("nI") is None and a.dim_names == ("nO", "nI"))
        c.eq("attribute given", a.attrs["x"], n, 0)
        c.check("reference given", a.get_ref("r") is child and a.has_ref("q") is None and a.ref_names == ("r", "q"))
        c.check("parameter unset", a.has_param("W") is None and a.param_names == ("W",) and a.grad_names == ())
        c.check("layers", a.layers == [child] and a.shims == [])
    a.attrs["y"] = 1
    a.attrs["x"] = 7
    a._dims["nZ"] = None
    a.layers.append(model(c, "z"))
    a.shims.append("shim")
    a._refs["s"] = None
    a.set_param("V", c.array("V", 2))
    c.check("other layer unaffected", "y" not in b.attrs and "nZ" not in b.dim_names and len(b.layers) == len(kw.get("layers", ())) and not b.shims
            and "s" not in b.ref_names and b.has_param("V") is False)
    if kw:
        c.eq("other layer's attribute", b.attrs["x"], n, 0)
        c.check("caller's arguments unaffected", list(kw["attrs"]) == ["x"] and len(kw["layers"]) == 1 and kw["shims"] == [] and list(kw["refs"]) == ["r", "q"] and list(kw["params"]) == ["W"] and list(kw["dims"]) == ["nO", "nI"])
        c.eq("caller's attributes unaffected", kw["attrs"]["x"], n, 0)
    e = Model("c", fwd)
    c.check("defaults unaffected", e.dim_names == () and e.attrs == {} and e.layers == [] and e.shims == [] and e.ref_names == () and e.param_names == ())


def graph(c, kind):
    """(root, nodes in the tree, nodes outside)"""
    leaf = [model(c, "leaf") for _ in range(3)]
    if kind == "flat":
        r = model(c, "r", leaf)
        ins = [r] + leaf
    elif kind == "deep":
        a = model(c, "a", [leaf[0]])
        b = model(c, "b", [a, leaf[1]])
        r = model(c, "r", [b, leaf[2]])
        ins = [r, b, a] + leaf
    elif kind == "shared":
        a = model(c, "a", [leaf[0]])
        r = model(c, "r", [leaf[0], a, a])
        ins = [r, a, leaf[0]]
    else:
        r = model(c, "r")
        ins = [r]
    return r, ins, [x for x in leaf if x not in ins] + [model(c, "leaf")]


@P.unit("references")
def _(c):
    c.use_ops()
    r, ins, outs = graph(c, c.pick("graph", ["flat", "deep", "shared", "single"]))
    src = c.pick("node", ins)
    reach, todo = [], [src]
    while todo:
        x = todo.pop()
        if not any(x is y for y in reach):
            reach.append(x)
            todo += x.layers
    old = c.pick("old", [None, "unset", "set"])
    if old == "unset":
        src.set_ref("x", None)
        c.check("declared and unset", src.has_ref("x") is None and src.maybe_get_ref("x") is None)
        c.raises("unset reference is an error", ValueError, lambda: src.get_ref("x"))
    elif old == "set":
        src.set_ref("x", reach[-1])
        c.check("stored", src.get_ref("x") is reach[-1])
    else:
        c.check("undeclared", src.has_ref("x") is False and src.maybe_get_ref("x") is None)
        c.raises("undeclared reference is an error", KeyError, lambda: src.get_ref("x"))
    src.set_ref("y", src)
    tgt = c.pick("target", ins + outs + [None])
    if tgt is None:
        src.set_ref("x", None)
        c.check("cleared", src.has_ref("x") is None)
    elif any(tgt is y for y in reach):
        src.set_ref("x", tgt)
        c.check("stored exactly", src.get_ref("x") is tgt and src.maybe_get_ref("x") is tgt and src.has_ref("x") is True)
    else:
        c.raises("reference outside the tree is refused", ValueError, lambda: src.set_ref("x", tgt))
        if old == "set":
            c.check("old reference kept", src.get_ref("x") is reach[-1])
        else:
            c.check("still unset", src.maybe_get_ref("x") is None)
    c.check("other reference unchanged", src.get_ref("y") is src)
    for n in ins:
        if n is not src:
            c.check("other nodes unchanged", n.ref_names == ())


@P.unit("attributes")
def _(c):
    from thinc.model import set_dropout_rate, change_attr_values
    c.use_ops()
    r, ins, outs = graph(c, c.pick("graph", ["flat", "deep", "shared"]))
    v, w = c.real("v"), c.real("w")
    which = c.pick("nodes with the attribute", ["none", "all", "leaves"])
    has = [n for n in ins if which == "all" or (which == "leaves" and not n.layers)]
    for k, n in enumerate(has):
        n.attrs["dropout_rate"] = v
        n.attrs["other"] = k
    how = c.pick("operation", ["set_dropout_rate", "custom name", "change_attr_values", "direct"])
    if how == "set_dropout_rate":
        c.check("returns the model", set_dropout_rate(r, w) is r)
        hit = has
        name = "dropout_rate"
    elif how == "custom name":
        set_dropout_rate(r, w, attrs=["missing", "other"])
        hit, name = has, "other"
    elif how == "change_attr_values":
        change_attr_values(r, {"leaf": {"dropout_rate": w, "nope": 1}, "zzz": {"dropout_rate": 3}})
        hit, name = [n for n in has if n.name == "leaf"], "dropout_rate"
    else:
        hit, name = ([has[-1]] if has else []), "dropout_rate"
        for n in hit:
            n.attrs["dropout_rate"] = w
    for n in ins:
        mine = any(n is x for x in has)
        c.check("no attribute appears or disappears", sorted(n.attrs) == (["dropout_rate", "other"] if mine else []))
        if mine:
            k = [x is n for x in has].index(True)
            ishit = any(n is x for x in hit)
            c.eq("dropout", n.attrs["dropout_rate"], w if ishit and name == "dropout_rate" else v, 0)
            c.eq("other", n.attrs["other"], w if ishit and name == "other" else k, 0)


def layer_cases():
    import thinc.api as A
    lin = {"W": ("nO", "nI"), "b": ("nO",)}
    mx = {"W": ("nO", "nP", "nI"), "b": ("nO", "nP")}
    out = {}
    for n in ("Linear", "Relu", "Sigmoid", "Gelu", "Swish", "Dish", "HardSwish", "HardSwishMobilenet", "Mish", "ReluK", "ClippedLinear", "HardTanh", "HardSigmoid", "Softmax", "Softmax_v2"):
        out[n] = (lambda no, ni, n=n: getattr(A, n)(no, ni), lin)
    out["Maxout"] = (lambda no, ni: A.Maxout(no, ni, nP=3), mx)
    return out


NAMES = ["Linear", "Relu", "Sigmoid", "Gelu", "Swish", "Dish", "HardSwish", "HardSwishMobilenet", "Mish", "ReluK", "ClippedLinear", "HardTanh", "HardSigmoid", "Softmax", "Softmax_v2", "Maxout"]


def shapes(c, m, want, dims):
    for p, ds in want.items():
        c.check("parameter %s is set" % p, m.has_param(p) is True)
        sh = m.get_param(p).shape
        c.check("rank of %s" % p, len(sh) == len(ds))
        for a, d in zip(sh, ds):
            c.eq("size of %s" % p, a, m.get_dim(d) if isinstance(d, str) else d, 0)
    for d, v in dims.items():
        c.eq("dimension %s" % d, m.get_dim(d), v, 0)


@P.unit("initialise dense layers", secs=200)
def _(c):
    ops = c.use_ops()
    name = c.pick("layer", NAMES)
    make, want = layer_cases()[name]
    nO, nI, n = c.dim("nO", 1), c.dim("nI", 1), c.dim("n", 1)
    given = c.pick("given", ["both", "output", "input", "none"])
    m = make(nO if given in ("both", "output") else None, nI if given in ("both", "input") else None)
    X = c.array("X", n, nI) if given in ("output", "none") or c.flag("sample input") else None
    Y = c.array("Y", n, nO) if given in ("input", "none") or c.flag("sample output") else None
    s = c.snap([X, Y])
    m.initialize(X=X, Y=Y)
    shapes(c, m, want, {"nO": nO, "nI": nI})
    c.frame("samples unmodified", s)
    # data of another width is refused (or, for Softmax and Sigmoid, not used): the declared size stays
    k = c.int("k", 1)
    c.assume(k != nI)
    W = m.get_param("W")
    try:
        m.initialize(X=c.array("X2", n, k))
        c.check("only softmax and sigmoid ignore the sample", name in ("Softmax", "Softmax_v2", "Sigmoid"))
    except ValueError:
        c.check("parameters kept", m.get_param("W") is W)
    shapes(c, m, want, {"nO": nO, "nI": nI})


@P.unit("initialise other layers", secs=200)
def _(c):
    import thinc.api as A
    c.use_ops()
    nO, nI, n, nV = c.dim("nO", 1), c.dim("nI", 1), c.dim("n", 1), c.dim("nV", 1)
    which = c.pick("layer", ["LayerNorm", "Embed", "HashEmbed", "MultiSoftmax", "ParametricAttention", "CauchySimilarity", "SparseLinear"])
    infer = c.flag("inferred")
    X = c.array("X", n, nI)
    if which == "LayerNorm":
        m = A.LayerNorm(None if infer else nI)
        m.initialize(X=X if infer else None)
        shapes(c, m, {"G": ("nI",), "b": ("nO",)}, {"nI": nI, "nO": nI})
    elif which == "Embed":
        m = A.Embed(None if infer else nO, nV)
        m.initialize(Y=c.array("Y", n, nO) if infer else None)
        shapes(c, m, {"E": ("nV", "nO")}, {"nV": nV, "nO": nO})
    elif which == "HashEmbed":
        m = A.HashEmbed(nO, nV)
        m.initialize()
        shapes(c, m, {"E": ("nV", "nO")}, {"nV": nV, "nO": nO})
    elif which == "MultiSoftmax":
        m = A.MultiSoftmax((2, 3), None if infer else nI)
        m.initialize(X=X if infer else None)
        shapes(c, m, {"W": ("nO", "nI"), "b": ("nO",)}, {"nO": 5, "nI": nI})
    elif which == "ParametricAttention":
        m = A.ParametricAttention(None if infer else nI)
        m.initialize(X=X if infer else None)
        shapes(c, m, {"Q": ("nO",)}, {"nO": nI})
    elif which == "CauchySimilarity":
        m = A.CauchySimilarity(None if infer else nI)
        m.initialize(X=(X, X) if infer else None)
        shapes(c, m, {"W": ("nI",)}, {"nI": nI, "nO": 1})
    else:
        m = A.SparseLinear(None if infer else nO, 64)
        m.initialize(Y=c.array("Y", n, nO) if infer else None)
        shapes(c, m, {"b": ("nO",)}, {"nO": nO})
        c.eq("weight size", m.get_param("W").shape[0], nO * 64, 0)


@P.unit("initialise containers", secs=200)
def _(c):
    import thinc.api as A
    ops = c.use_ops()
    n, a, b, h = c.dim("n", 1), c.dim("a", 1), c.dim("b", 1), c.dim("h", 1)
    which = c.pick("container", ["chain", "concatenate", "add", "residual", "chain given"])
    X, Y = c.array("X", n, a), c.array("Y", n, b)
    lin = lambda o=None, i=None: A.Linear(o, i)
    want = {"W": ("nO", "nI"), "b": ("nO",)}
    if which in ("chain", "chain given"):
        ls = [lin(h, a), lin(b, h)] if which == "chain given" else [lin(h), lin()]
        m = A.chain(*ls)
        m.initialize(*(() if which == "chain given" else (X, Y)))
        shapes(c, ls[0], want, {"nO": h, "nI": a})
        shapes(c, ls[1], want, {"nO": b, "nI": h})
        c.eq("input size of the chain", m.get_dim("nI"), a, 0)
        c.eq("output size of the chain", m.get_dim("nO"), b, 0)
    elif which == "concatenate":
        ls = [lin(h), lin(b)]
        m = A.concatenate(*ls)
        m.initialize(X)
        shapes(c, ls[0], want, {"nO": h, "nI": a})
        shapes(c, ls[1], want, {"nO": b, "nI": a})
        c.eq("output size is the total", m.get_dim("nO"), h + b, 0)
        c.eq("input size", m.get_dim("nI"), a, 0)
    elif which == "add":
        ls = [lin(), lin()]
        m = A.add(*ls)
        m.initialize(X, Y)
        for l in ls:
            shapes(c, l, want, {"nO": b, "nI": a})
        c.eq("output size", m.get_dim("nO"), b, 0)
    else:
        l = lin()
        m = A.residual(l)
        m.initialize(X, c.array("Y2", n, a))
        shapes(c, l, want, {"nO": a, "nI": a})


@P.unit("resize")
def _(c):
    """growing a dense layer keeps its rows and fills the new ones"""
    import thinc.api as A
    from thinc.layers.resizable import resize_linear_weighted, resizable, resize_model
    c.use_ops()
    nO, nI, more = c.dim("nO", 1), c.dim("nI", 1), c.dim("more")
    m = A.Linear(nO, nI)
    m.initialize()
    W, b = c.array("W", nO, nI), c.array("b", nO)
    m.set_param("W", W)
    m.set_param("b", b)
    s = c.snap(W, b)
    fill = c.pick("fill", [None, {"b": -3.0}])
    new = nO + more
    outer = resizable(m, lambda layer, k: resize_linear_weighted(layer, k, fill_defaults=fill))
    resize_model(outer, new)
    r = outer.layers[0]
    c.frame("old parameters unmodified", s)
    c.eq("new size", r.get_dim("nO"), new, 0)
    c.eq("input size", r.get_dim("nI"), nI, 0)
    c.eq_build("weights", r.get_param("W"), (new, nI), lambda i, j: c.ite(i < nO, c.at(W, c.ite(i < nO, i, 0), j), 0))
    c.eq_build("bias", r.get_param("b"), (new,), lambda i: c.ite(i < nO, c.at(b, c.ite(i < nO, i, 0)), -3.0 if fill else 0))
    c.eq("old layer keeps its size", m.get_dim("nO"), nO, 0)
