"""C14: saving and loading a model reproduces its full learned state."""
from vc.spec import Property
from contracts.C01 import model
from contracts.C15 import graph, reach

P = Property("C14", explanation=(
    "to_dict, from_dict, to_bytes and from_bytes are executed on every model graph of up to four nodes with arbitrary dimension values, parameter contents of "
    "arbitrary size, attribute values and shim data, into a model of the same structure in an arbitrary other state; everything loaded is proved equal node by "
    "node and independent of the source, and data of a different structure is proved to be refused.  Files and library models are evaluated concretely."),
    assumptions=["msgpack (srsly) restores what it packed (external; exercised by the concrete evaluations)",
                 "shims restore what they save (thinc's framework shims need torch, tensorflow or mxnet, which are not installed)"],
    bounded=["symbolic paths: all graphs of up to four nodes; up to two parameters, dimensions, attributes and shims per node"])


class Packed:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Packed) and self.v == o.v

    __hash__ = None


def plain(x):
    """what msgpack keeps: a structural copy; objects it cannot pack are a TypeError"""
    from vc.tensor import is_t
    from vc.engine import S
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if is_t(x):
        return x.copy()
    if isinstance(x, S) or x is None or isinstance(x, (str, int, float, bool, bytes, Packed)):
        return x
    raise TypeError("cannot pack %r" % (x,))


class Msgpack:
    @staticmethod
    def msgpack_dumps(x):
        return Packed(plain(x))

    @staticmethod
    def msgpack_loads(b):
        return plain(b.v)


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()
    import thinc.model
    thinc.model.srsly = Msgpack


def shim(content):
    from thinc.shims import Shim

    class Stub(Shim):
        def to_bytes(self):
            return self._model

        def from_bytes(self, data):
            self._model = data
            return self
    return Stub(content)


def unpackable():
    return lambda: None


def dress(c, tag, nodes, kids, rich, names=True):
    """arbitrary state"""
    for i, n in enumerate(nodes):
        n._dims = {"nO": c.int("nO%s%d" % (tag, i), 0), "nI": None}
        n.set_param("W", c.array("W%s%d" % (tag, i), c.dim("n%s%d" % (tag, i), 1)))
        n.set_param("b", None)
        n.attrs["number"] = c.real("x%s%d" % (tag, i))
        n.attrs["function"] = unpackable()
        if i in rich:
            n.attrs["array"] = c.array("A%s%d" % (tag, i), 2)
            n.attrs["nested"] = {"k": [c.int("y%s%d" % (tag, i)), None, "text"]}
            n._shims = [shim(b"%s-%d-%d" % (tag.encode(), i, k)) for k in range(2)]
        n.set_ref("none", None)
        below = reach(kids, i)
        n.set_ref("low", nodes[below[-1]])
        n.set_ref("self", n)
        n.name = "%s%d" % (tag, i)


def twin(c, kids, n):
    out = [model(c, "m") for _ in range(n)]
    for m, ch in zip(out, kids):
        m._layers = [out[j] for j in ch]
    return out


def val(c, v):
    import numpy
    if c.sym:
        from vc.tensor import is_t
        return c.value(v) if is_t(v) else v
    return c.value(v) if isinstance(v, numpy.ndarray) else v


def describe(c, n):
    d = dict(name=n.name, dims=[(k, n.maybe_get_dim(k)) for k in n.dim_names], params=[(k, c.value(n.get_param(k)) if n.has_param(k) else None) for k in n.param_names],
             attrs={k: val(c, v) for k, v in n.attrs.items()}, refs={k: n.maybe_get_ref(k) for k in n.ref_names}, shims=[s._model for s in n.shims])
    return d


def check_same(c, what, got, want, ref=None, functions=True):
    c.check(what + " name", got["name"] == want["name"])
    c.check(what + " dimension names", [k for k, _ in got["dims"]] == [k for k, _ in want["dims"]])
    for (k, a), (_, b) in zip(got["dims"], want["dims"]):
        if a is None or b is None:
            c.check(what + " unset dimension", a is None and b is None)
        else:
            c.eq(what + " dimension", a, b, 0)
    c.check(what + " parameter names", [k for k, _ in got["params"]] == [k for k, _ in want["params"]])
    for (k, a), (_, b) in zip(got["params"], want["params"]):
        if a is None or b is None:
            c.check(what + " unset parameter", a is None and b is None)
        else:
            c.eq(what + " parameter", a, b, 0)
    ga, wa = got["attrs"], want["attrs"]
    c.check(what + " attribute names", sorted(ga) == sorted(wa))
    c.eq(what + " attribute", ga["number"], wa["number"], 0)
    if "array" in wa:
        c.eq(what + " array attribute", ga["array"], wa["array"], 0)
        c.check(what + " nested attribute", list(ga["nested"]) == ["k"] and ga["nested"]["k"][1:] == [None, "text"] and len(ga["nested"]["k"]) == 3)
        c.eq(what + " nested attribute value", ga["nested"]["k"][0], wa["nested"]["k"][0], 0)
    c.check(what + " shims", got["shims"] == want["shims"])
    c.check(what + " reference names", sorted(got["refs"]) == sorted(want["refs"]))
    for k, v in want["refs"].items():
        c.check(what + " reference", got["refs"][k] is (v if ref is None or v is None else ref(v)))


def spoil(c, a):
    if c.sym:
        a.write(lambda i: c.t(7), lambda i: c.Tm.TRUE)
    elif a.flags.writeable:  # arrays in attributes come back read-only
        a.fill(7)


@P.unit("round trip", paths=2000, trials=3, secs=300, split=4)
def _(c):
    import os, tempfile
    c.use_ops()
    nodes, kids = graph(c, 2)
    tree = reach(kids, 0)
    rich = [0, len(nodes) - 1] if c.sym else [i for i in range(len(nodes)) if c.rng.random() < .5]
    dress(c, "s", nodes, kids, rich)
    want = [describe(c, n) for n in nodes]
    to = twin(c, kids, len(nodes))
    target = c.pick("target", ["fresh", "other state"])
    for i, n in enumerate(to):
        if target == "fresh":
            n._dims = {"nO": None, "nI": None}
            n.set_param("W", None)
            n.set_param("b", None)
            n.attrs["function"] = "mine"
            for k in ("number",) + (("array", "nested") if i in rich else ()):
                n.attrs[k] = None
            for k in ("none", "low", "self"):
                n.set_ref(k, None)
    if target != "fresh":
        dress(c, "t", to, kids, rich)
        for i, n in enumerate(to):
            n.attrs["function"] = "mine"
            n._dims = {"nO": nodes[i].get_dim("nO"), "nI": None}
            n.set_param("W", c.array("V%d" % i, nodes[i].get_param("W").shape[0]))
            n.set_ref("none", n)
            n.set_ref("low", None)
            n.set_param("b", c.array("b%d" % i, 2))
    for i, n in enumerate(to):
        if i in rich and target == "fresh":
            n._shims = [shim(b"empty"), shim(b"empty")]
    ids = [n.id for n in to]
    how = c.pick("through", ["dict", "bytes"] if c.sym else ["dict", "bytes", "disk"])
    if how == "dict":
        msg = nodes[0].to_dict()
        c.check("returns the model", to[0].from_dict(msg) is to[0])
    elif how == "bytes":
        msg = None
        c.check("returns the model", to[0].from_bytes(nodes[0].to_bytes()) is to[0])
    else:
        msg = None
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "model")
            nodes[0].to_disk(p)
            c.check("compatible", to[0].can_from_disk(p, strict=False))
            c.check("returns the model", to[0].from_disk(p) is to[0])
        finally:
            os.path.exists(p) and os.unlink(p)
            os.rmdir(d)

    def ref(v):
        return to[[k for k, n in enumerate(nodes) if n is v][0]]
    for i in tree:
        check_same(c, "loaded", describe(c, to[i]), want[i], ref)
        c.check("what cannot be saved is kept", to[i].attrs["function"] == "mine")
        check_same(c, "source", describe(c, nodes[i]), want[i])
    c.check("same layers and identities", [n.id for n in to] == ids and all(len(n.layers) == len(ch) and all(x is to[j] for x, j in zip(n.layers, ch)) for n, ch in zip(to, kids)))
    # nothing is shared with the source or between layers
    for i in tree:
        spoil(c, nodes[i].get_param("W"))
        if i in rich:
            spoil(c, nodes[i].attrs["array"])
            nodes[i].attrs["nested"]["k"].append(1)
    for i in tree:
        check_same(c, "after changing the source, loaded", describe(c, to[i]), want[i], ref)
    one = tree[-1] if c.sym else c.pick("changed layer", tree)
    spoil(c, to[one].get_param("W"))
    if one in rich:
        spoil(c, to[one].attrs["array"])
        to[one].attrs["nested"]["k"].append(1)
    for i in tree:
        if i != one:
            check_same(c, "after changing another layer, loaded", describe(c, to[i]), want[i], ref)


@P.unit("refused", paths=3000, trials=2)
def _(c):
    """data of a different structure"""
    c.use_ops()
    nodes, kids = graph(c, 1)
    tree = reach(kids, 0)
    dress(c, "s", nodes, kids, [0])
    to = twin(c, kids, len(nodes))
    dress(c, "s", to, kids, [0])
    for n, m in zip(nodes, to):
        m._dims = dict(n._dims)
        for k in ("W",):
            m.set_param(k, None)
    bad = c.pick("difference", ["fewer layers", "more layers", "dimension value", "dimension name", "shims"])
    x = c.pick("node", tree)
    src = nodes[x]
    if bad == "fewer layers":
        src._layers.append(model(c, "extra"))
    elif bad == "more layers":
        to[x]._layers.append(model(c, "extra"))
    elif bad == "dimension value":
        v = c.int("v", 0)
        c.assume(v != src.get_dim("nO"))
        to[x]._dims["nO"] = v
    elif bad == "dimension name":
        src._dims["nX"] = c.int("nX", 1)
    else:
        src._shims.append(shim(b"more"))
    how = c.pick("through", ["dict", "bytes"])
    before = [describe(c, n) for n in to]
    try:
        if how == "dict":
            to[0].from_dict(nodes[0].to_dict())
        else:
            to[0].from_bytes(nodes[0].to_bytes())
        err = None
    except (ValueError, KeyError, IndexError) as e:
        err = e
    c.check("refused with an error", err is not None)
    c.check("reported as incompatible", not to[0].can_from_dict(nodes[0].to_dict(), strict=False))
    if bad.endswith("layers"):
        for n, b in zip(to, before):
            check_same(c, "nothing is loaded", describe(c, n), b)
    c.raises("unknown format", ValueError, lambda: to[0].from_dict({"weights": []}))


@P.unit("references out of the tree")
def _(c):
    """are an error when saving"""
    c.use_ops()
    a, b = model(c, "a"), model(c, "b")
    a._refs["x"] = b
    c.raises("cannot be saved", ValueError, lambda: a.to_dict())
    a._refs["x"] = None
    c.check("unset reference is saved", a.to_dict()["nodes"][0]["refs"] == {"x": None})


@P.unit("custom attributes")
def _(c):
    """registered serialisers are used for their types, in both directions"""
    from thinc.model import serialize_attr, deserialize_attr
    c.use_ops()

    class Special:
        def __init__(self, v):
            self.v = v
    seen = []

    @serialize_attr.register(Special)
    def save(_, value, name, node):
        seen.append((name, node))
        return b"special:" + value.v

    @deserialize_attr.register(Special)
    def load(_, value, name, node):
        seen.append((name, node))
        return Special(value[8:])
    a, b = model(c, "a"), model(c, "a")
    a.attrs["s"], b.attrs["s"] = Special(b"one"), Special(b"two")
    b.from_bytes(a.to_bytes())
    c.check("restored", isinstance(b.attrs["s"], Special) and b.attrs["s"].v == b"one" and a.attrs["s"].v == b"one")
    c.check("called with the name and the node", seen == [("s", a), ("s", b)])


def library(c):
    from thinc import api
    import numpy
    rng = c.rng
    nI, nO, B = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 5)
    floats = c.array("X", B, nI)
    ids = numpy.asarray([rng.randint(0, 9) for _ in range(B)], dtype="uint64")
    seqs = [c.array("S%d" % k, rng.randint(1, 3), nI) for k in range(2)]
    kind = c.pick("model", ["linear", "relu", "maxout", "mish", "softmax", "layernorm", "embed", "hashembed", "sparse", "lstm", "bilinear", "multi", "remap", "clone", "tok2vec", "attention", "attention2", "residual", "shared", "uniqued"])
    k = rng.choice([None, 3])
    make = {
        "linear": lambda: api.Linear(nO, nI), "relu": lambda: api.Relu(nO, nI, dropout=0.3, normalize=True), "maxout": lambda: api.Maxout(nO, nI, nP=3),
        "mish": lambda: api.Mish(nO, nI), "softmax": lambda: api.Softmax_v2(nO, nI, temperature=2.0), "layernorm": lambda: api.LayerNorm(nI),
        "embed": lambda: api.Embed(nO, 12), "hashembed": lambda: api.HashEmbed(nO, 30, seed=7), "sparse": lambda: api.SparseLinear(nO, 20),
        "lstm": lambda: api.with_padded(api.LSTM(nO, nI)), "bilinear": lambda: api.chain(api.tuplify(api.Linear(3, nI), api.Linear(2, nI)), api.Linear(1)) if False else api.Linear(nO, nI),
        "multi": lambda: api.MultiSoftmax((2, 3), nI), "remap": lambda: api.remap_ids_v2({1: 4, 2: 7}, default=3),
        "clone": lambda: api.chain(api.clone(api.Linear(nI, nI), 3), api.Dropout(0.25)), "tok2vec": lambda: api.chain(api.with_array(api.residual(api.chain(api.expand_window(1), api.Maxout(nI, nI * 3, nP=2)))), api.list2ragged(), api.reduce_mean()),
        "attention": lambda: api.chain(api.list2ragged(), api.ParametricAttention(nI), api.reduce_sum(), api.Linear(nO, nI)),
        "attention2": lambda: api.chain(api.list2ragged(), api.ParametricAttention_v2(key_transform=api.Linear(nI, nI), nO=nI), api.reduce_sum()),
        "residual": lambda: api.residual(api.Linear(nI, nI)), "uniqued": lambda: api.uniqued(api.Embed(nO, 12), column=0),
    }

    def shared():
        l = api.Linear(nI, nI)
        return api.chain(l, api.concatenate(l, api.Linear(2, nI)), l if False else api.Linear(nO, nI + 2))
    make["shared"] = shared
    X = ids if kind in ("embed", "hashembed") else seqs if kind in ("lstm", "tok2vec", "attention", "attention2") else floats
    if kind in ("uniqued", "remap"):
        X = ids.reshape((-1, 1)).astype("i") if kind == "uniqued" else ids.astype("i")
    if kind == "sparse":
        X = (ids, numpy.ones(B, dtype="f"), numpy.asarray([B], dtype="i4"))
    return kind, make[kind], X


@P.unit("library models", sym=False, trials=4)
def _(c):
    import numpy
    from thinc import api
    c.use_ops()
    kind, make, X = library(c)
    a, b = make(), make()
    a.initialize(X=X)
    for n in a.walk():
        for name in n.param_names:
            if n.has_param(name):
                w = n.get_param(name)
                w += c.array("w", *w.shape)
                n.set_param(name, w)
    if c.flag("initialised target"):
        b.initialize(X=X)
    data = a.to_bytes()
    c.check("compatible", b.can_from_bytes(data))
    b.from_bytes(data)

    def flat(y):
        y = y.data if isinstance(y, api.Ragged) else y
        return numpy.concatenate([numpy.ravel(v) for v in y]) if isinstance(y, (list, tuple)) else y
    c.eq("same predictions", flat(b.predict(X)), flat(a.predict(X)), 0)
    c.check("saving again gives the same bytes", b.to_bytes() == data)
    for n, m in zip(a.walk(), b.walk()):
        c.check("names", n.name == m.name)
        c.check("dimensions", [(k, n.maybe_get_dim(k)) for k in n.dim_names] == [(k, m.maybe_get_dim(k)) for k in m.dim_names])
        c.check("parameter names", n.param_names == m.param_names and [n.has_param(k) for k in n.param_names] == [m.has_param(k) for k in m.param_names])
        for k in n.param_names:
            if n.has_param(k):
                c.eq("parameter", m.get_param(k), n.get_param(k), 0)
        for k, v in n.attrs.items():
            if isinstance(v, (int, float, str, bool, type(None))):
                c.check("attribute", m.attrs[k] == v)
