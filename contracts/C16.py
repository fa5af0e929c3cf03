"""C16: a copied model is equal and independent."""
from vc.spec import Property
from contracts.C01 import model
from contracts.C15 import graph, reach, with_refs, number

P = Property("C16", explanation=(
    "Model.copy is executed on every model graph of up to four nodes (shared and repeated nodes included), with arbitrary dimension values, parameter, "
    "gradient and attribute contents of arbitrary size, set and unset entries, references and (shared) shims; the copy is proved equal entry by entry, "
    "isomorphic to the original, with new identifiers and without shared storage: everything mutable is overwritten on one side and proved unchanged on the other."),
    assumptions=["Shim.copy (copy.deepcopy) yields an independent shim; copy.deepcopy of arrays copies their contents"],
    bounded=["symbolic paths: all graphs of up to four nodes; up to two parameters, dimensions and attributes per node; execution on random graphs of up to nine nodes"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def shim(c, content):
    from thinc.shims import Shim

    class Stub(Shim):
        def copy(self):
            s = Stub(self._model)
            s.cfg = dict(self.cfg)
            return s
    return Stub(content)


def dress(c, nodes, rich):
    """arbitrary state for every node; returns the expected description"""
    out = []
    shared = shim(c, "shared")
    for i, n in enumerate(nodes):
        d = {}
        full = i in rich
        n._dims = {"nO": c.int("nO%d" % i, 0), "nI": None}
        W = c.array("W%d" % i, c.dim("n%d" % i, 1))
        n.set_param("W", W)
        n.set_param("b", None)
        d["W"] = c.value(n.get_param("W"))
        if full:
            G = c.array("G%d" % i, W.shape[0])
            n.set_grad("W", G)
            d["G"] = c.value(n.get_grad("W"))
            n.attrs["list"] = [1, [2, i]]
            n.attrs["array"] = c.array("A%d" % i, 2)
            d["A"] = c.value(n.attrs["array"])
            n._shims = [shared, shim(c, "own%d" % i), shared]
        n.attrs["number"] = d["number"] = c.real("x%d" % i)
        out.append(d)
    return out


def overwrite(c, m):
    """change everything that can be changed on this node"""
    for a in [m.get_param("W")] + ([m.get_grad("W")] if m.has_grad("W") else []) + ([m.attrs["array"]] if "array" in m.attrs else []):
        if c.sym:
            a.write(lambda i: c.t(7), lambda i: c.Tm.TRUE)
        else:
            a.fill(7)
    if "list" in m.attrs:
        m.attrs["list"][1].append("changed")
        m.attrs["list"].append("changed")
    m.attrs["number"] = -1
    m.attrs["more"] = 1
    m._dims["nI"] = 5
    m._dims["nO"] = -9
    m._dims["more"] = 1
    m.set_param("more", c.array("more", 1))
    m.set_param("b", c.array("more", 1))
    m._shims.append(shim(c, "more"))
    for s in m._shims:
        s._model = "changed"
        s.cfg["changed"] = 1
    m.set_ref("none", m)
    m._refs["more"] = m
    m._layers.append(m)
    m.name = "changed"


def check_node(c, n, i, d, full, sides, kids, refs, nO, what):
    ref, nodes = sides
    c.check(what + " name", n.name == "n" if c.sym else n.name in "ab")
    c.check(what + " dimensions", n.dim_names == ("nO", "nI") and n.has_dim("nI") is None)
    c.eq(what + " dimension value", n.get_dim("nO"), nO, 0)
    c.check(what + " parameters", n.param_names == ("W", "b") and n.has_param("b") is None and n.has_param("W") is True)
    c.eq(what + " parameter values", n.get_param("W"), d["W"], 0)
    c.check(what + " gradients", n.grad_names == (("W",) if full else ()))
    if full:
        c.eq(what + " gradient values", n.get_grad("W"), d["G"], 0)
        c.eq(what + " array attribute", n.attrs["array"], d["A"], 0)
        c.check(what + " list attribute", n.attrs["list"] == [1, [2, i]])
    c.check(what + " attributes", sorted(n.attrs) == (["array", "list", "number"] if full else ["number"]))
    c.eq(what + " attribute value", n.attrs["number"], d["number"], 0)
    c.check(what + " layers", len(n.layers) == len(kids[i]) and all(x is nodes[j] for x, j in zip(n.layers, kids[i])))
    c.check(what + " reference names", n.ref_names == tuple(refs[i]))
    for name, j in refs[i].items():
        c.check(what + " references", n.maybe_get_ref(name) is (None if j is None else nodes[j]))
    c.check(what + " shims", [s._model for s in n.shims] == (["shared", "own%d" % i, "shared"] if full else []) and not any(s.cfg for s in n.shims))
    if full:
        c.check(what + " shared shim", n.shims[0] is n.shims[2] and n.shims[0] is not n.shims[1])


@P.unit("copy", paths=2000, trials=3, secs=200)
def _(c):
    from thinc.api import NumpyOps
    from thinc.backends.ops import Ops
    c.use_ops()
    nodes, kids = graph(c, 2)
    refs = with_refs(nodes, kids)
    tree = reach(kids, 0)
    rich = c.pick("nodes with gradients, shims and mutable attributes", [[0, len(nodes) - 1], []]) if c.sym else list(range(len(nodes)))[c.rng.randint(0, 2):]
    ds = dress(c, nodes, rich)
    own = bool(rich)
    for n in nodes:
        if own:
            n.ops = Ops() if c.sym else NumpyOps()
        n.init = lambda model, X=None, Y=None: None
    dims = [n.get_dim("nO") for n in nodes]
    r = nodes[0]
    q = r.copy()
    # the copy of every node, found along the layers
    new = {0: q}
    todo = [0]
    while todo:
        i = todo.pop()
        c.check("number of layers", len(new[i].layers) == len(kids[i]))
        for j, m in zip(kids[i], new[i].layers):
            if j in new:
                c.check("shared layers stay shared", new[j] is m)
            else:
                new[j] = m
                todo.append(j)
    c.check("every node copied", sorted(new) == tree)
    olds = {i: nodes[i] for i in tree}
    ids = [n.id for n in nodes]
    shims = []
    for i in tree:
        m, n = new[i], nodes[i]
        c.check("a new node", not any(m is x for x in nodes))
        c.check("fresh identity", m.id not in ids)
        ids.append(m.id)
        c.check("same functions", m._func is n._func and m.init is n.init)
        c.check("same ops", m.ops is n.ops)
        check_node(c, m, i, ds[i], i in rich, (None, new), kids, refs, dims[i], "copied")
        check_node(c, n, i, ds[i], i in rich, (None, olds), kids, refs, dims[i], "original")
        for s, t in zip(n.shims, m.shims):
            c.check("shims are copied", s is not t)
            shims.append((s, t))
    c.check("shared shims stay shared", all((a is b) == (x is y) for a, x in shims for b, y in shims))
    if c.flag("change the copy"):
        for i in tree:
            overwrite(c, new[i])
        for i in tree:
            check_node(c, nodes[i], i, ds[i], i in rich, (None, olds), kids, refs, dims[i], "after change of the copy, original")
    else:
        for i in tree:
            overwrite(c, nodes[i])
        for i in tree:
            check_node(c, new[i], i, ds[i], i in rich, (None, new), kids, refs, dims[i], "after change of the original, copied")


@P.unit("copy of a layer", sym=False, trials=3)
def _(c):
    """a copied library model computes the same and trains independently"""
    import numpy
    from thinc import api
    c.use_ops()
    rng = c.rng
    nI, nO, B = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    kind = c.pick("model", ["linear", "chain", "shared", "attention2", "mlp"])
    X = c.array("X", B, nI)
    if kind == "linear":
        m = api.Linear(nO, nI)
    elif kind == "chain":
        m = api.chain(api.Relu(3, nI), api.LayerNorm(3), api.Linear(nO, 3))
    elif kind == "shared":
        l = api.Linear(nI, nI)
        m = api.chain(l, api.concatenate(l, api.Linear(2, nI)), api.Linear(nO, nI + 2))
    elif kind == "mlp":
        m = api.clone(api.Maxout(nI, nI, nP=2), 2)
    else:
        from thinc.layers import ParametricAttention_v2
        m = ParametricAttention_v2(key_transform=api.Linear(nI, nI), nO=nI)
        X = api.Ragged(X, numpy.asarray([B], dtype="i"))
    m.initialize(X=X)
    q = m.copy()
    y = m.predict(X)
    y = y.data if hasattr(y, "data") and not isinstance(y, numpy.ndarray) else y
    get = lambda v: v.data if isinstance(v, api.Ragged) else v
    c.eq("same output", get(q.predict(X)), y, 1e-6)
    y0 = numpy.array(y)
    Y, bp = q.begin_update(X)
    bp(Y)
    q.finish_update(api.SGD(0.5))
    c.eq("original unaffected by training the copy", get(m.predict(X)), y0, 1e-6)
    c.check("no gradients in the original", not any(n.grad_names for n in m.walk()))
