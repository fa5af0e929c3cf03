"""C15: traversal and node surgery visit and replace exactly the right nodes."""
from vc.spec import Property
from contracts.C01 import model

P = Property("C15", explanation=(
    "walk, replace_node, remove_node and wrap_model_recursive are executed on every model graph of up to four nodes whose layer lists may share and repeat "
    "nodes, with every choice of node to operate on and references from every node to every node below it, and compared with the documented orders and with "
    "the graph written down before the operation.  Larger random graphs are evaluated concretely."),
    assumptions=["references point into the subtree of their node (set_ref enforces it)"],
    bounded=["symbolic paths: all graphs of up to four nodes (root with up to 3 layers, others up to 2); execution on random graphs of up to nine nodes"])


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def graph(c, most=3):
    """arbitrary small acyclic model: nodes[0] is the root, layer lists may repeat and share nodes"""
    if c.sym:
        n = c.pick("nodes", [1, 2, 3, 4])
        width = {0: most, 1: 2, 2: 1, 3: 0}
    else:
        n = c.pick("nodes", [1, 2, 3, 4, 5, 6, 9])
        width = {k: 4 for k in range(n)}
    nodes = [model(c, c.pick("name", ["a", "b"]) if not c.sym else "n") for _ in range(n)]
    kids = []
    for i in range(n):
        ch = []
        if i < n - 1:
            m = c.pick("layers of %d" % i, list(range(width[i] + 1)))
            for k in range(m):
                ch.append(c.pick("layer %d.%d" % (i, k), list(range(i + 1, n))))
        kids.append(ch)
        nodes[i]._layers = [nodes[j] for j in ch]
    return nodes, kids


def bfs(kids):
    out, todo = [], [0]
    while todo:
        nxt = []
        for i in todo:
            if i not in out:
                out.append(i)
                nxt += kids[i]
        todo = nxt
    return out


def dfs(kids, post):
    out, seen = [], set()

    def visit(i):
        if i in seen:
            return
        seen.add(i)
        if not post:
            out.append(i)
        for j in kids[i]:
            visit(j)
        if post:
            out.append(i)
    visit(0)
    return out


def reach(kids, i):
    out, todo = [], [i]
    while todo:
        x = todo.pop()
        if x not in out:
            out.append(x)
            todo += kids[x]
    return sorted(out)


def number(nodes, got):
    return [[k for k, n in enumerate(nodes) if n is g][0] if any(n is g for n in nodes) else None for g in got]


@P.unit("walk", paths=2000, trials=3)
def _(c):
    c.use_ops()
    nodes, kids = graph(c)
    r = nodes[0]
    c.check("breadth first", number(nodes, r.walk()) == bfs(kids))
    c.check("breadth first by name", number(nodes, r.walk(order="bfs")) == bfs(kids))
    c.check("depth first, parents first", number(nodes, r.walk(order="dfs_pre")) == dfs(kids, False))
    c.check("depth first, children first", number(nodes, r.walk(order="dfs_post")) == dfs(kids, True))
    c.raises("unknown order", ValueError, lambda: list(r.walk(order="dfs")))
    c.check("model unchanged", [number(nodes, n.layers) for n in nodes] == kids)
    # two interleaved walks do not influence each other
    a, b = iter(r.walk()), iter(r.walk())
    both = [(next(a), next(b)) for _ in bfs(kids)]
    c.check("independent walks", all(x is y for x, y in both) and next(a, None) is None and next(b, None) is None)


def with_refs(nodes, kids):
    """a reference from every node to every node of its subtree, and one unset reference each"""
    refs = []
    for i, n in enumerate(nodes):
        n.set_ref("none", None)
        d = {"none": None}
        for j in reach(kids, i):
            n.set_ref("r%d" % j, nodes[j])
            d["r%d" % j] = j
        refs.append(d)
    return refs


def state(n):
    return (n.id, n.name, n._func, n.init, dict(n.attrs), n.dim_names, n.param_names, list(n.shims))


@P.unit("replace", paths=4000, trials=3, secs=200)
def _(c):
    c.use_ops()
    nodes, kids = graph(c, 2)
    refs = with_refs(nodes, kids)
    r = nodes[0]
    tree = reach(kids, 0)
    o = c.pick("old", list(range(len(nodes))))
    kind = c.pick("new", ["leaf", "wrapper", "in tree"])
    if kind == "leaf":
        new = model(c, "new")
    elif kind == "wrapper":
        new = model(c, "new", [nodes[o]])
        new.set_ref("inner", nodes[o])
    else:
        # a node of the tree that is not above the old one
        cand = [j for j in tree if o not in reach(kids, j)]
        if not cand:
            c.ok("no such node")
            return
        new = nodes[c.pick("new node", cand)]
    before = [state(n) for n in nodes]
    k_new = list(new.layers)
    ans = r.replace_node(nodes[o], new)
    c.check("reports whether the node was found", ans is (o in tree))
    for i, n in enumerate(nodes):
        if i in tree and i != o:
            want = [new if j == o else nodes[j] for j in kids[i]]
        else:
            want = [nodes[j] for j in kids[i]]
        if n is not new:
            c.check("layers", len(n.layers) == len(want) and all(x is y for x, y in zip(n.layers, want)))
        c.check("reference names", n.ref_names == tuple(refs[i]))
        for name, j in refs[i].items():
            want = None if j is None else new if j == o and i in tree and i != o else nodes[j]
            c.check("references", n.maybe_get_ref(name) is want)
        c.check("nothing else changes", state(n) == before[i])
    c.check("layers of the new node", len(new.layers) == len(k_new) and all(x is y for x, y in zip(new.layers, k_new)))
    if kind == "wrapper":
        c.check("the new node still refers to the old one", new.get_ref("inner") is nodes[o])


@P.unit("remove", paths=4000, trials=3, secs=200)
def _(c):
    c.use_ops()
    nodes, kids = graph(c, 3)
    refs = with_refs(nodes, kids)
    r = nodes[0]
    tree = reach(kids, 0)
    x = c.pick("node", list(range(len(nodes))))
    before = [state(n) for n in nodes]
    r.remove_node(nodes[x])
    kept = [[j for j in ch if j != x] if i in tree else ch for i, ch in enumerate(kids)]
    left = reach(kept, 0)
    for i, n in enumerate(nodes):
        c.check("layers", number(nodes, n.layers) == kept[i])
        c.check("reference names", n.ref_names == tuple(refs[i]))
        for name, j in refs[i].items():
            want = None if j is None or (i in left and j not in left) else nodes[j]
            c.check("references", n.maybe_get_ref(name) is want)
        c.check("nothing else changes", state(n) == before[i])
    if x:
        c.check("gone", not any(m is nodes[x] for m in r.walk()))


@P.unit("wrap", paths=2000, trials=2)
def _(c):
    from thinc.model import wrap_model_recursive
    c.use_ops()
    nodes, kids = graph(c, 2)
    made = []

    def wrapper(m):
        w = model(c, "wrapper", [m])
        made.append((w, m))
        return w
    top = wrap_model_recursive(nodes[0], wrapper)
    c.check("returns the wrapped model", len(top.layers) == 1 and top.layers[0] is nodes[0])
    inner = {}
    for i in reach(kids, 0):
        got = nodes[i].layers
        c.check("number of layers", len(got) == len(kids[i]))
        for g, j in zip(got, kids[i]):
            c.check("every layer is wrapped", len(g.layers) == 1 and g.layers[0] is nodes[j] and any(g is w for w, _ in made))
            c.check("shared layers stay shared", inner.setdefault(j, g) is g)
