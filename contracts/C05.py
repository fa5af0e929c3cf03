"""C05: context managers undo their changes on every exit."""
import contextlib
from vc.spec import Property

P = Property("C05", explanation=(
    "Every context block of the library is entered from an arbitrary state, a body is run that itself nests further blocks, changes the managed state "
    "and leaves normally or through an arbitrary exception (ordinary, StopIteration, GeneratorExit, KeyboardInterrupt, a BaseException subclass), and "
    "the state afterwards is proved to be the state before.  use_params is proved for arbitrary weights, an arbitrary dictionary of replacement weights "
    "(any entries present or absent, arbitrary arrays), shared nodes, nested calls and entries that fail half way."),
    assumptions=["an asynchronous exception does not strike inside the entry or exit code itself",
                 "the torch and tensorflow state_dict interfaces are stand-ins that store what they are given (the frameworks are not installed)"],
    bounded=["use_params: trees of up to 5 nodes (incl. shared nodes and shims) with up to 2 parameters each; array sizes and values unbounded"])


class Odd(BaseException):
    pass


LEAVE = [None, ValueError, KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, Odd]


def setup():
    from contracts.common import patch_numpy_ops
    patch_numpy_ops()


def run(c, what, cm, body, leave):
    """run body in the block and leave it; the exception must come out unchanged"""
    sent = leave("left") if leave else None
    try:
        with cm as x:
            body(x)
            if sent is not None:
                raise sent
        c.check("%s: no exception swallowed" % what, sent is None)
    except LEAVE_T as e:
        if e is not sent:
            raise
        c.ok("%s: exception propagates" % what)


LEAVE_T = tuple(x for x in LEAVE if x)


@P.unit("backend", paths=2000, secs=200)
def _(c):
    from thinc.backends import NumpyOps, get_current_ops, set_current_ops, use_ops, contextvars_eq_thread_ops
    import thinc.backends as B
    from thinc.backends.ops import Ops
    c.use_ops()
    first = Ops(c.xp if not c.sym else None)
    set_current_ops(first)
    try:
        inner, leave = c.pick("nested", [None, "ok", "fails", "set"]), c.pick("leave", LEAVE)
        leave_in = c.pick("inner leave", LEAVE) if inner == "ok" else None

        def body(_):
            mid = get_current_ops()
            c.check("block runs on the requested backend", mid is not first and mid.name == "numpy")
            if inner == "ok":
                run(c, "use_ops", use_ops("numpy", use_blis=False), lambda _: c.check("nested backend", get_current_ops() is not mid), leave_in)
                c.check("nested block restored", get_current_ops() is mid)
            elif inner == "fails":
                c.raises("unknown backend refused", ValueError, lambda: use_ops("no such backend").__enter__())
                c.check("failed entry changes nothing", get_current_ops() is mid)
                c.raises("bad arguments refused", TypeError, lambda: use_ops("numpy", no_such_argument=1).__enter__())
                c.check("failed entry changes nothing", get_current_ops() is mid)
            elif inner == "set":
                set_current_ops(Ops(None))

        run(c, "use_ops", use_ops("numpy"), body, leave)
        c.check("backend restored", get_current_ops() is first)
        c.check("context and thread agree", B._get_thread_state().ops is first)
    finally:
        c.use_ops()


@P.unit("operators", paths=2000, secs=200)
def _(c):
    from thinc.model import Model
    c.use_ops()
    cv = Model._context_operators
    fns = [object() for _ in range(4)]
    before = c.pick("before", [{}, {"+": fns[0]}, {"+": fns[0], ">>": fns[1]}])
    tok = cv.set(before)
    try:
        snap = dict(before)
        given = c.pick("given", [{}, {">>": fns[2]}, {"+": fns[2], "*": fns[3]}])
        gsnap = dict(given)
        inner, leave = c.pick("nested", [None, "ok", "fails", "write"]), c.pick("leave", LEAVE)
        leave_in = c.pick("inner leave", LEAVE) if inner == "ok" else None

        def body(_):
            mid = cv.get()
            c.check("operators in the block", dict(mid) == gsnap)
            if inner == "ok":
                run(c, "define_operators", Model.define_operators({"@": fns[3]}), lambda _: c.check("nested operators", dict(cv.get()) == {"@": fns[3]}), leave_in)
                c.check("nested block restored", cv.get() is mid)
            elif inner == "fails":
                c.raises("not a dictionary", TypeError, lambda: Model.define_operators(3).__enter__())
                c.check("failed entry changes nothing", cv.get() is mid)
            elif inner == "write":
                mid["+"] = None

        run(c, "define_operators", Model.define_operators(given), body, leave)
        c.check("operators restored", cv.get() is before and before == snap)
        c.check("caller's dictionary untouched", given == gsnap)
    finally:
        cv.reset(tok)


@P.unit("operators act")
def _(c):
    """inside the block each Python operator calls exactly the function it is bound to; outside, the operator is refused"""
    from thinc.model import Model
    import operator as o
    c.use_ops()
    pairs = [("+", o.add), ("-", o.sub), ("*", o.mul), ("@", o.matmul), ("/", o.truediv), ("//", o.floordiv), ("%", o.mod), ("**", o.pow),
             ("<<", o.lshift), (">>", o.rshift), ("&", o.and_), ("^", o.xor), ("|", o.or_)]
    sym, act = c.pick("operator", pairs)
    a, b = Model("a", lambda *x: x), Model("b", lambda *x: x)
    c.raises("operator refused outside", TypeError, lambda: act(a, b))
    try:
        with Model.define_operators({s: (lambda x, y, s=s: (s, x, y)) for s, _ in pairs}):
            r = act(a, b)
            c.check("bound function called with both operands", r[0] == sym and r[1] is a and r[2] is b)
            raise Odd()
    except Odd:
        pass
    c.raises("operator refused afterwards", TypeError, lambda: act(a, b))


@P.unit("validation switch", paths=2000, secs=200)
def _(c):
    from thinc import util
    cv = util.DATA_VALIDATION
    was = cv.get()
    c.use_ops()
    try:
        old, new, new2 = object(), object(), object()
        if not c.sym:
            old, new, new2 = c.pick("v", [(True, False, True), (False, True, False), (True, True, False), (False, False, True)])
        cv.set(old)
        inner, leave = c.pick("nested", [None, "ok", "set"]), c.pick("leave", LEAVE)
        leave_in = c.pick("inner leave", LEAVE) if inner == "ok" else None

        def body(_):
            c.check("switch inside", cv.get() is new)
            if inner == "ok":
                run(c, "data_validation", util.data_validation(new2), lambda _: c.check("nested switch", cv.get() is new2), leave_in)
                c.check("nested block restored", cv.get() is new)
            elif inner == "set":
                cv.set(new2)

        run(c, "data_validation", util.data_validation(new), body, leave)
        c.check("switch restored", cv.get() is old)
    finally:
        cv.set(was)


@P.unit("temporary file", paths=5000)
def _(c):
    from thinc.util import make_tempfile
    import os, shutil, tempfile
    scratch = tempfile.mkdtemp(prefix="c05-")
    was = tempfile.tempdir
    tempfile.tempdir = scratch
    try:
        mode, leave = c.pick("mode", ["r", "w", "rb", "wb", "w+"]), c.pick("leave", LEAVE)
        close = c.flag("body closes the file")
        nested = c.flag("nested")
        seen = []

        def body(f):
            seen.append(f)
            c.check("file exists in the block", os.path.isfile(f.name) and os.path.dirname(f.name) == scratch and not f.closed)
            if nested:
                run(c, "make_tempfile", make_tempfile(mode), lambda g: c.check("own file", g.name != f.name), c.pick("inner leave", LEAVE))
                c.check("only the nested file removed", os.listdir(scratch) == [os.path.basename(f.name)])
            if close:
                f.close()

        run(c, "make_tempfile", make_tempfile(mode), body, leave)
        c.check("file removed", os.listdir(scratch) == [])
        c.check("file closed", seen[0].closed)
        try:
            make_tempfile("no such mode").__enter__()
            c.fail("bad mode refused")
        except ValueError:
            c.check("failed entry leaves nothing behind", os.listdir(scratch) == [])
    finally:
        tempfile.tempdir = was
        shutil.rmtree(scratch)


# ------------------------------------------------------------------ use_params
class Entry(Exception):
    pass


def shim_class():
    from thinc.shims import Shim

    class Swap(Shim):
        """a shim that honours the use_params contract, or refuses to enter"""
        state, fails, active = None, False, 0

        @contextlib.contextmanager
        def use_params(self, params):
            if self.fails:
                raise Entry()
            was, self.state = self.state, ("swapped", self.state)
            try:
                yield
            finally:
                self.state = was

    return Swap


TREES = ["leaf", "chain", "shared", "deep", "shim", "two shims", "diamond"]


def tree(c, shape):
    from thinc.model import Model
    Swap = shim_class()
    k = [0]

    def node(layers=(), names=("W",), shims=(), unset=()):
        k[0] += 1
        m = Model("n", lambda *a: a, layers=list(layers), shims=list(shims), params={n: None for n in tuple(names) + tuple(unset)})
        m.ops = c.use_ops()
        for n in names:
            m.set_param(n, c.array("w%d%s" % (k[0], n), c.dim("n%d%s" % (k[0], n))))
        return m

    if shape == "leaf":
        return node(names=("W", "b"))
    if shape == "chain":
        return node([node(names=("W",)), node(names=("W",))], names=("b",))
    if shape == "shared":
        a = node(names=("W",))
        return node([a, node(names=("b",)), a], names=())
    if shape == "deep":
        return node([node([node(names=("W",))], names=("W",))], names=("W",))
    if shape == "shim":
        return node([node(names=("b",))], names=("W",), shims=[Swap(None)])
    if shape == "two shims":
        return node([node(names=("W",), shims=[Swap(None)])], names=("b",), shims=[Swap(None)])
    a = node(names=("W",))
    return node([node([a], names=()), node([a], names=("W",))], names=())


def observe(c, nodes):
    out = []
    for m in nodes:
        for n in m.param_names:
            h = m.has_param(n)
            out.append((m, n, h, m.get_param(n) if h else None, c.value(m.get_param(n)) if h else None))
    return out


def same(c, what, nodes, before, shims, sbefore):
    now = observe(c, nodes)
    c.check("%s: same parameters" % what, [(a[1], a[2]) for a in now] == [(a[1], a[2]) for a in before])
    for a, b in zip(now, before):
        if a[2] and b[2]:
            c.check("%s: the same array is back" % what, a[3] is b[3])
            c.eq("%s: value" % what, a[4], b[4], 0)
    c.check("%s: shims restored" % what, [s.state for s in shims] == sbefore)


def make_params(c, nodes, label):
    k = [0]

    def value(key):
        k[0] += 1
        return c.array("%s%d" % (label, k[0]), c.dim("%sn%d" % (label, k[0])))

    return c.map(label, value, keys=[(m.id, n) for m in nodes for n in m.param_names])


@P.unit("parameters", paths=6000, secs=300, split=3)
def _(c):
    c.use_ops()
    root = tree(c, c.pick("tree", TREES))
    nodes = list(root.walk())
    shims = [s for m in nodes for s in m.shims]
    before, sbefore = observe(c, nodes), [s.state for s in shims]
    params = make_params(c, nodes, "new")
    leave = c.pick("leave", [None, ValueError, GeneratorExit, Odd])
    what = c.pick("body", ["nothing", "nested", "set", "update"])
    leave_in = c.pick("inner leave", [None, Odd]) if what == "nested" else None

    def inside(ps, prior, tag):
        for m, n, h, arr, val in prior:
            key = (m.id, n)
            if key in ps:
                c.check("%s: replaced" % tag, m.get_param(n) is ps[key])
            elif h:
                c.check("%s: kept" % tag, m.get_param(n) is arr)

    def body(_):
        inside(params, before, "block")
        c.check("shims entered", all(s.state is not None for s in shims))
        if what == "nested":
            mid, smid = observe(c, nodes), [s.state for s in shims]
            more = make_params(c, nodes, "more")
            run(c, "use_params", root.use_params(more), lambda _: inside(more, mid, "nested"), leave_in)
            same(c, "nested block", nodes, mid, shims, smid)
        elif what == "set":
            m = nodes[-1]
            for n in m.param_names:
                if (m.id, n) in params:
                    m.set_param(n, c.array("tmp", c.dim("tmpn")))
        elif what == "update":
            m = nodes[0]
            for n in m.param_names:
                if (m.id, n) in params:
                    m.inc_grad(n, c.array("tmp", m.get_param(n).shape[0]))

    run(c, "use_params", root.use_params(params), body, leave)
    same(c, "after the block", nodes, before, shims, sbefore)


@P.unit("failed entry", paths=3000, secs=200, split=2)
def _(c):
    c.use_ops()
    root = tree(c, c.pick("tree", ["leaf", "chain", "shim", "two shims", "diamond"]))
    nodes = list(root.walk())
    shims = [s for m in nodes for s in m.shims]
    params = make_params(c, nodes, "new")
    why = c.pick("why", ["unset parameter"] + (["shim"] if shims else []))
    if why == "shim":
        c.pick("which", shims).fails = True
        err = Entry
    else:
        m = c.pick("which node", nodes)
        m.set_param("z", None)
        params[(m.id, "z")] = c.array("z", c.dim("zn"))
        err = KeyError
    before, sbefore = observe(c, nodes), [s.state for s in shims]
    try:
        with root.use_params(params):
            c.fail("entry refused")
    except err:
        c.ok("entry refused")
    same(c, "after the failed entry", nodes, before, shims, sbefore)


# ------------------------------------------------------------------ framework shims
class Stored:
    """what a torch module / tensorflow layer stores: values by name"""
    def __init__(self, state):
        self.state, self.loads, self.refuse = dict(state), 0, None
        self.layers = [self]

    def state_dict(self):
        return {k: Value(v) for k, v in self.state.items()}

    def load_state_dict(self, d):
        self.loads += 1
        for k, v in d.items():
            self.state[k] = v.v if isinstance(v, Value) else v
            if self.refuse == self.loads:
                raise RuntimeError("size mismatch")

    @property
    def weights(self):
        return [Value(v, k) for k, v in self.state.items()]

    def set_weights(self, vs):
        self.loads += 1
        for k, v in zip(self.state, vs):
            self.state[k] = v
            if self.refuse == self.loads:
                raise ValueError("shape mismatch")


class Value:
    def __init__(self, v, name=None):
        self.v, self.name = v, name

    def clone(self):
        return Value(self.v)

    def numpy(self):
        return self.v


@P.unit("shims", paths=2000)
def _(c):
    import numpy
    c.use_ops()
    which = c.pick("framework", ["torch", "tensorflow"])
    old = {"W": numpy.full((2,), 1.0), "b": numpy.full((2,), 2.0)}
    m = Stored(old)
    if which == "torch":
        import thinc.shims.pytorch as mod
        shim = mod.PyTorchShim.__new__(mod.PyTorchShim)
        mod.xp2torch = lambda v, **k: v
        mod.PyTorchShim.device = None
        prefix = "pytorch"
    else:
        import thinc.shims.tensorflow as mod
        shim = mod.TensorFlowShim.__new__(mod.TensorFlowShim)
        mod.cupy = None
        prefix = "tensorflow"
    shim.id, shim._model, shim.cfg, shim._optimizer = 7, m, {}, None
    names = c.pick("given", [(), ("W", "b")])
    new = {"%s_7_%s" % (prefix, k): numpy.full((2,), 3.0) for k in names}
    new["%s_8_W" % prefix] = numpy.full((2,), 4.0)
    new[(3, "W")] = numpy.full((2,), 5.0)
    m.refuse = c.pick("entry fails", [None, 1]) if names else None
    leave = c.pick("leave", LEAVE)

    def body(_):
        for k in old:
            c.check("value in the block", bool((m.state[k] == (3.0 if k in names else old[k])).all()))
        for k in old:
            m.state[k] = numpy.full((2,), 9.0) if names else m.state[k]

    try:
        run(c, "use_params", shim.use_params(new), body, leave)
        c.check("failing entry raises", m.refuse is None)
    except (RuntimeError, ValueError) as e:
        c.check("only the failing entry raises", m.refuse is not None or leave is ValueError)
    c.check("state restored", all(bool((m.state[k] == old[k]).all()) for k in old))
