"""shared input families"""


def lengths(c, B, name="L", lo=0):
    """arbitrary sequence lengths >= lo"""
    if c.sym:
        return c.array(name, B, dtype="int32", fact=lambda x: x >= lo)
    import numpy
    return c._log(name, numpy.array([c.rng.choice([lo, lo, 1 + lo, 2, 3, 4]) if lo == 0 else c.rng.choice([1, 1, 2, 3, 4]) for _ in range(B)], dtype="int32"))


def offsets(c, L, b):
    """sum of the first b lengths"""
    return c.sum(b, lambda k: c.at(L, k))


def attach(c, model, params=()):
    """give every node of the model the ops under verification and the listed (node, name, array) parameters"""
    ops = c.use_ops()
    for n in model.walk():
        n.ops = ops
    for node, name, arr in params:
        node.set_param(name, arr)
    return model


def check_layer(c, model, X, dY_shape, params, *, is_train=True, out=None, wrap=None, seed=None, tag="layer", extra_frame=(), twice=True):
    """frame conditions and gradient accumulation of one forward/backward run.
    params: list of (node, name, array); out(Y) is the output array, wrap(dY, Y) builds the gradient object
    handed to the callback.  Returns (Y, dX, dY array, parameter gradients of this call)."""
    out = out or (lambda y: y)
    if seed is not None and not c.sym:
        import numpy
        numpy.random.seed(seed)
    arrs = [a for _, _, a in params]
    snaps = c.snap(X, *arrs, *extra_frame)
    Y, back = model(X, is_train=is_train)
    c.frame("%s: forward leaves input and parameters unmodified" % tag, snaps)
    Ya = out(Y)
    dYa = c.array("dY", *(dY_shape(Ya) if dY_shape else Ya.shape))
    dYo = wrap(dYa, Y) if wrap else dYa
    pre = {}
    for k, (node, name, a) in enumerate(params):
        if len(params) <= 2 and c.flag("grad%d present" % k):
            g0 = c.array("G0_%d" % k, *a.shape)
            node.set_grad(name, g0)
            pre[k] = c.value(g0)
    Yval = c.value(Ya)
    dsnap = c.snap(dYo)
    dX = back(dYo)
    c.frame("%s: backward leaves input and parameters unmodified" % tag, snaps)
    c.frame("%s: backward leaves the incoming gradient unmodified" % tag, dsnap)
    c.eq("%s: backward leaves the output unmodified" % tag, Ya, Yval, 0)
    ds = []
    for k, (node, name, a) in enumerate(params):
        g = node.get_grad(name)
        ds.append(g - pre[k] if k in pre else g)
        c.eq("%s: parameter %s untouched" % (tag, name), node.get_param(name), a, 0)
    return Y, dX, dYa, ds


def ragged_input(c, lo=0, name="X", width=None, L=None, ndim=2, rows=True):
    """arbitrary Ragged batch: (Ragged, data array, lengths, B, total rows)"""
    from thinc.types import Ragged
    B = c.dim("B")
    L = lengths(c, B, lo=lo) if L is None else L
    n = c.sum(B, lambda b: c.at(L, b))
    if rows:
        c.assume(n > 0)
    w = c.dim("W", 1) if width is None else width
    D = c.array(name, n, w, ties=True) if ndim == 2 else c.array(name, n)
    return Ragged(D, L), D, L, B, n


def patch_numpy_ops():
    """module-level CPU ops instances of the layers use the ops under verification"""
    import sys
    import thinc.api  # noqa
    from vc import spec
    ops = spec.Sym().use_ops()
    for name, mod in list(sys.modules.items()):
        if name.startswith("thinc.") and hasattr(mod, "NUMPY_OPS"):
            mod.NUMPY_OPS = ops
    import thinc.backends as B
    B.NumpyOps = type(ops)  # get_array_ops
