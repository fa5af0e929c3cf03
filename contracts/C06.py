"""C06: every activation computes its documented function and its backward pass is the derivative."""
import math
from vc.spec import Property

P = Property("C06", explanation=(
    "For every activation in the ops API the forward result is proved equal, element by element and for arrays of any "
    "size, to the documented formula; the backward function is executed on an arbitrary upstream gradient and proved equal "
    "to the gradient times the symbolic derivative of what the forward code computed; in-place variants return the same "
    "values in the same buffer and out-of-place variants leave their inputs unmodified."),
    assumptions=[
        "float arithmetic is treated as exact real arithmetic; kink points of piecewise-linear activations are excluded",
        "the module constants 1/sqrt(2), 1/sqrt(2*pi), sqrt(2/pi) are replaced by the exact reals after checking they are the correctly rounded floats",
        "Ops.erf is used through its contract (erf); its polynomial is checked separately (bounded, error < 2e-7)",
    ],
    bounded=["gelu_approx: backward uses published rounded constants; closeness to the derivative is sampled, the formula itself is proved",
             "erf polynomial approximation error is sampled on a grid"])


def setup():
    import thinc.backends.ops as O
    from vc import terms as T, engine, tensor as X
    from fractions import Fraction as F
    for n, v, t in (("INV_SQRT2", 1 / math.sqrt(2), T.power(T.num(F(1, 2)), F(1, 2))),
                    ("INV_SQRT_2PI", 1 / math.sqrt(2 * math.pi), T.power(T.mul(T.num(2), T.PI), F(-1, 2))),
                    ("SQRT2PI", math.sqrt(2 / math.pi), T.power(T.mul(T.num(2), T.power(T.PI, F(-1))), F(1, 2)))):
        cur = getattr(O, n, None)
        if type(cur) is float:
            if abs(cur - v) > 1e-15:
                engine.E.record("constant " + n, False, "%r is not %r" % (cur, v))
            else:
                setattr(O, n, engine.wrap(t))
    O.Ops.erf = lambda self, x: X.ew(lambda c: T.app("erf", c), x)


def prep(c, ndim):
    return [c.dim("d%d" % k) for k in range(ndim)]


def act(name, fwd, bwd, spec, smooth=None, needs_y=False, shape=2, lo=None, hi=None, inplace_fwd=True, inplace_bwd=True, trials=1.0, params=None, tol=None):
    def inputs(c):
        p = params(c) if params else ()
        d = prep(c, shape)
        fact = (lambda x: smooth(c, x, *p)) if smooth else None
        X = c.array("X", *d, fact=fact, lo=lo, hi=hi)
        return p, d, X

    @P.unit(name + "/forward", trials=trials)
    def _(c):
        p, d, X = inputs(c)
        ops = c.ops
        old = c.value(X)
        s = c.snap(X)
        Y = fwd(ops, X, p, {})
        c.eq_build("%s formula" % name, Y, d, lambda *i: spec(c, c.at(old, *i), *p), tol=tol)
        c.frame("input unmodified", s)
        c.check("fresh output", Y is not X)
        if inplace_fwd:
            Y2 = fwd(ops, X, p, {"inplace": True})
            c.eq("in-place value", Y2, Y)
            c.eq("in-place buffer", X, Y)

    @P.unit(name + "/backward", trials=trials)
    def _(c):
        p, d, X = inputs(c)
        ops = c.ops
        dY = c.array("dY", *d)
        Y = fwd(ops, X, p, {})
        s = c.snap(X, dY, Y)
        dX = bwd(ops, dY, X, Y, p, {})
        c.frame("inputs unmodified", s)
        c.vjp("%s'" % name, lambda x: fwd(ops, x, p, {}), [X], dY, [dX])
        if inplace_bwd:
            r = bwd(ops, dY, X, Y, p, {"inplace": True})
            c.eq("in-place gradient", r, dX)


def clip(c, x, lo, hi):
    return c.ite(x < lo, lo, c.ite(x > hi, hi, x))


def clipped(c, x, s, o, a, b):
    return clip(c, x * s + o, a, b)


def sig(c, x):
    return 1 / (1 + c.exp(-x))


act("sigmoid", lambda o, X, p, k: o.sigmoid(X, **k), lambda o, dY, X, Y, p, k: o.backprop_sigmoid(dY, Y, **k),
    lambda c, x: sig(c, clip(c, x, -20.0, 20.0)), smooth=lambda c, x: c.and_(x > -20.0, x < 20.0))
act("relu", lambda o, X, p, k: o.relu(X, **k), lambda o, dY, X, Y, p, k: o.backprop_relu(dY, Y, **k),
    lambda c, x: c.ite(x > 0, x, 0), smooth=lambda c, x: x != 0)


def cl_params(c):
    s = c.real("slope", pos=True) if not c.sym else c.real("slope", pos=True)
    if not c.sym:
        c.assume(s > 0.02)
    o, a, b = c.real("offset"), c.real("min_val"), c.real("max_val")
    c.assume(a <= b)
    return s, o, a, b


act("clipped_linear", lambda o, X, p, k: o.clipped_linear(X, *p, **k), lambda o, dY, X, Y, p, k: o.backprop_clipped_linear(dY, X, *p, **k),
    clipped, params=cl_params, smooth=lambda c, x, s, o, a, b: c.and_(x * s + o != a, x * s + o != b))
act("relu_k", lambda o, X, p, k: o.relu_k(X, n=p[0], **k), lambda o, dY, X, Y, p, k: o.backprop_relu_k(dY, X, n=p[0], **k),
    lambda c, x, n: clip(c, x, 0.0, n), params=lambda c: (c.real("n", pos=True),), smooth=lambda c, x, n: c.and_(x != 0, x != n))
act("relu_k default", lambda o, X, p, k: o.relu_k(X, **k), lambda o, dY, X, Y, p, k: o.backprop_relu_k(dY, X, **k),
    lambda c, x: clip(c, x, 0.0, 6.0), smooth=lambda c, x: c.and_(x != 0, x != 6))
act("hard_sigmoid", lambda o, X, p, k: o.hard_sigmoid(X, **k), lambda o, dY, X, Y, p, k: o.backprop_hard_sigmoid(dY, X, **k),
    lambda c, x: clip(c, 0.2 * x + 0.5, 0.0, 1.0), smooth=lambda c, x: c.and_(x != 2.5, x != -2.5))
act("hard_tanh", lambda o, X, p, k: o.hard_tanh(X, **k), lambda o, dY, X, Y, p, k: o.backprop_hard_tanh(dY, X, **k),
    lambda c, x: clip(c, x, -1.0, 1.0), smooth=lambda c, x: c.and_(x != 1, x != -1))
act("swish", lambda o, X, p, k: o.swish(X, **k), lambda o, dY, X, Y, p, k: o.backprop_swish(dY, X, Y, **k),
    lambda c, x: x * sig(c, clip(c, x, -20.0, 20.0)), smooth=lambda c, x: c.and_(x > -20.0, x < 20.0))
act("hard_swish", lambda o, X, p, k: o.hard_swish(X, **k), lambda o, dY, X, Y, p, k: o.backprop_hard_swish(dY, X, **k),
    lambda c, x: x * clip(c, 0.2 * x + 0.5, 0.0, 1.0), smooth=lambda c, x: c.and_(x != 2.5, x != -2.5))
act("hard_swish_mobilenet", lambda o, X, p, k: o.hard_swish_mobilenet(X, **k), lambda o, dY, X, Y, p, k: o.backprop_hard_swish_mobilenet(dY, X, **k),
    lambda c, x: x * clip(c, x + 3, 0.0, 6.0) / 6, smooth=lambda c, x: c.and_(x != 3, x != -3))
act("dish", lambda o, X, p, k: o.dish(X, **k), lambda o, dY, X, Y, p, k: o.backprop_dish(dY, X, **k),
    lambda c, x: 0.5 * x * (x / c.sqrt(1 + x * x) + 1))
act("gelu", lambda o, X, p, k: o.gelu(X, **k), lambda o, dY, X, Y, p, k: o.backprop_gelu(dY, X, **k),
    lambda c, x: x * 0.5 * (1 + c.erf(x / c.sqrt(2))))
act("mish", lambda o, X, p, k: o.mish(X, threshold=p[0], **k), lambda o, dY, X, Y, p, k: o.backprop_mish(dY, X, threshold=p[0], **k),
    lambda c, x, t: c.ite(x >= t, x, x * c.tanh(c.log(1 + c.exp(x)))), params=lambda c: (c.real("threshold", lo=-30.0, hi=30.0),), smooth=lambda c, x, t: x != t)
act("mish default", lambda o, X, p, k: o.mish(X, **k), lambda o, dY, X, Y, p, k: o.backprop_mish(dY, X, **k),
    lambda c, x: c.ite(x >= 20.0, x, x * c.tanh(c.log(1 + c.exp(x)))), smooth=lambda c, x: x != 20.0)


@P.unit("gelu_approx/forward")
def _(c):
    d = prep(c, 2)
    X = c.array("X", *d)
    old = c.value(X)
    Y = c.ops.gelu_approx(X)
    c.eq("input unmodified", X, old, 0)
    c.eq_build("gelu_approx formula", Y, d, lambda i, j: c.at(old, i, j) * 0.5 * (1 + c.tanh(c.sqrt(2 / c.pi) * (c.at(old, i, j) + 0.044715 * c.at(old, i, j) ** 3))))
    Y2 = c.ops.gelu_approx(X, inplace=True)
    c.eq("in-place", Y2, Y)
    c.eq("in-place buffer", X, Y)


@P.unit("gelu_approx/backward")
def _(c):
    d = prep(c, 2)
    X, dY = c.array("X", *d), c.array("dY", *d)
    s = c.snap(X, dY)
    dX = c.ops.backprop_gelu_approx(dY, X)
    c.frame("inputs unmodified", s)

    def f(i, j):
        x = c.at(X, i, j)
        u = 0.0356774 * x ** 3 + 0.797885 * x
        cu = clip(c, u, -20.0, 20.0)
        sech = 2 / (c.exp(cu) + c.exp(-cu))
        return c.at(dY, i, j) * (0.5 + 0.5 * c.tanh(u) + (0.0535161 * x ** 3 + 0.398942 * x) * sech * sech)

    c.eq_build("gelu_approx gradient formula", dX, d, f)
    if not c.sym:
        c.vjp("gelu_approx'", lambda x: c.ops.gelu_approx(x), [X], dY, [dX])
        k = math.sqrt(2 / math.pi)
        c.check("published constants", abs(k * 0.044715 - 0.0356774) < 1e-6 and abs(k - 0.797885) < 1e-5 and abs(1.5 * k * 0.044715 - 0.0535161) < 1e-6)
    r = c.ops.backprop_gelu_approx(dY, X, inplace=True)
    c.eq("in-place", r, dX)


@P.unit("erf", sym=False)
def _(c):
    import numpy
    X = numpy.linspace(-5, 5, 501).astype("float64") + c.real("shift", lo=-0.01, hi=0.01)
    c.eq("erf approximation", c.ops.erf(X), numpy.array([math.erf(v) for v in X]), tol=2e-7)
    c.eq("erf odd", c.ops.erf(-X), -c.ops.erf(X), tol=1e-12)


@P.unit("tanh/derivative")
def _(c):
    d = prep(c, 2)
    X, dY = c.array("X", *d), c.array("dY", *d)
    Y = c.xp.tanh(X)
    s = c.snap(Y)
    g = c.ops.dtanh(Y)
    c.frame("input unmodified", s)
    c.vjp("tanh'", lambda x: c.xp.tanh(x), [X], dY, [dY * g])
    g2 = c.ops.dtanh(Y, inplace=True)
    c.eq("in-place", g2, g)
    c.eq("in-place buffer", Y, g)


@P.unit("sigmoid/derivative")
def _(c):
    d = prep(c, 2)
    Y = c.array("Y", *d)
    s = c.snap(Y)
    g = c.ops.dsigmoid(Y)
    c.frame("input unmodified", s)
    c.eq_build("dsigmoid", g, d, lambda i, j: c.at(Y, i, j) * (1 - c.at(Y, i, j)))
    g2 = c.ops.dsigmoid(Y, inplace=True)
    c.eq("in-place", g2, g)


@P.unit("softmax/forward")
def _(c):
    n, m = c.dim("n"), c.dim("m", 1)
    X = c.array("X", n, m)
    s = c.snap(X)
    if c.flag("tempered"):
        t = c.real("temperature", pos=True)
        if not c.sym:
            t = max(t, 0.2)
        Y = c.ops.softmax(X, temperature=t)
    else:
        t = 1
        Y = c.ops.softmax(X)
    c.frame("input unmodified", s)
    if c.sym:
        from vc import terms as T
    mx = lambda i: c.max(m, lambda k: c.at(X, i, k) / t)
    c.eq_build("softmax formula", Y, (n, m), lambda i, j: c.exp(c.at(X, i, j) / t - mx(i)) / c.sum(m, lambda k: c.exp(c.at(X, i, k) / t - mx(i))))
    if n > 0:
        c.eq("rows sum to one", c.sum(m, lambda k: c.at(Y, 0, k)), 1)


@P.unit("softmax/axis0")
def _(c):
    n, m = c.dim("n", 1), c.dim("m")
    X, dY = c.array("X", n, m), c.array("dY", n, m)
    Y = c.ops.softmax(X, axis=0)
    s = c.snap(Y, dY)
    dX = c.ops.backprop_softmax(Y, dY, axis=0)
    c.frame("inputs unmodified", s)
    e = lambda i, j: c.exp(c.at(X, i, j) - c.max(n, lambda k: c.at(X, k, j)))
    c.eq_build("softmax axis 0", Y, (n, m), lambda i, j: e(i, j) / c.sum(n, lambda k: e(k, j)))
    c.eq_build("softmax axis 0 gradient", dX, (n, m), lambda i, j: c.at(Y, i, j) * (c.at(dY, i, j) - c.sum(n, lambda k: c.at(Y, k, j) * c.at(dY, k, j))))


@P.unit("softmax/backward")
def _(c):
    """dX = Y*(dY - <Y, dY>)/T, the Jacobian of softmax(./T) applied to dY, where Y is the forward output"""
    n, m = c.dim("n"), c.dim("m", 1)
    X, dY = c.array("X", n, m), c.array("dY", n, m)
    t = c.real("temperature", pos=True) if c.flag("tempered") else 1.0
    if not c.sym:
        t = max(t, 0.2)
    Y = c.ops.softmax(X, temperature=t)
    s = c.snap(Y, dY)
    dX = c.ops.backprop_softmax(Y, dY, temperature=t)
    c.frame("inputs unmodified", s)
    # shift-invariant form of the forward formula (exp(x/t)/sum exp(x/t)) is differentiated
    def plain(x):
        e = c.xp.exp(x / t)
        return e / e.sum(axis=-1, keepdims=True)
    if c.sym:
        c.vjp("softmax'", plain, [X], dY, [c.ops.backprop_softmax(plain(X), dY, temperature=t)])
    else:
        c.vjp("softmax'", lambda x: c.ops.softmax(x, temperature=t), [X], dY, [dX])


@P.unit("softmax/shift-invariance")
def _(c):
    """the max-shifted quotient equals the plain quotient exp(x)/sum exp(x)"""
    m = c.dim("m", 1)
    X = c.array("X", m)
    t = c.real("shift")
    s1 = c.sum(m, lambda k: c.exp(c.at(X, k) - t))
    s2 = c.sum(m, lambda k: c.exp(c.at(X, k)))
    if c.sym:
        c.eq("factor", s1 * c.exp(t), s2)
    else:
        c.eq("factor", s1 * math.exp(t), s2)


@P.unit("softmax_sequences", secs=200)
def _(c):
    B = c.dim("B")
    from contracts.common import lengths, offsets
    L = lengths(c, B, lo=1)
    N = offsets(c, L, B)
    m = c.dim("m", 1)
    X = c.array("X", N, m)
    s = c.snap(X, L)
    Y = c.ops.softmax_sequences(X, L)
    c.frame("inputs unmodified", s)
    if B > 0:
        b = c.int("b", 0, B - 1)
        k = c.int("k", 0)
        c.assume(k < c.at(L, b))
        if m > 0:
            j = c.int("j", 0, m - 1)
            off = offsets(c, L, b)
            e = lambda i: c.exp(clip(c, c.at(X, i, j), -20.0, 20.0))
            c.eq("softmax within each sequence", c.at(Y, off + k, j), e(off + k) / c.sum(c.at(L, b), lambda q: e(off + q)))
