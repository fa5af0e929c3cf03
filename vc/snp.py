"""symbolic numpy: contracts for symbolic arguments, the real numpy otherwise"""
import numpy as np
from . import terms as T
from . import tensor as X
from .engine import E, S, term, wrap, wrapb, Unsupported, tpow
from .tensor import SymTensor, is_t


def symbolic(*xs):
    from .runtime import SList, SymIter
    for x in xs:
        if is_t(x) or type(x) is S or type(x) is X.Masked or isinstance(x, SymIter):
            return True
        if type(x) is SList:
            if x.segs is not None:
                return True
            if symbolic(*list(list.__iter__(x))):
                return True
        elif type(x) in (list, tuple):
            if symbolic(*x):
                return True
    return False


def dt(dtype, default=X.F8):
    if dtype is None:
        return np.dtype(default)
    if type(dtype) is _FloatType:
        dtype = dtype.real
    if callable(dtype) and not isinstance(dtype, type) and not isinstance(dtype, np.dtype):
        n = getattr(dtype, "__name__", "")
        dtype = {"vint": int, "vfloat": float, "vbool": bool}.get(n, dtype)
    return np.dtype(dtype)


def shp(shape):
    from .runtime import SList
    if type(shape) is S or isinstance(shape, (int, np.integer)):
        return (shape,)
    return tuple(shape)


class Linalg:
    def norm(self, x, *a, **k):
        if not symbolic(x):
            return np.linalg.norm(x, *a, **k)
        if is_t(x):
            axis = a[1] if len(a) > 1 else k.get("axis")
            keep = k.get("keepdims", False)
            if a and a[0] not in (None, 2) or k.get("ord") not in (None, 2):
                raise Unsupported("norm order")
            sq = X.ew(lambda c: T.mul(c, c), x)
            s = X.reduce_sum(sq, axis, keep)
            return sqrt(s)
        t = term(x)
        return wrap(T.absv(t))

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def u(name, f):
    def g(x, out=None, **kw):
        if not symbolic(x, out):
            return getattr(np, name)(x, **kw) if out is None else getattr(np, name)(x, out=out, **kw)
        if isinstance(out, tuple):
            out = out[0]
        if type(x) is X.Masked:
            return X.ew(f, x, dtype=x.dtype if x.dtype.kind == "f" else X.F8, out=out)
        t = X.lift(x)
        if not is_t(t):
            r = wrap(f(X.arith(t)))
            if out is not None:
                X.assign(out, term(r))
                return out
            return r
        return X.ew(f, t, dtype=t.dtype if t.dtype.kind == "f" else X.F8, out=out)
    g.__name__ = name
    return g


def ukeep(name, f):
    def g(x, out=None, **kw):
        if not symbolic(x, out):
            return getattr(np, name)(x, **kw) if out is None else getattr(np, name)(x, out=out, **kw)
        t = X.lift(x)
        if not is_t(t):
            return wrap(f(X.arith(t)))
        return X.ew(f, t, out=out)
    g.__name__ = name
    return g


def b2(name, f, dtype=None, real=False):
    def g(a, b, out=None, **kw):
        if not symbolic(a, b, out):
            return getattr(np, name)(a, b, **kw) if out is None else getattr(np, name)(a, b, out=out, **kw)
        if type(a) is X.Masked or type(b) is X.Masked:
            return X.ew(f, a, b, dtype=dtype, real=real, out=out)
        la, lb = X.lift(a), X.lift(b)
        if not is_t(la) and not is_t(lb):
            r = wrap(f(X.arith(la) if dtype is None else la, X.arith(lb) if dtype is None else lb))
            if out is not None:
                X.assign(out, term(r))
                return out
            return r
        return X.ew(f, S(la) if not is_t(la) else la, S(lb) if not is_t(lb) else lb, dtype=dtype, real=real, out=out)
    g.__name__ = name
    return g


class Random:
    """random number generation: an arbitrary result within the documented support"""

    def uniform(self, lo=0.0, hi=1.0, size=None):
        if not symbolic(lo, hi, size):
            return np.random.uniform(lo, hi, size)
        from . import solve
        t = X.tensor("uniform!%d" % T.fresh("u", "I").id, *shp(size), dtype="float64")
        l, h = term(lo), term(hi)
        solve.FACTS[t.st.content] = lambda s, idx: T.and_(T.le(l, s), T.le(s, h))
        return t

    PERM = []  # permutations applied by shuffle

    def shuffle(self, x):
        """x[i] becomes x[p(i)] for an arbitrary permutation p"""
        if not symbolic(x):
            if type(x).__module__ == "numpy":
                return np.random.shuffle(x)
            raise Unsupported("shuffle of %r" % type(x))
        from . import solve
        n = x.dims[0]
        p = T.fresh("perm", "O")
        solve.FACTS[p] = lambda s, idx: T.and_(T.le(T.ZERO, s), T.lt(s, n))
        old = x.lam()
        srt = X.sort_of(x.dtype)
        x.write(lambda i: T.sel(old, T.sel(p, i[0], sort="I"), *i[1:], sort=srt), lambda i: T.TRUE)
        self.PERM.append(p)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if not symbolic(loc, scale, size):
            return np.random.normal(loc, scale, size)
        return X.tensor("normal!%d" % T.fresh("u", "I").id, *shp(size), dtype="float64")

    def __getattr__(self, n):
        return getattr(np.random, n)


half = T.F(1, 2)
sqrt = u("sqrt", lambda c: T.power(c, half))


def _sign(c):
    return T.sub(T.iv(T.gt(c, T.ZERO)), T.iv(T.lt(c, T.ZERO)))


class _FloatType:
    """numpy.float32 / float64 as scalar constructors; a concrete scalar stays an exact real"""

    def __init__(self, real):
        self.real = real

    def __call__(self, x=0.0):
        if symbolic(x):
            t = X.lift(x)
            return X.astype(t, np.dtype(self.real)) if is_t(t) else S(term(x))
        if isinstance(x, (int, float)):
            return S(term(float(x)))
        return self.real(x)

    @property
    def dtype(self):
        return np.dtype(self.real)


class _Add:
    """numpy.add with .at"""

    def __call__(self, *a, **k):
        return b2("add", T.add)(*a, **k)

    @staticmethod
    def at(table, idx, vals):
        if not symbolic(table, idx, vals):
            return np.add.at(table, idx, vals)
        scatter_add(table, idx, vals)


def scatter_add(table, idx, vals):
    """table[idx[k]] += vals[k] for every k, duplicates accumulate (numpy.add.at)"""
    q = X.lift(idx)
    v = X.lift(vals)
    if not is_t(q):
        raise Unsupported("scatter_add scalar index")
    if not is_t(v):
        raise Unsupported("scatter_add scalar value")
    rest = table.dims[1:]
    out = tuple(q.dims) + tuple(rest)
    if v.ndim > len(out):
        raise ValueError("shape mismatch")
    off = len(out) - v.ndim
    for k, d in enumerate(v.dims):
        if d is not T.ONE and d is not out[off + k]:
            X.dim_eq(d, out[off + k], "shape mismatch")
    ks = X.freshidx(q.dims)
    row = X.bounded_index(q.cell(*ks), table.dims[0], q, ks, q.dims)
    old = table.lam()

    def fn(i):
        c = T.mul(T.iv(T.eq(row, i[0])), X.arith(X.bcell(v, tuple(ks) + tuple(i[1:]), out)))
        return T.add(T.sel(old, *i, sort=X.sort_of(table.dtype)), T.sums([(k, T.ZERO, d) for k, d in zip(ks, q.dims)], c))

    table.write(fn)


class SymNumpy:
    """module object standing for numpy"""

    random = Random()
    linalg = Linalg()
    add = _Add()
    pi = S(T.PI)

    def __getattr__(self, name):
        v = getattr(np, name)
        if name in ("float64", "float32"):
            return _FloatType(v)
        if callable(v) and not isinstance(v, type):
            def guard(*a, **k):
                if symbolic(*a, *k.values()):
                    raise Unsupported("numpy.%s on symbolic arguments" % name)
                return v(*a, **k)
            guard.__name__ = name
            return guard
        return v

    # constructors
    def _fill(self, name, shape, val, dtype):
        shape = shp(shape)
        d = dt(dtype)
        v = term(val)
        if d.kind == "b":
            v = T.not_(T.eq(v, T.ZERO)) if v.sort != "B" else v
        return X.from_fn(shape, lambda *i: v, d)

    def zeros(self, shape, dtype=None, **k):
        if not symbolic(shape) and not FORCE[0]:
            return np.zeros(shape, dt(dtype))
        return self._fill("zeros", shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        if not symbolic(shape) and not FORCE[0]:
            return np.ones(shape, dt(dtype))
        return self._fill("ones", shape, 1, dtype)

    def full(self, shape, v, dtype=None):
        if not symbolic(shape, v) and not FORCE[0]:
            return np.full(shape, v, dtype)
        return self._fill("full", shape, v, dtype)

    def empty(self, shape, dtype=None, **k):
        if not symbolic(shape) and not FORCE[0]:
            return np.empty(shape, dt(dtype))
        st = X.Storage(T.fresh("uninit", "O"), X.dims(shp(shape)), "uninitialised")
        return X.whole(st, dt(dtype))

    def zeros_like(self, x, dtype=None, **k):
        if not symbolic(x):
            return np.zeros_like(x, dtype=dtype)
        return self._fill("zeros", x.shape, 0, dtype or x.dtype)

    def ones_like(self, x, dtype=None, **k):
        if not symbolic(x):
            return np.ones_like(x, dtype=dtype)
        return self._fill("ones", x.shape, 1, dtype or x.dtype)

    def empty_like(self, x, dtype=None, **k):
        if not symbolic(x):
            return np.empty_like(x, dtype=dtype)
        return self.empty(x.shape, dtype or x.dtype)

    def arange(self, *a, **k):
        if not symbolic(*a):
            return np.arange(*a, **k)
        if len(a) == 1:
            return X.from_fn((a[0],), lambda i: i, dt(k.get("dtype"), X.I8))
        lo = term(a[0])
        return X.from_fn((S(T.sub(term(a[1]), lo)),), lambda i: T.add(lo, i), dt(k.get("dtype"), X.I8))

    def array(self, x, dtype=None, copy=True, **k):
        if not symbolic(x):
            from .runtime import SList
            if type(x) is SList:
                x = list(x)
            return np.array(x, dtype=dt(dtype) if dtype is not None else None)
        t = X.lift(x)
        if not is_t(t):
            t = X.from_body((), t, (), X.F8 if t.sort == "R" else X.I8)
            return t
        if dtype is not None and dt(dtype) != t.dtype:
            return X.astype(t, dt(dtype))
        return X.copy(t)

    def asarray(self, x, dtype=None, **k):
        if is_t(x):
            if dtype is None or dt(dtype) == x.dtype:
                return x
            return X.astype(x, dt(dtype))
        return self.array(x, dtype)

    def ascontiguousarray(self, x, dtype=None):
        if is_t(x):
            if dtype is not None and dt(dtype) != x.dtype:
                return X.astype(x, dt(dtype))
            return x if x.contig else X.copy(x)
        if symbolic(x):
            return self.array(x, dtype)
        return np.ascontiguousarray(x, dtype)

    def copy(self, x):
        return X.copy(x) if is_t(x) else np.copy(x)

    def copyto(self, dst, src):
        if is_t(dst):
            X.assign(dst, X.lift(src))
        else:
            if symbolic(src):
                raise Unsupported("copyto")
            np.copyto(dst, src)

    def isscalar(self, x):
        return True if type(x) is S else np.isscalar(x)

    # elementwise
    exp = staticmethod(u("exp", lambda c: T.app("exp", c)))
    log = staticmethod(u("log", lambda c: T.app("log", c)))
    log1p = staticmethod(u("log1p", lambda c: T.app("log", T.add(T.ONE, c))))
    expm1 = staticmethod(u("expm1", lambda c: T.sub(T.app("exp", c), T.ONE)))
    tanh = staticmethod(u("tanh", lambda c: T.app("tanh", c)))
    cosh = staticmethod(u("cosh", lambda c: T.app("cosh", c)))
    sinh = staticmethod(u("sinh", lambda c: T.app("sinh", c)))
    cos = staticmethod(u("cos", lambda c: T.app("cos", c)))
    sin = staticmethod(u("sin", lambda c: T.app("sin", c)))
    sqrt = staticmethod(sqrt)
    floor = staticmethod(u("floor", lambda c: T.app("floor", c, sort="I")))
    ceil = staticmethod(u("ceil", lambda c: T.neg(T.app("floor", T.neg(c), sort="I"))))
    abs = absolute = fabs = staticmethod(ukeep("abs", T.absv))
    square = staticmethod(ukeep("square", lambda c: T.mul(c, c)))
    negative = staticmethod(ukeep("negative", T.neg))
    reciprocal = staticmethod(u("reciprocal", lambda c: T.power(c, -1)))
    sign = staticmethod(ukeep("sign", _sign))
    subtract = staticmethod(b2("subtract", T.sub))
    multiply = staticmethod(b2("multiply", T.mul))
    divide = true_divide = staticmethod(b2("divide", T.div, real=True))
    power = staticmethod(b2("power", tpow))
    maximum = staticmethod(b2("maximum", T.tmax))
    minimum = staticmethod(b2("minimum", T.tmin))
    greater = staticmethod(b2("greater", T.gt, X.B1))
    less = staticmethod(b2("less", T.lt, X.B1))
    logical_and = staticmethod(b2("logical_and", T.and_, X.B1))
    logical_or = staticmethod(b2("logical_or", T.or_, X.B1))
    equal = staticmethod(b2("equal", T.eq, X.B1))

    def logical_not(self, x):
        return ~x if is_t(x) else np.logical_not(x)

    def isnan(self, x):
        if not symbolic(x):
            return np.isnan(x)
        return X.ew(lambda c: T.FALSE, x, dtype=X.B1)

    def isinf(self, x):
        if not symbolic(x):
            return np.isinf(x)
        return X.ew(lambda c: T.FALSE, x, dtype=X.B1)

    def isfinite(self, x):
        if not symbolic(x):
            return np.isfinite(x)
        return X.ew(lambda c: T.TRUE, x, dtype=X.B1)

    def clip(self, x, lo, hi, out=None):
        if not symbolic(x, lo, hi, out):
            return np.clip(x, lo, hi) if out is None else np.clip(x, lo, hi, out=out)
        t = X.lift(x)

        def f(c, *ab):
            k = 0
            if lo is not None:
                c = T.tmax(c, ab[k])
                k += 1
            if hi is not None:
                c = T.tmin(c, ab[k])
            return c

        return X.ew(f, t, *[z for z in (lo, hi) if z is not None], out=out,
                    dtype=t.dtype if is_t(t) else None)

    def where(self, c, a=None, b=None):
        if not symbolic(c, a, b):
            return np.where(c, a, b) if a is not None else np.where(c)
        if a is None:
            raise Unsupported("numpy.where with one argument")
        lc, la, lb = X.lift(c), X.lift(a), X.lift(b)

        def f(x, y, z):
            if x.sort != "B":
                x = T.not_(T.eq(x, T.ZERO))
            return T.ite(x, X.arith(y), X.arith(z))

        shape = X.broadcast_shape([lc, la, lb])
        idx = X.freshidx(shape)
        body = f(*[X.bcell(q, idx, shape) for q in (lc, la, lb)])
        if not shape:
            return wrap(body)
        return X.from_body(idx, body, shape, X.result_dtype([la, lb]))

    # reductions
    def sum(self, x, axis=None, keepdims=False, out=None, dtype=None):
        if not symbolic(x):
            return np.sum(x, axis=axis, keepdims=keepdims)
        return X.reduce_sum(X.lift(x), axis, keepdims, out)

    def mean(self, x, axis=None, keepdims=False, **k):
        return X.mean(x, axis, keepdims) if symbolic(x) else np.mean(x, axis=axis, keepdims=keepdims)

    def var(self, x, axis=None, keepdims=False, **k):
        return X.var(x, axis, keepdims) if symbolic(x) else np.var(x, axis=axis, keepdims=keepdims)

    def max(self, x, axis=None, keepdims=False, **k):
        return X.reduce_ext("max", x, axis, keepdims) if symbolic(x) else np.max(x, axis=axis, keepdims=keepdims)

    amax = max

    def min(self, x, axis=None, keepdims=False, **k):
        return X.reduce_ext("min", x, axis, keepdims) if symbolic(x) else np.min(x, axis=axis, keepdims=keepdims)

    def argmax(self, x, axis=None, **k):
        return X.reduce_ext("argmax", x, axis) if symbolic(x) else np.argmax(x, axis=axis)

    def any(self, x, axis=None):
        if not symbolic(x):
            return np.any(x, axis=axis)
        if axis is not None:
            raise Unsupported("any axis")
        return X.quant(x, True)

    def all(self, x, axis=None):
        if not symbolic(x):
            return np.all(x, axis=axis)
        if axis is not None:
            raise Unsupported("all axis")
        return X.quant(x, False)

    def prod(self, x, **k):
        if not symbolic(x):
            return np.prod(x, **k)
        if isinstance(x, (tuple, list)):
            return wrap(T.mul(*[term(v) for v in x])) if len(x) else 1.0
        raise Unsupported("prod")

    def cumsum(self, x, axis=None, dtype=None, out=None):
        if not symbolic(x, out):
            return np.cumsum(x, axis=axis, dtype=dtype, out=out)
        t = X.lift(x)
        if t.ndim != 1:
            raise Unsupported("cumsum nd")
        k = T.fresh("k", "I")
        res = X.from_fn(t.shape, lambda i: T.tsum(k, T.ZERO, T.add(i, T.ONE), X.arith(t.cell(k))), dtype or t.dtype)
        if out is not None:
            out[...] = res
            return out
        return res

    UNIQUE = []

    def unique(self, x, return_index=False, return_inverse=False, return_counts=False, axis=None):
        """the distinct values: x[ind[u]] == uniq[u], uniq[inv[i]] == x[i], no two equal (their order is left open)"""
        if not symbolic(x):
            return np.unique(x, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
        from . import solve
        t = X.lift(x)
        if t.ndim != 1 or axis is not None:
            raise Unsupported("unique nd")
        n = t.dims[0]
        m, uq, iv, ix, rank = T.fresh("uniques", "I"), T.fresh("uniq", "O"), T.fresh("inverse", "O"), T.fresh("index", "O"), T.fresh("rank", "O")
        E.assume(T.and_(T.le(T.ZERO, m), T.le(m, n), T.or_(T.le(n, T.ZERO), T.le(T.ONE, m))))
        srt = X.sort_of(t.dtype)
        inr = lambda i, k: T.and_(T.le(T.ZERO, i), T.lt(i, k))
        solve.FACTS[iv] = lambda s, idx: T.or_(T.not_(inr(idx[0], n)), T.and_(inr(s, m), T.eq(T.sel(uq, s, sort=srt), t.cell(idx[0])),
                                                                               T.eq(T.sel(rank, t.cell(idx[0]), sort="I"), s)))
        solve.FACTS[ix] = lambda s, idx: T.or_(T.not_(inr(idx[0], m)), T.and_(inr(s, n), T.eq(t.cell(s), T.sel(uq, idx[0], sort=srt))))
        solve.FACTS[uq] = lambda s, idx: T.or_(T.not_(inr(idx[0], m)), T.eq(T.sel(rank, s, sort="I"), idx[0]))
        out = [X.from_fn((m,), lambda u: T.sel(uq, u, sort=srt), t.dtype)]
        if return_index:
            out.append(X.from_fn((m,), lambda u: T.sel(ix, u, sort="I"), "int64"))
        if return_inverse:
            out.append(X.from_fn((n,), lambda i: T.sel(iv, i, sort="I"), "int64"))
        if return_counts:
            k = T.fresh("k", "I")
            out.append(X.from_fn((m,), lambda u: T.tsum(k, T.ZERO, n, T.iv(T.eq(T.sel(iv, k, sort="I"), u))), "int64"))
        self.UNIQUE.append((iv, m))
        return tuple(out) if len(out) > 1 else out[0]

    # linear algebra / layout
    def dot(self, a, b, out=None):
        if not symbolic(a, b):
            return np.dot(a, b, out=out)
        return X.dot(a, b, out)

    matmul = dot

    def outer(self, a, b, out=None):
        if not symbolic(a, b):
            return np.outer(a, b)
        a, b = X.lift(a), X.lift(b)
        a, b = X.reshape(a, (-1,)), X.reshape(b, (-1,))
        return X.from_fn((S(a.dims[0]), S(b.dims[0])), lambda i, j: T.mul(a.cell(i), b.cell(j)), np.promote_types(a.dtype, b.dtype))

    def concatenate(self, xs, axis=0, **k):
        if not symbolic(xs):
            return np.concatenate(list(xs), axis=axis)
        return X.concatenate(xs, axis)

    def hstack(self, xs):
        if not symbolic(xs):
            return np.hstack(list(xs))
        from .runtime import SList
        if type(xs) is SList and xs.segs is not None:
            first = xs[0]
        else:
            first = list(xs)[0]
        return X.concatenate(xs, 1 if first.ndim > 1 else 0)

    def vstack(self, xs):
        if not symbolic(xs):
            return np.vstack(list(xs))
        from .runtime import SList
        if type(xs) is SList and xs.segs is not None:
            e = xs[0]
            if e.ndim > 1:
                return X.concatenate(xs, 0)
            return X.stack_list(xs)
        xs = [X.lift(x) for x in xs]
        xs = [x if x.ndim > 1 else X.reshape(x, (1, -1)) for x in xs]
        return X.concatenate(xs, 0)

    def stack(self, xs, axis=0):
        if not symbolic(xs):
            return np.stack(list(xs), axis=axis)
        if axis != 0:
            raise Unsupported("stack axis")
        return X.stack_list(xs)

    def split(self, x, where, axis=0):
        if not symbolic(x, where):
            return np.split(x, where, axis=axis)
        from .runtime import SList, symlist
        if axis != 0:
            raise Unsupported("split axis")
        w = X.lift(where)
        if not is_t(w):
            raise Unsupported("split sections")
        n = w.dims[0]
        t = X.lift(x)

        def piece(k, lo, hi):
            return t[wrap(lo):wrap(hi)]

        def first():
            return piece(0, T.ZERO, w.cell(T.ZERO))

        def mid(i):
            lo = w.cell(T.sub(i, T.ONE))
            hi = w.cell(i)
            return split_piece(t, lo, hi)

        if n.op == "num":
            m = int(n.args[0])
            cuts = [T.ZERO] + [w.cell(T.num(k)) for k in range(m)]
            out = [split_piece(t, cuts[k], cuts[k + 1]) for k in range(m)]
            out.append(split_piece(t, cuts[m], t.dims[0]))
            return SList(out)

        # piece i (0<=i<n): rows [cum(i-1), cum(i)); with cum(-1)=0 ; then the tail
        def at(i):
            hi = w.cell(i)
            lo = T.ZERO if i is T.ZERO else w.cell(T.sub(i, T.ONE))
            return split_piece(t, lo, hi)

        return SList(segs=[("map", n, at), ("items", [LazyTail(lambda: split_piece(t, w.cell(T.sub(n, T.ONE)), t.dims[0]))])])

    def tile(self, x, reps):
        if not symbolic(x, reps):
            return np.tile(x, reps)
        t = X.lift(x)
        if isinstance(reps, tuple):
            raise Unsupported("tile tuple")
        d = list(t.dims)
        last = d[-1]
        d[-1] = T.mul(last, term(reps))
        return X.from_fn(tuple(S(z) for z in d), lambda *i: t.cell(*i[:-1], T.app("mod", i[-1], last, sort="I")), t.dtype)

    def expand_dims(self, x, axis):
        if not symbolic(x):
            return np.expand_dims(x, axis)
        k = [slice(None)] * x.ndim
        k.insert(axis % (x.ndim + 1), None)
        return x[tuple(k)]

    def squeeze(self, x, axis=None):
        if not symbolic(x):
            return np.squeeze(x, axis)
        raise Unsupported("squeeze")

    def reshape(self, x, shape):
        return X.reshape(x, shape) if symbolic(x, shape) else np.reshape(x, shape)

    def transpose(self, x, axes=None):
        return X.transpose(x, axes) if is_t(x) else np.transpose(x, axes)

    def put_along_axis(self, arr, ind, vals, axis):
        if not symbolic(arr, ind, vals):
            return np.put_along_axis(arr, ind, vals, axis)
        axis = axis % arr.ndim
        q = X.lift(ind)
        v = X.lift(vals)
        if q.dims[axis] is not T.ONE:
            raise Unsupported("put_along_axis with several indices")
        ql = q.lam()
        vl = v.lam() if is_t(v) else None

        def at(i):
            j = list(i)
            j[axis] = T.ZERO
            return tuple(j)

        arr.write(lambda i: X.bcell(v, at(i), tuple(q.dims)) if is_t(v) else v,
                  lambda i: T.eq(q.cell(*at(i)), i[axis]))

    def fill_diagonal(self, a, val, wrap=False):
        if not is_t(a):
            return np.fill_diagonal(a, val, wrap)
        v = term(val)
        a.write(lambda i: v, lambda i: T.and_(*[T.eq(i[0], j) for j in i[1:]]))

    def take_along_axis(self, arr, ind, axis):
        if not symbolic(arr, ind):
            return np.take_along_axis(arr, ind, axis)
        axis = axis % arr.ndim
        d = tuple(S(q) for q in ind.dims)
        return X.from_fn(d, lambda *i: arr.cell(*[ind.cell(*i) if k == axis else z for k, z in enumerate(i)]), arr.dtype)

    def take(self, arr, ind, axis=None, **k):
        if not symbolic(arr, ind):
            return np.take(arr, ind, axis=axis)
        if axis in (0,):
            return arr[ind]
        raise Unsupported("take")

    def array_equal(self, a, b):
        if not symbolic(a, b):
            return np.array_equal(a, b)
        raise Unsupported("array_equal")

    def may_share_memory(self, a, b):
        if is_t(a) and is_t(b):
            return a.st is b.st
        return False


class LazyTail:
    def __init__(self, f):
        self.f = f


def split_piece(t, lo, hi):
    """rows [lo,hi) of t as a view, numpy.split semantics for 0<=lo<=hi<=len"""
    f, g = t.fwd, t.inv
    d = (T.sub(hi, lo),) + tuple(t.dims[1:])

    def inv(J):
        c, s = g(J)
        y = T.sub(s[0], lo)
        return T.and_(c, T.ge(y, T.ZERO), T.lt(y, d[0])), (y,) + tuple(s[1:])

    r = SymTensor(t.st, d, lambda i: f((T.add(i[0], lo),) + tuple(i[1:])), inv, t.dtype)
    r.contig = t.contig
    return r


FORCE = [False]
SNP = SymNumpy()
