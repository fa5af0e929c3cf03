"""Symbolic arrays with symbolic shapes.  The methods and functions here are the
assumed contracts on numpy (validated against numpy by selftest)."""
import numpy as real_np
from . import terms as T
from .engine import E, S, term, wrap, wrapb, Unsupported, _ar, tpow, _truediv, _floordiv, _mod
from .terms import Term

F4 = real_np.dtype("float32")
F8 = real_np.dtype("float64")
I4 = real_np.dtype("int32")
I8 = real_np.dtype("int64")
U8 = real_np.dtype("uint64")
B1 = real_np.dtype("bool")


def sort_of(dt):
    return {"f": "R", "i": "I", "u": "I", "b": "B", "O": "O"}[real_np.dtype(dt).kind]


class Storage:
    __slots__ = ("content", "shape", "version", "frozen", "name", "bounds", "__weakref__")

    def __init__(self, content, shape, name=""):
        self.content, self.shape, self.name = content, shape, name
        self.version = 0
        self.frozen = None
        self.bounds = None


def dims(shape):
    return tuple(term(d) for d in shape)


def freshidx(shape, hint="i"):
    out = []
    for d in shape:
        v = T.fresh(hint, "I")
        T.RANGE[v] = d
        out.append(v)
    return tuple(out)


def mklam(idx, body):
    return T.lam(list(idx), body) if idx else body


class SymTensor:
    __array_priority__ = 1000
    __slots__ = ("st", "dims", "fwd", "inv", "dtype", "whole", "__weakref__", "contig", "py")

    def __init__(self, st, dims_, fwd, inv, dtype, whole=False):
        self.st, self.dims, self.fwd, self.inv, self.dtype = st, dims_, fwd, inv, real_np.dtype(dtype)
        self.whole = whole
        self.contig = True
        self.py = real_np.ndarray

    # -- construction ----------------------------------------------------
    @property
    def __class__(self):
        return self.py

    @property
    def shape(self):
        return tuple(wrap(d) for d in self.dims)

    @shape.setter
    def shape(self, new):
        r = reshape(self, new)
        self.st, self.dims, self.fwd, self.inv = r.st, r.dims, r.fwd, r.inv

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return wrap(T.mul(*self.dims) if self.dims else T.ONE)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def flags(self):
        return _Flags(self)

    @property
    def data(self):
        return self

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __len__(self):
        if self.dims[0].op == "num":
            return int(self.dims[0].args[0])
        raise Unsupported("machine len() of a symbolic array")

    def cell(self, *idx):
        return T.sel(self.st.content, *self.fwd(tuple(idx)), sort=sort_of(self.dtype)) if self.st.shape else self.st.content

    def lam(self):
        """array-valued term of the current contents"""
        idx = freshidx(self.dims)
        return mklam(idx, self.cell(*idx))

    def write(self, fn, where=None):
        """self[idx] = fn(idx) for all idx (where(idx) restricts)"""
        if self.st.frozen:
            raise Unsupported("write into %s" % self.st.frozen)
        J = freshidx(self.st.shape, "J")
        old = T.sel(self.st.content, *J, sort=sort_of(self.dtype)) if J else self.st.content
        cond, idx = self.inv(J)
        val = fn(idx)
        if where is not None:
            cond = T.and_(cond, where(idx))
        self.st.content = mklam(J, T.ite(cond, val, old))
        self.st.version += 1

    def __repr__(self):
        try:
            idx = freshidx(self.dims)
            return "<T%s %s -> %s>" % (self.dims, idx, T.show(self.cell(*idx)))
        except Exception:
            return "<T>"

    def __vc_term__(self):
        if self.ndim == 0:
            return self.cell()
        if all(d is T.ONE for d in self.dims):
            return self.cell(*[T.ZERO] * self.ndim)
        raise Unsupported("array used as a scalar")

    def __bool__(self):
        if all(d is T.ONE for d in self.dims):
            return bool(S(self.cell(*[T.ZERO] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __iter__(self):
        if self.dims[0].op == "num":
            return iter([self[k] for k in range(int(self.dims[0].args[0]))])
        raise Unsupported("iteration over symbolic array outside an instrumented loop")

    # -- indexing ----------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    @property
    def T(self):
        return transpose(self)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], tuple):
            axes = axes[0]
        return transpose(self, axes or None)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))

    def flatten(self):
        return copy(reshape(self, (-1,)))

    def copy(self, order=None):
        return copy(self)

    def __copy__(self):
        return copy(self)

    def __deepcopy__(self, memo):
        return copy(self)

    def astype(self, dtype, **kw):
        return astype(self, dtype, **kw)

    def item(self):
        return S(self.__vc_term__())

    def fill(self, v):
        v = term(v)
        self.write(lambda idx: v)

    # -- reductions ----------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims, out)

    def cumsum(self, axis=None, **kw):
        from .snp import SNP
        return SNP.cumsum(self, axis=axis, **kw)

    def mean(self, axis=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def var(self, axis=None, keepdims=False, **kw):
        return var(self, axis, keepdims)

    def max(self, axis=None, keepdims=False, **kw):
        return reduce_ext("max", self, axis, keepdims)

    def min(self, axis=None, keepdims=False, **kw):
        return reduce_ext("min", self, axis, keepdims)

    def argmax(self, axis=None, **kw):
        return reduce_ext("argmax", self, axis, False)

    def any(self, axis=None):
        return quant(self, True)

    def all(self, axis=None):
        return quant(self, False)

    def dot(self, o, out=None):
        return dot(self, o, out=out)

    # -- arithmetic ----------------------------------------------------------
    def __add__(self, o): return ew(T.add, self, o)
    def __radd__(self, o): return ew(T.add, o, self)
    def __sub__(self, o): return ew(T.sub, self, o)
    def __rsub__(self, o): return ew(T.sub, o, self)
    def __mul__(self, o): return ew(T.mul, self, o)
    def __rmul__(self, o): return ew(T.mul, o, self)
    def __truediv__(self, o): return ew(T.div, self, o, real=True)
    def __rtruediv__(self, o): return ew(T.div, o, self, real=True)
    def __floordiv__(self, o): return ew(_floordiv, self, o)
    def __mod__(self, o): return ew(_mod, self, o)
    def __pow__(self, o): return ew(tpow, self, o)
    def __rpow__(self, o): return ew(tpow, o, self)
    def __neg__(self): return ew(T.neg, self)
    def __abs__(self): return ew(T.absv, self)
    def __matmul__(self, o): return dot(self, o)
    def __invert__(self): return ew(T.not_, self) if self.dtype.kind == "b" else ew(lambda a: T.sub(T.neg(a), T.ONE), self)
    def __iadd__(self, o): return iew(self, T.add, o)
    def __isub__(self, o): return iew(self, T.sub, o)
    def __imul__(self, o): return iew(self, T.mul, o)
    def __itruediv__(self, o): return iew(self, T.div, o)
    def __ipow__(self, o): return iew(self, tpow, o)
    def __lt__(self, o): return ew(T.lt, self, o, dtype=B1)
    def __le__(self, o): return ew(T.le, self, o, dtype=B1)
    def __gt__(self, o): return ew(T.gt, self, o, dtype=B1)
    def __ge__(self, o): return ew(T.ge, self, o, dtype=B1)
    def __eq__(self, o):
        if o is None:
            return ew(lambda a: T.FALSE, self, dtype=B1)
        return ew(T.eq, self, o, dtype=B1)
    def __ne__(self, o):
        if o is None:
            return ew(lambda a: T.TRUE, self, dtype=B1)
        return ew(lambda a, b: T.not_(T.eq(a, b)), self, o, dtype=B1)
    def __and__(self, o): return ew(T.and_, self, o, dtype=B1)
    def __or__(self, o): return ew(T.or_, self, o, dtype=B1)

    def __array__(self, *a, **k):
        raise Unsupported("real numpy applied to a symbolic array")

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy ufunc applied to a symbolic array")


class _Flags(dict):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        return self.t.contig if k == "C_CONTIGUOUS" else True

    @property
    def c_contiguous(self):
        return self.t.contig


def is_t(x):
    return type(x) is SymTensor


def fresh_storage(idx, body, dims_, name=""):
    return Storage(mklam(idx, body), dims_, name)


def from_fn(shape, fn, dtype, name=""):
    d = dims(shape)
    idx = freshidx(d)
    return from_body(idx, fn(*idx), d, dtype, name)


def from_body(idx, body, d, dtype, name=""):
    st = Storage(mklam(idx, body), tuple(d), name)
    return whole(st, dtype)


def whole(st, dtype):
    return SymTensor(st, st.shape, lambda i: i, lambda J: (T.TRUE, J), dtype, True)


def from_lam(lamt, shape, dtype, name=""):
    return whole(Storage(lamt, dims(shape), name), dtype)


def tensor(name, *shape, dtype=F4):
    """arbitrary array: one array-valued variable"""
    d = dims(shape)
    return whole(Storage(T.var(name, "O"), d, name), dtype)


def scalar_or(t):
    """0-d results become scalars, as numpy does"""
    if t.ndim == 0:
        return wrap_scalar(t.cell())
    return t


def wrap_scalar(t):
    return wrap(t)


# ----------------------------------------------------------------- shapes
def dim_eq(a, b, why="operands could not be broadcast together"):
    if a is b:
        return
    if E.solver.entails(T.eq(a, b)):
        return
    if not E.fork(T.eq(a, b)):
        raise ValueError(why)


def bdim(a, b):
    if a is b:
        return a
    if a is T.ONE:
        return b
    if b is T.ONE:
        return a
    if E.solver.entails(T.eq(a, b), 3000):
        return b if b.op == "num" else a
    if E.fork(T.eq(a, b)):
        return b if b.op == "num" else a
    if E.fork(T.eq(a, T.ONE)):
        return b
    if E.fork(T.eq(b, T.ONE)):
        return a
    raise ValueError("operands could not be broadcast together")


def is_one(d, out):
    if d is out:
        return False
    if d is T.ONE:
        return True
    return (not E.solver.entails(T.eq(d, out))) and E.solver.entails(T.eq(d, T.ONE))


def lift(x):
    """anything array-like -> SymTensor or scalar Term"""
    if is_t(x):
        return x
    if type(x) is S or isinstance(x, (bool, int, float, real_np.generic)):
        return term(x)
    if isinstance(x, real_np.ndarray):
        return lift_np(x)
    if isinstance(x, (list, tuple)):
        return stack_list(x)
    raise Unsupported("array operand %r" % (type(x),))


def lift_np(x):
    if x.ndim == 0:
        return term(x)
    if x.size > 4096:
        raise Unsupported("large concrete array in symbolic expression")
    d = dims(x.shape)
    idx = freshidx(d)
    body = T.ZERO if x.dtype.kind != "b" else T.FALSE
    flat = list(real_np.ndindex(*x.shape))
    vals = {k: term(x[k]) for k in flat}
    uniq = set(vals.values())
    if len(uniq) == 1:
        body = uniq.pop()
    else:
        for k in flat:
            if vals[k] is body:
                continue
            body = T.ite(T.and_(*[T.eq(i, T.num(n)) for i, n in zip(idx, k)]), vals[k], body)
    return from_body(idx, body, d, x.dtype)


def stack_list(xs):
    from .runtime import SList
    if type(xs) is SList and xs.segs is not None:
        n = xs.nterm()
        i = T.fresh("i", "I")
        T.RANGE[i] = n
        e = xs.elem(i)
        if is_t(e):
            idx = (i,) + freshidx(e.dims)
            return from_body(idx, e.cell(*idx[1:]), (n,) + tuple(e.dims), e.dtype)
        t = term(e)
        return from_body((i,), t, (n,), {"I": I8, "N": I8, "R": F8, "B": B1, "O": real_np.dtype(object)}[t.sort])
    ls = [lift(x) for x in xs]
    if not ls:
        return lift_np(real_np.zeros((0,)))
    n = T.num(len(ls))
    if is_t(ls[0]):
        d0 = ls[0].dims
        for l in ls[1:]:
            if len(l.dims) != len(d0):
                raise ValueError("inhomogeneous shape")
            for a, b in zip(l.dims, d0):
                dim_eq(a, b, "inhomogeneous shape")
        idx = freshidx((n,) + tuple(d0))
        body = ls[-1].cell(*idx[1:])
        for k in range(len(ls) - 2, -1, -1):
            body = T.ite(T.eq(idx[0], T.num(k)), ls[k].cell(*idx[1:]), body)
        return from_body(idx, body, (n,) + tuple(d0), ls[0].dtype)
    idx = freshidx((n,))
    body = ls[-1]
    for k in range(len(ls) - 2, -1, -1):
        body = T.ite(T.eq(idx[0], T.num(k)), ls[k], body)
    kinds = {l.sort for l in ls}
    dt = F8 if "R" in kinds else B1 if kinds == {"B"} else I8
    return from_body(idx, body, (n,), dt)


def result_dtype(ts):
    ks = []
    for t in ts:
        if is_t(t):
            ks.append(t.dtype)
    sc = [t for t in ts if not is_t(t)]
    if not ks:
        return F8 if any(t.sort == "R" for t in sc) else I8
    dt = ks[0]
    for k in ks[1:]:
        dt = real_np.promote_types(dt, k)
    if dt.kind in "iub" and any(t.sort == "R" for t in sc):
        dt = F8
    if dt.kind == "b" and any(t.sort in "IN" for t in sc):
        dt = I8
    return dt


def as_sort(t, dt):
    """cell value as element of dtype dt"""
    if t.sort == "B" and dt.kind != "b":
        return T.iv(t)
    if dt.kind == "b" and t.sort != "B":
        return T.not_(T.eq(t, T.ZERO))
    return t


def as_sort_lam(t, dt):
    idx = freshidx(t.dims)
    return mklam(idx, as_sort(t.cell(*idx), dt))


def arith(t):
    return T.iv(t) if t.sort == "B" else t


def broadcast_shape(ts):
    nd = max([t.ndim for t in ts if is_t(t)] or [0])
    out = [None] * nd
    for t in ts:
        if not is_t(t):
            continue
        off = nd - t.ndim
        for k, d in enumerate(t.dims):
            out[off + k] = d if out[off + k] is None else bdim(out[off + k], d)
    return tuple(out)


def bcell(t, idx, out):
    if not is_t(t):
        return t
    off = len(out) - t.ndim
    sub = []
    for k, d in enumerate(t.dims):
        sub.append(T.ZERO if is_one(d, out[off + k]) else idx[off + k])
    return t.cell(*sub)


def ew(f, *xs, dtype=None, real=False, out=None):
    """elementwise operation with broadcasting"""
    for x in xs:
        if type(x) is Masked:
            return x.ew(f, *xs, dtype=dtype, real=real, out=out)
    ts = []
    for x in xs:
        try:
            ts.append(lift(x))
        except Unsupported:
            if x is None or isinstance(x, str):
                return NotImplemented
            raise
    shape = broadcast_shape(ts)
    idx = freshidx(shape)
    cells = [bcell(t, idx, shape) for t in ts]
    if dtype is None or dtype is not B1:
        if dtype is None or real_np.dtype(dtype).kind != "b":
            if f is not T.not_ and f is not T.and_ and f is not T.or_:
                cells = [arith(c) for c in cells]
    elif f in (T.lt, T.le, T.gt, T.ge, T.eq):
        if not all(c.sort == "B" for c in cells):
            cells = [arith(c) for c in cells]
    body = f(*cells)
    if dtype is None:
        if body.sort == "B":
            dtype = B1
        else:
            dtype = result_dtype(ts)
            if real and dtype.kind in "iub":
                dtype = F8
    dtype = real_np.dtype(dtype)
    if not shape:
        r = wrap(body)
        if out is not None:
            raise Unsupported("scalar out")
        return r
    if out is not None:
        for a, b in zip(out.dims, shape):
            dim_eq(a, b, "non-broadcastable output operand")
        l = mklam(idx, as_sort(body, out.dtype))
        out.write(lambda i: T.sel(l, *i, sort=sort_of(out.dtype)))
        return out
    return from_body(idx, as_sort(body, dtype), shape, dtype)


def iew(self, f, o):
    if type(self) is Masked:
        return self.iew(f, o)
    ot = lift(o)
    if self.dtype.kind in "iu" and ((is_t(ot) and ot.dtype.kind == "f") or (not is_t(ot) and ot.sort == "R") or f is T.div):
        raise TypeError("Cannot cast ufunc output from float to int")
    shape = broadcast_shape([self, ot])
    if len(shape) != self.ndim:
        raise ValueError("non-broadcastable output operand")
    for a, b in zip(self.dims, shape):
        dim_eq(a, b, "non-broadcastable output operand")
    idx = freshidx(self.dims)
    body = as_sort(f(arith(self.cell(*idx)), arith(bcell(ot, idx, self.dims))), self.dtype)
    l = mklam(idx, body)
    self.write(lambda i: T.sel(l, *i, sort=sort_of(self.dtype)))
    return self


def copy(t):
    return whole(Storage(t.lam(), tuple(t.dims), t.st.name), t.dtype)


def astype(t, dtype, copy=True, **kw):
    dtype = real_np.dtype(dtype)
    if dtype == t.dtype and not copy:
        return t
    idx = freshidx(t.dims)
    c = t.cell(*idx)
    if dtype.kind in "iu" and t.dtype.kind == "f":
        c = T.ite(T.ge(c, T.ZERO), T.app("floor", c), T.neg(T.app("floor", T.neg(c))))
    r = from_body(idx, as_sort(c, dtype), t.dims, dtype)
    r.st.bounds = t.st.bounds
    return r


def transpose(t, axes=None):
    n = t.ndim
    perm = list(axes) if axes is not None else list(range(n))[::-1]
    perm = [p % n for p in perm]
    ipos = [perm.index(k) for k in range(n)]
    f, g = t.fwd, t.inv
    r = SymTensor(t.st, tuple(t.dims[p] for p in perm), lambda i: f(tuple(i[ipos[k]] for k in range(n))),
                  lambda J: (lambda ci: (ci[0], tuple(ci[1][p] for p in perm)))(g(J)), t.dtype)
    r.contig = t.contig if n < 2 else False
    return r


def prod(ds):
    return T.mul(*ds) if ds else T.ONE


def reshape(t, shape):
    shape = list(shape) if isinstance(shape, (tuple, list)) else [shape]
    new = [term(d) for d in shape]
    neg = [k for k, d in enumerate(new) if d.op == "num" and d.args[0] == -1]
    if len(neg) > 1:
        raise ValueError("can only specify one unknown dimension")
    total = prod(t.dims)
    if neg:
        rest = prod([d for k, d in enumerate(new) if k not in neg])
        q, r = T._divpart(total, rest)
        if q is None or r is not T.ZERO:
            q, r = _exact(total, rest), T.ZERO
        if q is not None and r is T.ZERO:
            if rest.op != "num" and E.fork(T.eq(rest, T.ZERO)):
                raise ValueError("cannot reshape array of size 0 into an unknown dimension")
            new[neg[0]] = q
        else:
            q = S(T.app("fdiv", total, rest, sort="I")) if rest.op != "num" or rest.args[0] != 0 else None
            if q is None:
                raise ValueError("cannot reshape array of size into shape")
            if not E.fork(T.eq(T.mul(q.t, rest), total)):
                raise ValueError("cannot reshape array")
            new[neg[0]] = q.t
    else:
        if prod(new) is not total:
            dim_eq(prod(new), total, "cannot reshape array")
    fw, bw = _reshape_maps(list(t.dims), list(new))
    f, g = t.fwd, t.inv

    def inv(J):
        c, i = g(J)
        return c, bw(i)

    base = t if t.contig else copy(t)
    f, g = base.fwd, base.inv
    r = SymTensor(base.st, tuple(new), lambda i: f(fw(i)), inv, t.dtype)
    return r


def _exact(total, rest):
    """monomial q with q * rest == total, if there is one"""
    p, d = T.to_poly(total), T.to_poly(rest)
    if not p or len(p) != len(d):
        return None
    (m0, c0) = next(iter(d.items()))
    for m, c in p.items():
        q = T.mul(T.from_poly({m: c}), T.power(T.from_poly({m0: c0}), -1))
        if all(e > 0 for mm in T.to_poly(q) for _, e in mm) and T.mul(q, rest) is total:
            return q
    return None


def _reshape_maps(old, new):
    """(new index -> old index, old index -> new index) row major; matched in groups"""
    groups = []
    i = j = 0
    old = [d for d in old]
    while i < len(old) or j < len(new):
        if i < len(old) and j < len(new) and old[i] is new[j]:
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        found = None
        for a in range(0, len(old) - i + 1):
            for b in range(0, len(new) - j + 1):
                if a == b == 0 or (a == 1 and b == 1):
                    continue
                if prod(old[i:i + a]) is prod(new[j:j + b]):
                    if found is None or a + b < sum(found):
                        found = (a, b)
        if found is None:
            found = (len(old) - i, len(new) - j)
        a, b = found
        groups.append((list(range(i, i + a)), list(range(j, j + b))))
        i += a
        j += b

    def lin(ds, idx):
        r = T.ZERO
        for d, x in zip(ds, idx):
            r = T.add(T.mul(r, d), x)
        return r

    def unlin(ds, r):
        out = []
        for k in range(len(ds)):
            stride = prod(ds[k + 1:])
            q = T.app("fdiv", r, stride, sort="I") if stride is not T.ONE else r
            if k > 0:
                q = T.app("mod", q, ds[k], sort="I")
            out.append(q if ds[k] is not T.ONE else T.ZERO)
        return out

    def conv(src, dst, which):
        def f(idx):
            out = [None] * len(dst)
            for gs in groups:
                a, b = gs if which else (gs[1], gs[0])
                sd = [src[k] for k in a]
                dd = [dst[k] for k in b]
                if len(a) == 1 and len(b) == 1 and sd[0] is dd[0]:
                    out[b[0]] = idx[a[0]]
                    continue
                r = lin(sd, [idx[k] for k in a])
                vals = unlin(dd, r) if len(b) != 1 else [r]
                for k, v in zip(b, vals):
                    out[k] = v
            return tuple(out)

        return f

    return conv(new, old, False), conv(old, new, True)


# ----------------------------------------------------------------- indexing
def norm_slice(sl, n):
    """-> (start term, length term, step(+1/-1)) with python clamping"""
    step = sl.step
    if step is not None and term(step) is not T.ONE:
        st = term(step)
        if st.op == "num" and st.args[0] == -1 and sl.start is None and sl.stop is None:
            return T.sub(n, T.ONE), n, -1
        raise Unsupported("slice step")

    def clamp(x, default):
        if x is None:
            return default
        x = term(x)
        if x is n:
            return n
        if x.op == "num" and x.args[0] >= 0:
            if x.args[0] == 0:
                return T.ZERO
            return x if E.fork(T.le(x, n)) else n
        if x.op == "num":
            y = T.add(n, x)
            return y if E.fork(T.ge(y, T.ZERO)) else T.ZERO
        if not E.fork(T.ge(x, T.ZERO)):
            y = T.add(n, x)
            return y if E.fork(T.ge(y, T.ZERO)) else T.ZERO
        return x if E.fork(T.le(x, n)) else n

    a = clamp(sl.start, T.ZERO)
    b = clamp(sl.stop, n)
    ln = T.sub(b, a)
    if ln.op == "num":
        if ln.args[0] < 0:
            ln = T.ZERO
    elif a is not T.ZERO:
        if not E.fork(T.ge(ln, T.ZERO)):
            ln = T.ZERO
    return a, ln, 1


def norm_index(x, n):
    x = term(x)
    if not E.fork(T.ge(x, T.ZERO)):
        x = T.add(x, n)
        if not E.fork(T.ge(x, T.ZERO)):
            raise IndexError("index out of bounds")
    if not E.fork(T.lt(x, n)):
        raise IndexError("index out of bounds")
    return x


def expand_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_used = sum(1 for k in key if k is not None and k is not Ellipsis and not (is_t(k) and k.dtype.kind == "b"))
    n_used += sum(k.ndim for k in key if is_t(k) and k.dtype.kind == "b")
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (t.ndim - n_used)
    else:
        key += [slice(None)] * (t.ndim - n_used)
    if n_used > t.ndim:
        raise IndexError("too many indices for array")
    return key


def _is_basic(k):
    return k is None or isinstance(k, slice) or (not is_t(k) and not isinstance(k, (list, real_np.ndarray)) and not (isinstance(k, tuple)))


def getitem(t, key):
    key = expand_key(t, key)
    key = [lift(k) if isinstance(k, (list, real_np.ndarray)) and not is_t(k) else k for k in key]
    if any(is_t(k) and k.ndim == 0 for k in key):
        key = [S(k.cell()) if is_t(k) and k.ndim == 0 else k for k in key]
    if all(_is_basic(k) for k in key):
        return basic_view(t, key)
    adv = [i for i, k in enumerate(key) if not _is_basic(k)]
    if len(adv) == 1 and key[adv[0]].dtype.kind == "b":
        return mask_get(t, key, adv[0])
    if any(key[a].dtype.kind == "b" for a in adv):
        raise Unsupported("mixed boolean indexing")
    if any(k is None for k in key):
        raise Unsupported("newaxis with advanced indexing")
    # apply basic parts first
    pos = []
    base = basic_view(t, [slice(None) if i in adv else k for i, k in enumerate(key)])
    # axis numbers in base of the advanced indices
    ax = []
    d = 0
    for i, k in enumerate(key):
        if i in adv:
            ax.append(d)
            d += 1
        elif isinstance(k, slice):
            d += 1
    scal = [i for i, k in enumerate(key) if i not in adv and not isinstance(k, slice)]
    if scal and any(True for _ in scal):
        if not (len(adv) == 1 and abs(scal[0] - adv[0]) >= 1):
            raise Unsupported("mixed int/advanced")
        # numpy: scalar ints take part in advanced indexing; only adjacent case has same layout
        lo, hi = min(adv + scal), max(adv + scal)
        if hi - lo + 1 != len(adv) + len(scal):
            raise Unsupported("separated advanced indices")
    if len(adv) > 1 and adv != list(range(adv[0], adv[0] + len(adv))):
        raise Unsupported("separated advanced indices")
    ids = [key[a] for a in adv]
    bshape = broadcast_shape(ids)
    out_dims = tuple(base.dims[:ax[0]]) + bshape + tuple(base.dims[ax[-1] + 1:])
    idx = freshidx(out_dims)
    mid = idx[ax[0]:ax[0] + len(bshape)]
    src = list(idx[:ax[0]])
    for q, a in zip(ids, ax):
        x = bcell(q, mid, bshape)
        src.append(bounded_index(x, base.dims[a], q, mid, bshape))
    src += list(idx[ax[0] + len(bshape):])
    return from_body(idx, base.cell(*src), out_dims, t.dtype)


def bounded_index(x, n, q, mid, bshape):
    """index value inside [0,n) or numpy's negative wrap; otherwise IndexError on some path"""
    if q.st.bounds is not None:
        lo, hi = q.st.bounds
        if lo is T.ZERO and E.solver.entails(T.le(hi, n)):
            E.assumed_bounds(x, n) if hasattr(E, "assumed_bounds") else None
            return x
    rng = T.and_(*[T.and_(T.ge(m, T.ZERO), T.lt(m, d)) for m, d in zip(mid, bshape)])
    n0 = len(E.solver.pc)
    E.solver.pc.append(rng)
    try:
        inside = E.solver.entails(T.and_(T.ge(x, T.ZERO), T.lt(x, n)))
        if inside:
            return x
        wrapok = E.solver.entails(T.and_(T.ge(x, T.neg(n)), T.lt(x, n)))
    finally:
        del E.solver.pc[n0:]
    if wrapok:
        return T.ite(T.lt(x, T.ZERO), T.add(x, n), x)
    if E.choose(2, "index in bounds") == 1:
        raise IndexError("index out of bounds")
    return T.ite(T.lt(x, T.ZERO), T.add(x, n), x)


def basic_view(t, key):
    """ints, slices, None"""
    out_dims = []
    plan = []  # per source axis: ('fix', e) | ('ax', out axis, start, step)
    src = 0
    for k in key:
        if k is None:
            out_dims.append(T.ONE)
        elif isinstance(k, slice):
            a, ln, step = norm_slice(k, t.dims[src])
            plan.append(("ax", len(out_dims), a, step))
            out_dims.append(ln)
            src += 1
        else:
            plan.append(("fix", norm_index(k, t.dims[src])))
            src += 1
    f, g = t.fwd, t.inv
    nd = len(out_dims)

    def fwd(i):
        r = []
        for p in plan:
            if p[0] == "fix":
                r.append(p[1])
            else:
                r.append(T.add(p[2], i[p[1]]) if p[3] == 1 else T.sub(p[2], i[p[1]]))
        return f(tuple(r))

    def inv(J):
        c, s = g(J)
        conds = [c]
        idx = [T.ZERO] * nd
        for x, p in zip(s, plan):
            if p[0] == "fix":
                conds.append(T.eq(x, p[1]))
            else:
                y = T.sub(x, p[2]) if p[3] == 1 else T.sub(p[2], x)
                idx[p[1]] = y
                full = p[2] is T.ZERO and p[3] == 1
                if not full:
                    conds.append(T.ge(y, T.ZERO))
                conds.append(T.lt(y, out_dims[p[1]]))
        return T.and_(*conds), tuple(idx)

    if nd == 0:
        return S(t.cell(*[p[1] for p in plan])) if sort_of(t.dtype) != "O" else S(t.cell(*[p[1] for p in plan]))
    triv = nd == t.ndim and all(p[0] == "ax" and p[2] is T.ZERO and p[3] == 1 and out_dims[p[1]] is t.dims[k] for k, p in enumerate(plan))
    if triv:
        r = SymTensor(t.st, t.dims, f, g, t.dtype)
        r.contig = t.contig
        return r
    r = SymTensor(t.st, tuple(out_dims), fwd, inv, t.dtype)
    full_after_first = all(p[0] == "ax" and p[2] is T.ZERO and p[3] == 1 and out_dims[p[1]] is t.dims[k]
                           for k, p in enumerate(plan) if k >= 1)
    r.contig = t.contig and full_after_first
    return r


class Masked:
    """t[mask]: the elements of `dense` selected by `mask`, of unknown number; elementwise use only"""

    def __init__(self, dense, mask):
        self.dense, self.mask = dense, mask

    @property
    def dtype(self):
        return self.dense.dtype

    def ew(self, f, *xs, **kw):
        out = kw.pop("out", None)
        ds = []
        for x in xs:
            if type(x) is Masked:
                if x.mask is not self.mask:
                    raise Unsupported("operation on differently masked selections")
                ds.append(x.dense)
            elif is_t(x) and x.ndim:
                raise Unsupported("masked selection combined with an array")
            else:
                ds.append(x)
        if out is not None:
            if type(out) is not Masked or out.mask is not self.mask:
                raise Unsupported("masked out=")
            kw["out"] = out.dense
            ew(f, *ds, **kw)
            return out
        return Masked(ew(f, *ds, **kw), self.mask)

    def iew(self, f, o):
        if type(o) is Masked:
            if o.mask is not self.mask:
                raise Unsupported("operation on differently masked selections")
            o = o.dense
        elif is_t(o) and o.ndim:
            raise Unsupported("masked selection combined with an array")
        iew(self.dense, f, o)
        return self

    def copy(self):
        return Masked(copy(self.dense), self.mask)

    def astype(self, d, **k):
        return Masked(astype(self.dense, d), self.mask)

    def __getattr__(self, n):
        raise Unsupported("masked selection used through .%s" % n)

    def __len__(self):
        raise Unsupported("length of a masked selection")


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __pow__ __rpow__ __neg__ __abs__ "
           "__lt__ __le__ __gt__ __ge__ __iadd__ __isub__ __imul__ __itruediv__ __ipow__").split():
    setattr(Masked, _n, getattr(SymTensor, _n))


def mask_get(t, key, a):
    m = key[a]
    if len(key) != 1 or m.ndim != t.ndim:
        raise Unsupported("boolean mask selection")
    for x, y in zip(m.dims, t.dims):
        dim_eq(x, y, "boolean index did not match")
    return Masked(copy(t), m.lam())


def rows_in(xs, d):
    """x -> term 'row x is listed in xs' for a list of row numbers, all known to lie in [0, d)"""
    parts = []

    def inside(c, v):
        n0 = len(E.solver.pc)
        E.solver.pc += c
        try:
            ok = E.solver.entails(T.and_(T.ge(v, T.ZERO), T.lt(v, d)))
        finally:
            del E.solver.pc[n0:]
        if not ok:
            raise Unsupported("row numbers not known to be inside the array")

    for s in xs.segments():
        if s[0] == "items":
            for v in s[1]:
                v = term(v)
                inside([], v)
                parts.append(lambda x, v=v: T.eq(x, v))
        elif s[0] == "map":
            if len(s) == 4 and len(s[3]) == 4:
                n, g, c, i = s[3]
            else:
                n, g, c, i = s[1], s[2], T.TRUE, None
            j = T.fresh("j", "I")
            T.RANGE[j] = n
            cj = T.subst(c, {i: j}) if i is not None else c
            v = term(g(j))
            inside([T.ge(j, T.ZERO), T.lt(j, n), cj], v)
            parts.append(lambda x, j=j, n=n, cj=cj, v=v: T.gt(T.tsum(j, T.ZERO, n, T.mul(T.iv(cj), T.iv(T.eq(v, x)))), T.ZERO))
        else:
            raise Unsupported("row numbers")
    return lambda x: T.or_(*[p(x) for p in parts])


def setitem(t, key, val):
    if isinstance(key, list):
        from .runtime import SList
        if type(key) is SList and not is_t(lift(val)):
            if key.segs is None and not list.__len__(key):
                return
            listed = rows_in(key, t.dims[0])
            v = lift(val)
            t.write(lambda i: as_sort(v, t.dtype), lambda i: listed(i[0]))
            return
        if type(key) is list and not key:
            return  # no rows selected
    key = expand_key(t, key)
    key = [lift(k) if isinstance(k, (list, real_np.ndarray)) and not is_t(k) else k for k in key]
    if type(val) is Masked:
        m = key[0]
        if len(key) != 1 or not is_t(m) or m.dtype.kind != "b" or m.lam() is not val.mask:
            raise Unsupported("masked assignment")
        ml = m.lam()
        d = as_sort_lam(val.dense, t.dtype)
        t.write(lambda i: T.sel(d, *i, sort=sort_of(t.dtype)), lambda i: T.sel(ml, *i, sort="B"))
        return
    v = lift(val)
    adv = [i for i, k in enumerate(key) if not _is_basic(k)]
    if not adv:
        if all(k is not None and not isinstance(k, slice) for k in key):
            pos = [norm_index(k, d) for k, d in zip(key, t.dims)]
            if is_t(v):
                v = v.__vc_term__()
            t.write(lambda i: as_sort(v, t.dtype), lambda i: T.and_(*[T.eq(x, y) for x, y in zip(i, pos)]))
            return
        view = basic_view(t, key)
        assign(view, v)
        return
    if len(adv) == 1 and key[adv[0]].dtype.kind == "b" and key[adv[0]].ndim == t.ndim:
        m = key[adv[0]]
        for x, y in zip(m.dims, t.dims):
            dim_eq(x, y, "boolean index did not match")
        if is_t(v):
            raise Unsupported("mask assignment of array")
        ml = m.lam()
        t.write(lambda i: as_sort(v, t.dtype), lambda i: T.sel(ml, *i, sort="B"))
        return
    if is_t(key[0]) and key[0].dtype.kind == "b" and key[0].ndim < t.ndim and not is_t(v) and all(
            isinstance(k, slice) and k == slice(None) for k in key[1:]):
        # rows selected by a mask
        m = key[0]
        for x, y in zip(m.dims, t.dims):
            dim_eq(x, y, "boolean index did not match")
        ml = m.lam()
        t.write(lambda i: as_sort(v, t.dtype), lambda i: T.sel(ml, *i[:m.ndim], sort="B"))
        return
    lead = [k for k in key if is_t(k) and k.dtype.kind in "iu"]
    if lead and all(x is y for x, y in zip(lead, key)) and not is_t(v) and all(
            isinstance(k, slice) and k == slice(None) for k in key[len(lead):]):
        key = lead
        # scatter of a constant: out[a, b, ..] = v, order irrelevant
        bshape = broadcast_shape(key)
        J = T.fresh("s", "I")
        def where(i):
            vs = freshidx(bshape)
            conds = T.ONE
            for q, x, d in zip(key, i, t.dims):
                y = bcell(q, vs, bshape)
                y = bounded_index(y, d, q, vs, bshape)
                conds = T.mul(conds, T.iv(T.eq(y, x)))
            tot = T.sums([(z, T.ZERO, d) for z, d in zip(vs, bshape)], conds)
            return T.gt(tot, T.ZERO)
        t.write(lambda i: as_sort(v, t.dtype), where)
        return
    if is_t(key[0]) and key[0].ndim == 1 and key[0].dtype.kind in "iu" and sort_of(t.dtype) != "B" and all(
            isinstance(k, slice) and k == slice(None) for k in key[1:]):
        q, N = key[0], key[0].dims[0]
        # rows are written through distinct indices, so the order of the writes is irrelevant
        a, b = freshidx((N, N))
        n0 = len(E.solver.pc)
        E.solver.pc += [T.ge(a, T.ZERO), T.lt(a, b), T.lt(b, N)]
        try:
            distinct = E.solver.entails(T.not_(T.eq(q.cell(a), q.cell(b))))
        finally:
            del E.solver.pc[n0:]
        if not distinct:
            raise Unsupported("assignment through indices not known to be distinct")
        if is_t(v):
            vshape = broadcast_shape([v, from_fn((N,) + tuple(t.dims[1:]), lambda *i: T.ZERO, t.dtype)])
            for x, y in zip(vshape, (N,) + tuple(t.dims[1:])):
                dim_eq(x, y, "could not broadcast into the indexed rows")
        vl = v
        old = t.lam() if hasattr(t, "lam") else None
        st = sort_of(t.dtype)

        def new(i):
            k = T.fresh("k", "I")
            T.RANGE[k] = N
            y = bounded_index(q.cell(k), t.dims[0], q, [k], (N,))
            c = bcell(vl, [k] + list(i[1:]), (N,) + tuple(t.dims[1:])) if is_t(vl) else term(vl)
            o = T.sel(old, *i, sort=st)
            return T.add(o, T.tsum(k, T.ZERO, N, T.mul(T.iv(T.eq(y, i[0])), T.sub(as_sort(c, t.dtype), o))))
        t.write(new, lambda i: T.TRUE)
        return
    raise Unsupported("advanced assignment")


def assign(view, v):
    if is_t(v):
        if v.ndim > view.ndim:
            raise ValueError("could not broadcast input array")
        out = view.dims
        off = len(out) - v.ndim
        for k, d in enumerate(v.dims):
            if d is not T.ONE or out[off + k] is T.ONE:
                if d is not out[off + k] and not is_one(d, out[off + k]):
                    dim_eq(d, out[off + k], "could not broadcast input array")
        idx = freshidx(out)
        l = mklam(idx, as_sort(bcell(v, idx, out), view.dtype))
        view.write(lambda i: T.sel(l, *i, sort=sort_of(view.dtype)))
    else:
        view.write(lambda i: as_sort(v, view.dtype))


# ----------------------------------------------------------------- reductions
def _axes(t, axis):
    if axis is None:
        return list(range(t.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(a % t.ndim for a in axis)
    a = axis
    if a < -t.ndim or a >= t.ndim:
        raise real_np.exceptions.AxisError(a, t.ndim)
    return [a % t.ndim]


def reduce_sum(t, axis=None, keepdims=False, out=None):
    t = lift(t)
    if not is_t(t):
        return wrap(t)
    ax = _axes(t, axis)
    idx = freshidx(t.dims)
    body = arith(t.cell(*idx))
    body = T.sums([(idx[a], T.ZERO, t.dims[a]) for a in ax], body)
    rest = [k for k in range(t.ndim) if k not in ax]
    dt = t.dtype if t.dtype.kind == "f" else I8
    if keepdims:
        nd = tuple(T.ONE if k in ax else t.dims[k] for k in range(t.ndim))
        ni = freshidx(nd)
        m = {idx[k]: ni[k] for k in rest}
        r = from_body(ni, T.subst(body, m), nd, dt)
    else:
        r = from_body([idx[k] for k in rest], body, [t.dims[k] for k in rest], dt)
    if out is not None:
        assign(out, r)
        return out
    return scalar_or(r)


def mean(t, axis=None, keepdims=False):
    t = lift(t)
    ax = _axes(t, axis)
    n = prod([t.dims[a] for a in ax])
    return reduce_sum(t, axis, keepdims) / wrap(n)


def var(t, axis=None, keepdims=False):
    mu = mean(t, axis, True)
    d = t - mu
    return mean(d * d, axis, keepdims)


def reduce_ext(kind, t, axis=None, keepdims=False):
    t = lift(t)
    ax = _axes(t, axis)
    if len(ax) != 1:
        if t.ndim == 1 or axis is None:
            raise Unsupported("full max")
        raise Unsupported("multi-axis max")
    a = ax[0]
    if not E.fork(T.gt(t.dims[a], T.ZERO)):
        raise ValueError("zero-size array to reduction operation")
    idx = freshidx(t.dims)
    body = T.red(kind, idx[a], t.dims[a], arith(t.cell(*idx)))
    rest = [k for k in range(t.ndim) if k != a]
    dt = I8 if kind.startswith("arg") else t.dtype
    if keepdims:
        nd = tuple(T.ONE if k == a else t.dims[k] for k in range(t.ndim))
        ni = freshidx(nd)
        r = from_body(ni, T.subst(body, {idx[k]: ni[k] for k in rest}), nd, dt)
    else:
        r = from_body([idx[k] for k in rest], body, [t.dims[k] for k in rest], dt)
    return scalar_or(r)


def cells_at(c, idx):
    """array variables the condition reads exactly at cell idx (all its cells are at idx)"""
    out, seen, todo = [], set(), [c]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.args[0] == "sel" and tuple(x.args[2:]) == idx and x.args[1].op == "var":
            out.append(x.args[1])
            continue
        todo += T.children(x)
    return out


def quant(t, exists):
    """any/all over all cells, as a boolean on a count"""
    t = lift(t)
    if not is_t(t):
        return wrap(t)
    idx = freshidx(t.dims)
    c = t.cell(*idx)
    if c.sort != "B":
        c = T.not_(T.eq(c, T.ZERO))
    if c in (T.TRUE, T.FALSE):
        nonempty = T.gt(prod(t.dims), T.ZERO)
        return wrapb(T.and_(c, nonempty) if exists else T.or_(c, T.not_(nonempty)))
    from . import solve
    some = c if exists else T.not_(c)
    sv = E.solver
    rng = [x for i, d in zip(idx, t.dims) for x in (T.ge(i, T.ZERO), T.lt(i, d))]
    if sv.check(rng + [some], 3000) == "unsat":
        return not exists
    cnt = T.sums([(i, T.ZERO, d) for i, d in zip(idx, t.dims)], T.iv(some))
    arrs = cells_at(some, tuple(idx))
    if arrs and not E.nested:
        yes = E.fork(T.gt(cnt, T.ZERO))
        if not yes:
            for v in arrs:
                sv.pc.append(solve.forall_cells(v, tuple(idx), T.not_(some), tuple(t.dims)))
        return yes if exists else not yes
    return wrapb(T.gt(cnt, T.ZERO) if exists else T.eq(cnt, T.ZERO))


def dot(a, b, out=None):
    a, b = lift(a), lift(b)
    if not is_t(a) or not is_t(b):
        return ew(T.mul, a, b)
    dt = real_np.promote_types(a.dtype, b.dtype)
    ca, cb = a.dims[-1], (b.dims[-2] if b.ndim > 1 else b.dims[0])
    dim_eq(ca, cb, "shapes not aligned")
    k = T.fresh("k", "I")
    T.RANGE[k] = ca
    da = list(a.dims[:-1])
    db = list(b.dims[:-2]) + ([b.dims[-1]] if b.ndim > 1 else [])
    idx = freshidx(da + db)
    ia, ib = idx[:len(da)], idx[len(da):]
    kb = list(ib[:-1]) + [k, ib[-1]] if b.ndim > 1 else [k]
    body = T.tsum(k, T.ZERO, ca, T.mul(arith(a.cell(*ia, k)), arith(b.cell(*kb))))
    r = from_body(idx, body, da + db, dt)
    if out is not None:
        assign(out, r)
        return out
    return scalar_or(r)


def concatenate(xs, axis=0):
    from .runtime import SList
    if type(xs) is SList and xs.segs is not None:
        return concat_sym(xs, axis)
    ts = [lift(x) for x in xs]
    if not ts:
        raise ValueError("need at least one array to concatenate")
    if any(not is_t(t) or t.ndim == 0 for t in ts):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    nd = ts[0].ndim
    axis = axis % nd
    for t in ts[1:]:
        if t.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match")
        for k in range(nd):
            if k != axis:
                dim_eq(t.dims[k], ts[0].dims[k], "all the input array dimensions must match")
    total = T.add(*[t.dims[axis] for t in ts])
    out = tuple(total if k == axis else ts[0].dims[k] for k in range(nd))
    idx = freshidx(out)
    offs = []
    o = T.ZERO
    for t in ts:
        offs.append(o)
        o = T.add(o, t.dims[axis])
    body = None
    dt = result_dtype(ts)
    for t, off in reversed(list(zip(ts, offs))):
        sub_ = list(idx)
        sub_[axis] = T.sub(idx[axis], off)
        c = as_sort(t.cell(*sub_), dt)
        body = c if body is None else T.ite(T.lt(idx[axis], T.add(off, t.dims[axis])), c, body)
    return from_body(idx, body, out, dt)


def concat_sym(xs, axis):
    """concatenation of a symbolic number of arrays along axis, segment by segment"""
    parts = []
    for seg in xs.segs:
        if seg[0] == "items":
            parts += list(seg[1])
        elif E.fork(T.gt(seg[1], T.ZERO)):
            parts.append(_concat_seg(seg, axis))
    if not parts:
        raise ValueError("need at least one array to concatenate")
    return parts[0] if len(parts) == 1 and is_t(parts[0]) else concatenate(parts, axis)


def _concat_seg(seg, axis):
    n, at = seg[1], seg[2]
    b = T.fresh("b", "I")
    keep = T.ONE
    if len(seg) == 4 and seg[3][0] == "group":
        # groups of a fixed number of arrays: each group first
        n = seg[3][1]
        e = concatenate(seg[3][2](b), axis)
    elif len(seg) == 4:
        # the kept elements of a filtered list: same sum over the original list, guarded by the filter
        n, at, cond, ci = seg[3]
        keep = T.iv(T.subst(cond, {ci: b}))
        e = at(b)
    else:
        e = at(b)
    T.RANGE[b] = n
    if not is_t(e):
        raise Unsupported("concatenate of non arrays")
    axis = axis % e.ndim
    for k, d in enumerate(e.dims):
        if k != axis and b in T.fv(d):
            raise Unsupported("ragged concatenation")
    ln = T.mul(keep, e.dims[axis])
    total = T.tsum(b, T.ZERO, n, ln)
    out = tuple(total if k == axis else d for k, d in enumerate(e.dims))
    idx = freshidx(out)
    k2 = T.fresh("k", "I")
    off = T.tsum(k2, T.ZERO, b, T.subst(ln, {b: k2}))
    sub_ = list(idx)
    sub_[axis] = T.sub(idx[axis], off)
    r = idx[axis]
    c = arith(e.cell(*sub_))
    body = T.tsum(b, T.ZERO, n, T.mul(keep, T.iv(T.le(off, r)), T.iv(T.lt(r, T.add(off, ln))), c))
    return from_body(idx, body, out, e.dtype)
