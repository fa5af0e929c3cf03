"""The C side of the extracted native code: pointers are (array, flat offset) pairs and every access is proved to stay
inside its array; where that cannot be settled the path on which it leaves the array is explored and raises."""
import numpy as real_np
from fractions import Fraction as F
from . import terms as T
from . import tensor as X
from . import runtime as R
from .engine import E, S, term, wrap, wrapb, Unsupported, _ar

CT = {"float": "float32", "double": "float64", "int": "int32", "unsigned int": "uint32", "int32_t": "int32", "uint32_t": "uint32",
      "int64_t": "int64", "uint64_t": "uint64", "unsigned long": "uint64", "long": "int64"}
SIZE = {"float32": 4, "float64": 8, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8}


class MemoryFault(Exception):
    """the native code reads or writes outside the array, or through a pointer of the wrong type"""


class _Mk:
    def __init__(self, t, bad=None):
        self.t, self.bad = t, bad

    def __call__(self, ts):
        return Ptr(self.t, wrap(ts[0]), self.bad)

    def __eq__(self, o):
        return type(o) is _Mk and o.t is self.t and o.bad == self.bad

    def __hash__(self):
        return hash(id(self.t))


class Ptr:
    __slots__ = ("t", "off", "bad")
    __module__ = "thinc.native"

    def __init__(self, t, off=0, bad=None):
        self.t, self.off, self.bad = t, off, bad

    def __vc_enc__(self, codec):
        return ("custom", _Mk(self.t, self.bad), ("I",)), [term(self.off)]

    def __add__(self, k):
        return Ptr(self.t, self.off + k, self.bad)

    __radd__ = __add__

    def __sub__(self, k):
        if type(k) is Ptr:
            self._same(k)
            return self.off - k.off
        return Ptr(self.t, self.off - k, self.bad)

    def _same(self, o):
        if type(o) is not Ptr or o.t is not self.t:
            raise Unsupported("comparison of pointers into different arrays")

    def __eq__(self, o):
        if type(o) is int and o == 0:
            return False  # a pointer into an array is not null
        self._same(o)
        return self.off == o.off

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else wrapb(T.not_(term(r)))

    __hash__ = object.__hash__

    def __lt__(self, o): self._same(o); return self.off < o.off
    def __le__(self, o): self._same(o); return self.off <= o.off
    def __gt__(self, o): self._same(o); return self.off > o.off
    def __ge__(self, o): self._same(o); return self.off >= o.off
    def __bool__(self): return True
    def __getitem__(self, k):
        if isinstance(k, slice):
            return Window(self + (k.start or 0), k.stop - (k.start or 0))
        return ld(self, k)

    def __setitem__(self, k, v): st(self, k, v)


class Window:
    """ptr[lo:hi], iterated by value"""

    def __init__(self, p, n):
        self.p, self.n = p, n

    def __vc_iter__(self):
        p = self.p
        n = term(self.n)
        if n.op == "num":
            return [ld(p, k) for k in range(max(0, int(n.args[0])))]
        if not E.solver.entails(T.ge(n, T.ZERO)) and not E.fork(T.ge(n, T.ZERO)):
            return []
        return R.SymIter([("map", n, lambda i: ld(p, wrap(i)))])


def check_kind(t, ctype):
    """pointer of C type ctype into array t: why it must not be used, or None"""
    if ctype in (None, "void"):
        return None
    want = real_np.dtype(CT[ctype])
    have = t.dtype
    if have.itemsize != want.itemsize or (have.kind == "f") != (want.kind == "f"):
        return "pointer to %s into an array of %s" % (ctype, have)


def data(t, ctype=None):
    """<ctype*>t.data (taking the pointer is harmless; using it is checked)"""
    if type(t) is Ptr:
        return Ptr(t.t, t.off, t.bad or check_kind(t.t, ctype))
    if not X.is_t(t):
        raise Unsupported("data pointer of %s" % type(t).__name__)
    bad = check_kind(t, ctype)
    if bad is None and not t.contig:
        bad = "flat access to an array that is not contiguous"
    return Ptr(t, 0, bad)


def usable(p):
    if p.bad is not None:
        raise MemoryFault(p.bad)


# ------------------------------------------------------------ flat offset -> cell
def nonneg(t):
    return E.solver.entails(T.ge(t, T.ZERO))


def less(a, b):
    return E.solver.entails(T.lt(a, b))


def _factor(s):
    """(a, s/a) for a variable or constant-free atom dividing the stride s"""
    p = T.to_poly(s)
    com = T._common(p)
    for a, e in sorted(com.items(), key=lambda ae: ae[0].id):
        if e > 0:
            return a, T.mul(s, T.power(a, -1))
    return None, s


def inrange(r, s, flat):
    """0 <= r < s, with r possibly a flat combination"""
    if r is T.ZERO and (s.op == "num" and s.args[0] > 0):
        return True
    if T.RANGE.get(r) is s:
        return True
    a, rest = _factor(s)
    if a is not None and rest is not T.ONE:
        u, v = T._divpart(r, a)
        if v is T.ZERO or v is not r and inrange(v, a, flat):
            return inrange(u, rest, flat)
    if a is not None and rest is T.ONE:
        u, v = T._divpart(r, a)
        if u is not T.ZERO and u is not None and v is not None:
            pass
    return nonneg(r) and less(r, s)


def polydiv(a, s):
    """candidates (q, r) with a = q*s + r"""
    ps = T.to_poly(s)
    lead = max(ps, key=lambda m: (len(m), sum(e for _, e in m), str(m)))
    out = []
    rest = dict(T.to_poly(a))
    q = {}
    for m, c in list(rest.items()):
        inv = tuple((x, -e) for x, e in lead)
        mm, ex = T._mono_mul(m, inv)
        if not ex and all(e > 0 for _, e in mm) and (c / ps[lead]).denominator == 1:
            q[mm] = c / ps[lead]
    full = T.from_poly(q)
    out.append((full, T.sub(a, T.mul(full, s))))
    ms = list(q.items())
    if 1 < len(ms) <= 4:
        for k in range(1, 2 ** len(ms) - 1):
            part = T.from_poly({m: c for j, (m, c) in enumerate(ms) if not k >> j & 1})
            out.append((part, T.sub(a, T.mul(part, s))))
    if full is not T.ZERO:
        out.append((T.ZERO, a))
    return out


def split(off, dims):
    """indices of flat offset off, or None if the decomposition cannot be established; the leading index is unchecked"""
    if len(dims) == 1:
        return (off,)
    s = X.prod(dims[1:])
    if s is T.ONE:
        return (off,) + (T.ZERO,) * (len(dims) - 1)
    for q, r in polydiv(off, s):
        if inrange(r, s, True):
            sub = split(r, dims[1:])
            if sub is not None and (len(dims) == 2 or inrange(sub[0], dims[1], True)):
                return (q,) + sub
    return None


def unlin(off, dims):
    out = []
    for k in range(len(dims)):
        stride = X.prod(dims[k + 1:])
        q = T.app("fdiv", off, stride, sort="I") if stride is not T.ONE else off
        if k > 0:
            q = T.app("mod", q, dims[k], sort="I")
        out.append(q)
    return tuple(out)


def lin(idx, dims):
    r = T.ZERO
    for x, d in zip(idx, dims):
        r = T.add(T.mul(r, d), x)
    return r


def locate(t, off, what):
    """cell of the flat offset: (index tuple, None) or (fdiv/mod tuple, off) when only the flat bound is known"""
    dims = t.dims
    if len(dims) == 0:
        if off is not T.ZERO and not E.solver.entails(T.eq(off, T.ZERO)):
            raise MemoryFault(what)
        return (), None
    idx = split(off, dims)
    if idx is not None:
        ok = T.and_(T.ge(idx[0], T.ZERO), T.lt(idx[0], dims[0]))
        if not E.solver.entails(ok) and not E.fork(ok):
            raise MemoryFault("%s outside its array: row %s of %s" % (what, T.show(idx[0])[:200], T.show(dims[0])))
        return idx, None
    ok = T.and_(T.ge(off, T.ZERO), T.lt(off, X.prod(dims)))
    if not E.solver.entails(ok) and not E.fork(ok):
        raise MemoryFault("%s outside its array: offset %s of %s" % (what, T.show(off)[:200], T.show(X.prod(dims))))
    return unlin(off, dims), off


def ld(p, i):
    if type(p) is Local:
        return p[i]
    if type(p) is not Ptr:
        raise Unsupported("read through %s" % type(p).__name__)
    usable(p)
    idx, _ = locate(p.t, term(p.off + i), "read")
    return wrap(p.t.cell(*idx))


def st(p, i, v):
    if type(p) is Local:
        p[i] = v
        return
    if type(p) is not Ptr:
        raise Unsupported("write through %s" % type(p).__name__)
    usable(p)
    t = p.t
    idx, flat = locate(t, term(p.off + i), "write")
    val = X.as_sort(term(v), t.dtype)
    if flat is None:
        t.write(lambda J: val, lambda J: T.and_(*[T.eq(a, b) for a, b in zip(J, idx)]))
    else:
        t.write(lambda J: val, lambda J: T.eq(lin(J, t.dims), flat))


def region(p, n, what):
    """cells [off, off+n) of the array: (where(J), k(J)) with k = (rows, cols, stride) or flat position"""
    usable(p)
    t, off, dims = p.t, term(p.off), p.t.dims
    n = term(n)
    if len(dims) == 0:
        raise Unsupported("region of a 0-d array")
    if len(dims) > 2:
        d2 = (X.prod(dims[:-1]), dims[-1])
        if not E.solver.entails(T.or_(T.le(n, T.ZERO), T.and_(T.ge(off, T.ZERO), T.le(T.add(off, n), X.prod(dims))))):
            raise Unsupported("region of a %d-d array" % len(dims))
        return lambda J: T.and_(T.ge(lin(J, dims), off), T.lt(lin(J, dims), T.add(off, n))), lambda J: (T.ZERO, T.sub(lin(J, dims), off), None)

    def bad(cond):
        """the region leaves the array although it is not empty"""
        if not E.solver.entails(T.or_(T.le(n, T.ZERO), cond)):
            if not E.fork(T.or_(T.le(n, T.ZERO), cond)):
                raise MemoryFault("%s outside its array: [%s, +%s) of %s" % (what, T.show(off)[:200], T.show(n)[:200], [T.show(d) for d in dims]))

    if len(dims) == 1:
        bad(T.and_(T.ge(off, T.ZERO), T.le(T.add(off, n), dims[0])))
        return lambda J: T.and_(T.ge(J[0], off), T.lt(J[0], T.add(off, n))), lambda J: (T.ZERO, T.sub(J[0], off), None)
    s = dims[1]
    for q, r in polydiv(off, s):
        # inside one row
        a, rest = _factor(s)
        if a is not None and rest is not T.ONE:
            u, v = T._divpart(r, a)
            m, w = T._divpart(n, a)
            ok = v is T.ZERO and w is T.ZERO and E.solver.entails(T.or_(T.le(m, T.ZERO), T.and_(T.ge(u, T.ZERO), T.le(T.add(u, m), rest))))
        else:
            ok = r is T.ZERO and n is s
        ok = ok or E.solver.entails(T.or_(T.le(n, T.ZERO), T.and_(T.ge(r, T.ZERO), T.le(T.add(r, n), s))))
        if ok:
            bad(T.and_(T.ge(q, T.ZERO), T.lt(q, dims[0])))
            if a is not None and rest is not T.ONE and v is T.ZERO and w is T.ZERO:
                return (lambda q, u, m, a: lambda J: T.and_(T.eq(J[0], q), T.ge(T.app("fdiv", J[1], a, sort="I"), u), T.lt(T.app("fdiv", J[1], a, sort="I"), T.add(u, m))))(q, u, m, a), \
                    (lambda u, a: lambda J: (T.sub(T.app("fdiv", J[1], a, sort="I"), u), T.app("mod", J[1], a, sort="I"), a))(u, a)
            if r is T.ZERO and n is s:
                return (lambda q: lambda J: T.eq(J[0], q))(q), lambda J: (T.ZERO, J[1], None)
            return (lambda q, r: lambda J: T.and_(T.eq(J[0], q), T.ge(J[1], r), T.lt(J[1], T.add(r, n))))(q, r), (lambda r: lambda J: (T.ZERO, T.sub(J[1], r), None))(r)
        if r is T.ZERO:
            m, w = T._divpart(n, s)
            if w is T.ZERO:
                bad(T.and_(T.ge(q, T.ZERO), T.le(T.add(q, m), dims[0])))
                return (lambda q: lambda J: T.and_(T.ge(J[0], q), T.lt(J[0], T.add(q, m))))(q), (lambda q: lambda J: (T.sub(J[0], q), J[1], s))(q)
    bad(T.and_(T.ge(off, T.ZERO), T.le(T.add(off, n), X.prod(dims))))
    return lambda J: T.and_(T.ge(lin(J, dims), off), T.lt(lin(J, dims), T.add(off, n))), lambda J: (T.ZERO, T.sub(lin(J, dims), off), None)


def at(p, k):
    """cell at offset off + k of a region already shown to lie inside the array; k = (row, col, stride)"""
    t, off = p.t, term(p.off)
    row, col, s = k
    if s is not None and len(t.dims) == 2:
        if t.dims[1] is s:
            q, r = T._divpart(off, s) if len(T.to_poly(s)) == 1 else (None, None)
            if r is T.ZERO:
                return t.cell(T.add(q, row), col)
        # rows of the region lie inside one row of the array
        for q, r in polydiv(off, t.dims[1]):
            u, v = T._divpart(r, s)
            a, rest = t.dims[1], T.mul(t.dims[1], T.power(s, -1))
            if v is T.ZERO and all(e > 0 for m in T.to_poly(rest) for _, e in m):
                return t.cell(q, T.add(T.mul(T.add(u, row), s), col))
    f = T.add(off, T.add(T.mul(row, s), col)) if s is not None else T.add(off, col)
    if len(t.dims) == 1:
        return t.cell(f)
    if s is None and len(t.dims) == 2:
        for q, r in polydiv(off, t.dims[1]):
            if r is T.ZERO and T.RANGE.get(col) is t.dims[1]:
                return t.cell(q, col)
    return t.cell(*unlin(f, t.dims))


def empty(n):
    n = term(n)
    return n is T.ZERO or E.solver.entails(T.le(n, T.ZERO))


def update(dst, n, fn, what):
    """dst[0:n] = fn(position)"""
    if type(dst) is Local:
        raise Unsupported("%s into a local array" % what)
    if empty(n):
        return
    where, pos = region(dst, n, what)
    t = dst.t
    t.write(lambda J: X.as_sort(fn(J, pos(J)), t.dtype), where)


def _count(nbytes, t):
    n = T.mul(term(nbytes), T.num(F(1, t.dtype.itemsize)))
    if any(c.denominator != 1 for c in T.to_poly(n).values()):
        raise Unsupported("byte count")
    return n


def memcpy(dst, src, nbytes):
    n = _count(nbytes, dst.t)
    if dst.t.dtype != src.t.dtype:
        raise MemoryFault("memcpy between types")
    if not E.solver.entails(T.ge(n, T.ZERO)) and not E.fork(T.ge(n, T.ZERO)):
        raise MemoryFault("memcpy of a negative size")
    region(src, n, "memcpy source")
    apart(dst, src, n, "memcpy")
    old = Ptr(_frozen(src.t), src.off)
    update(dst, n, lambda J, k: at(old, k), "memcpy")


def _frozen(t):
    """the array's present contents"""
    return X.copy(t)


def apart(a, b, n, what):
    if a.t.st is b.t.st:
        oa, ob = term(a.off), term(b.off)
        if not E.solver.entails(T.or_(T.le(T.add(oa, n), ob), T.le(T.add(ob, n), oa))):
            raise Unsupported("%s of overlapping regions" % what)


def memset(dst, v, nbytes):
    n = _count(nbytes, dst.t)
    if term(v) is not T.ZERO:
        raise Unsupported("memset to a value other than 0")
    if not E.solver.entails(T.ge(n, T.ZERO)) and not E.fork(T.ge(n, T.ZERO)):
        raise MemoryFault("memset of a negative size")
    update(dst, n, lambda J, k: T.ZERO, "memset")


def copy_n(src, n, dst):
    region(src, n, "copy_n source")
    old = Ptr(_frozen(src.t), src.off)
    update(dst, n, lambda J, k: at(old, k), "copy_n")


def fill_n(dst, n, v):
    update(dst, n, lambda J, k: term(v), "fill_n")


# ------------------------------------------------------------ contracts on the BLAS functions
def _axpy(N, alpha, x, incx, y, incy):
    """y[0:N] += alpha * x[0:N]"""
    if incx != 1 or incy != 1:
        raise Unsupported("strided axpy")
    if empty(N):
        return
    _kinds(x, y)
    region(x, N, "axpy source")
    apart(x, y, term(N), "axpy")
    a = term(alpha)
    old = Ptr(_frozen(x.t), x.off)
    yt = y.t
    where, pos = region(y, N, "axpy")
    yt.write(lambda J: T.add(yt.cell(*J), T.mul(a, at(old, pos(J)))), where)


def _scal(N, alpha, x, incx):
    if incx != 1:
        raise Unsupported("strided scal")
    if empty(N):
        return
    t = x.t
    where, pos = region(x, N, "scal")
    a = term(alpha)
    t.write(lambda J: T.mul(a, t.cell(*J)), where)


def _kinds(*ps):
    for p in ps:
        if type(p) is not Ptr:
            raise Unsupported("BLAS call on %s" % type(p).__name__)
        usable(p)
    if len({p.t.dtype for p in ps}) != 1:
        raise MemoryFault("BLAS call on arrays of different types")


def _gemm(ta, tb, M, N, K, alpha, A, lda, B, ldb, beta, C, ldc):
    """C = alpha * op(A) op(B) + beta * C for row-major matrices whose leading dimension is their width"""
    _kinds(A, B, C)
    ta, tb = (bool(v) for v in (ta, tb))
    M, N, K, lda, ldb, ldc = (term(v) for v in (M, N, K, lda, ldb, ldc))
    for p, rows, cols, ld_, name in ((A, K if ta else M, M if ta else K, lda, "A"), (B, N if tb else K, K if tb else N, ldb, "B"), (C, M, N, ldc, "C")):
        if len(p.t.dims) != 2 or term(p.off) is not T.ZERO:
            raise Unsupported("gemm on part of an array")
        E.prove(T.and_(T.eq(p.t.dims[0], rows), T.eq(p.t.dims[1], cols), T.eq(ld_, cols)), "gemm: %s has the stated shape" % name)
    k = T.fresh("k", "I")
    T.RANGE[k] = K
    At, Bt, Ct = _frozen(A.t), _frozen(B.t), C.t
    al, be = term(alpha), term(beta)

    def cell(J):
        s = T.tsum(k, T.ZERO, K, T.mul(At.cell(k, J[0]) if ta else At.cell(J[0], k), Bt.cell(J[1], k) if tb else Bt.cell(k, J[1])))
        r = T.mul(al, s)
        return r if be is T.ZERO else T.add(r, T.mul(be, Ct.cell(*J)))

    Ct.write(cell)


class CBlas:
    """contract on thinc.backends.cblas.CBlas: a set of functions doing what BLAS defines"""
    __module__ = "thinc.native"
    __slots__ = ()


def saxpy(b): return _axpy
def daxpy(b): return _axpy
def sgemm(b): return _gemm
def dgemm(b): return _gemm
def sscal(b): return _scal
def dscal(b): return _scal


# ------------------------------------------------------------ C arithmetic
def real(s):
    s = str(s).rstrip("fF")
    return wrap(T.num(F(s), "R")) if not any(ch in s for ch in "xXnN") else float(s)


def nz(x):
    """divisor"""
    t = term(x)
    if t.op == "num":
        if t.args[0] == 0:
            raise Unsupported("division by zero in native code")
        return x
    if not E.solver.entails(T.not_(T.eq(t, T.ZERO))) and E.fork(T.eq(t, T.ZERO)):
        return Infinite()
    return x


class Infinite:
    """the result of dividing by zero: may be computed, may not be used"""
    __module__ = "thinc.native"
    __slots__ = ()

    def __rtruediv__(self, o): return self
    def __mul__(self, o): return self
    __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __mul__
    def __vc_term__(self): return T.mk("app", ("u:divided by zero", T.ZERO), "R")


def cdiv(a, b):
    """C integer division"""
    ta, tb = term(a), term(b)
    if ta.op == "num" and tb.op == "num":
        if tb.args[0] == 0:
            raise MemoryFault("integer division by zero")
        q = abs(int(ta.args[0])) // abs(int(tb.args[0]))
        return q if (ta.args[0] < 0) == (tb.args[0] < 0) else -q
    if E.solver.entails(T.not_(T.eq(tb, T.ZERO))) or not E.fork(T.eq(tb, T.ZERO)):
        e = _exactdiv(ta, tb)
        if e is not None:
            return wrap(e)
        if (E.solver.entails(T.and_(T.ge(ta, T.ZERO), T.gt(tb, T.ZERO))) or E.fork(T.and_(T.ge(ta, T.ZERO), T.gt(tb, T.ZERO)))):
            return wrap(T.app("fdiv", ta, tb, sort="I"))
        raise Unsupported("C division of negative numbers")
    raise MemoryFault("integer division by zero")


def _exactdiv(a, b):
    for q, r in polydiv(a, b):
        if r is T.ZERO:
            return q
    return None


def cmod(a, b):
    ta, tb = term(a), term(b)
    if ta.op == "num" and tb.op == "num" and tb.args[0] != 0:
        import math
        return int(math.fmod(int(ta.args[0]), int(tb.args[0])))
    if not (E.solver.entails(T.and_(T.ge(ta, T.ZERO), T.gt(tb, T.ZERO))) or E.fork(T.and_(T.ge(ta, T.ZERO), T.gt(tb, T.ZERO)))):
        if not E.solver.entails(T.not_(T.eq(tb, T.ZERO))) and E.fork(T.eq(tb, T.ZERO)):
            raise MemoryFault("integer division by zero")
        raise Unsupported("C remainder of negative numbers")
    return wrap(T.app("mod", ta, tb, sort="I"))


def pymod(a, b):
    """a % b on Python objects; the text of a message with unknown numbers in it is not modelled"""
    if type(a) is str and any(type(x) is S for x in (b if type(b) is tuple else (b,))):
        return a
    return a % b


def bits(op, a, b):
    ta, tb = term(a), term(b)
    if ta.op == "num" and tb.op == "num":
        x, y = int(ta.args[0]), int(tb.args[0])
        return {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op]
    if op == "&":
        return wrap(T.app("bitand", ta, tb, sort="I"))
    raise Unsupported("operator %s on unknown numbers" % op)


def unsigned(x):
    t = term(x)
    if not E.solver.entails(T.ge(t, T.ZERO)) and not E.fork(T.ge(t, T.ZERO)):
        raise Unsupported("negative number converted to an unsigned type")
    return x


def trunc(x):
    t = term(x)
    if t.op == "num":
        return int(t.args[0])
    if E.solver.entails(T.ge(t, T.ZERO)) or E.fork(T.ge(t, T.ZERO)):
        return wrap(T.app("floor", t))
    return wrap(T.neg(T.app("floor", T.neg(t))))


def cmax(a, b):
    a, b = term(a), term(b)
    return wrap(T.app("max2", a, b, sort="I") if T.is_int(a) and T.is_int(b) else T.tmax(a, b))


def cmin(a, b):
    a, b = term(a), term(b)
    return wrap(T.neg(T.app("max2", T.neg(a), T.neg(b), sort="I")) if T.is_int(a) and T.is_int(b) else T.tmin(a, b))


def _u(name):
    def f(x):
        return wrap(T.app(name, term(x)))
    return f


exp, log, tanh, erf, sin, cos = (_u(n) for n in ("exp", "log", "tanh", "erf", "sin", "cos"))


def sqrt(x):
    return wrap(T.power(term(x), F(1, 2)))


def log1p(x):
    return wrap(T.app("log", T.add(T.ONE, term(x))))


def pow(a, b):
    return a ** b


class Struct:
    __module__ = "thinc.native"

    def __init__(self, **kw):
        self.__dict__.update(kw)


def copy(v):
    return Struct(**v.__dict__) if type(v) is Struct else v


class CxxError(Exception):
    def __new__(cls, exc):
        return exc()


class Local:
    """fixed-size array on the stack"""
    __module__ = "thinc.native"

    def __init__(self, ctype, n):
        self.ctype, self.n = ctype, n
        self.arr = X.from_fn((T.num(n),), lambda i: T.app("junk", i), real_np.dtype(CT[ctype]))

    def ptr(self):
        return Ptr(self.arr, 0)


def local_array(ctype, n):
    return Local(ctype, n).ptr()


def crange(lo, hi):
    if type(lo) is Ptr:
        hi._same(lo)
        base = lo
        return R.iterable(Steps(base, hi.off - lo.off))
    n = hi - lo
    t = term(n)
    if t.op == "num":
        return range(int(term(lo).args[0]), int(term(hi).args[0])) if term(lo).op == "num" else [lo + k for k in range(max(0, int(t.args[0])))]
    return R.vrange(lo, hi)


class Steps:
    def __init__(self, p, n):
        self.p, self.n = p, n

    def __vc_iter__(self):
        p, n = self.p, term(self.n)
        if n.op == "num":
            return [p + k for k in range(max(0, int(n.args[0])))]
        if not E.solver.entails(T.ge(n, T.ZERO)) and not E.fork(T.ge(n, T.ZERO)):
            return []
        return R.SymIter([("map", n, lambda i: p + wrap(i))])


def same(a, b):
    """a loop bound that is read from memory is not changed by the body"""
    E.prove(T.eq(term(a), term(b)), "loop bound unchanged by the body")


# ------------------------------------------------------------ what Cython checks at the border
def _dtype_ok(t, ctype):
    want = real_np.dtype(CT[ctype])
    return t.dtype.itemsize == want.itemsize and t.dtype.kind == want.kind


def view(x, ctype, ndim, contig):
    """typed memoryview of an object"""
    if x is None:
        return None
    if not X.is_t(x):
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    if not _dtype_ok(x, ctype):
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (ctype, x.dtype))
    if len(x.dims) != ndim:
        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (ndim, len(x.dims)))
    if contig and not x.contig:
        raise ValueError("ndarray is not C-contiguous")
    return x


buffer = view


def ndarray(x):
    if x is not None and not X.is_t(x):
        raise TypeError("Argument has incorrect type (expected numpy.ndarray, got %s)" % type(x).__name__)
    return x


def matches(x, ctype, ndim):
    return X.is_t(x) and _dtype_ok(x, ctype) and len(x.dims) == ndim


def cint(x, ctype):
    """conversion to a C integer type (no overflow is assumed for signed types)"""
    if isinstance(x, bool):
        return int(x)
    if ctype in ("uint32_t", "unsigned int", "uint64_t", "size_t") and term(x).op != "num":
        return unsigned(x)
    if isinstance(x, float):
        raise TypeError("an integer is required")
    return x


def addr(base, idx, check):
    """&base[idx]"""
    if type(base) is Ptr:
        return base + idx[0]
    if not X.is_t(base):
        raise Unsupported("address of an element of %s" % type(base).__name__)
    off = T.ZERO
    inside = []
    for k, (i, d) in enumerate(zip(idx, base.dims)):
        i = term(i)
        inside += [T.ge(i, T.ZERO), T.lt(i, d)]
        off = T.add(T.mul(off, d), i)
    ok = T.and_(*inside)
    if check and not E.solver.entails(ok) and not E.fork(ok):
        raise IndexError("Out of bounds on buffer access")
    return Ptr(base, wrap(off), None if base.contig else "pointer into an array that is not contiguous")


def sizeof(ctype):
    return SIZE[real_np.dtype(CT[ctype]).name]


def elemsize(p):
    return p.t.dtype.itemsize if type(p) is Ptr else p.dtype.itemsize


def fmt(x):
    return "<value>"


def murmur128(key, seed, out):
    """contract on MurmurHash3_x86_128_uint64: writes four 32-bit words determined by key and seed"""
    for j in range(4):
        st(out, j, hashword(key, seed, j))


def hashword(key, seed, j):
    h = T.app("hash128", term(key), term(seed), T.num(j), sort="I")
    return wrap(h)


def hash64(p, nbytes, seed):
    """contract on murmurhash's hash64: reads nbytes bytes from p; its result depends on their values and the seed alone"""
    n = cdiv(nbytes, elemsize(p))
    T1 = _frozen(p.t)
    region(p, term(n), "hash64")
    if len(p.t.dims) != 1:
        raise Unsupported("hash64 of a %d-d array" % len(p.t.dims))
    return hashed(lambda k: wrap(T1.cell(T.add(term(p.off), term(k)))), n, seed)


def hashed(at, n, seed):
    """the hash of the values at(0), …, at(n-1)"""
    k = T.fresh("k", "I")
    T.RANGE[k] = term(n)
    return wrap(T.app("hash64", T.lam([k], term(at(wrap(k)))), term(n), term(seed), sort="I"))


def hash32(key, seed):
    """contract on MurmurHash3_x86_32_uint64: a 32-bit word determined by key and seed"""
    return wrap(T.app("hash32", term(key), term(seed), sort="I"))
