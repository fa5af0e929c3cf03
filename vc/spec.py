"""Contract language.  A contract unit is a function of a context `c`.  It draws its inputs
from `c`, runs the real thinc code and states postconditions.  It is evaluated twice:

* symbolically (`Sym`): inputs are arbitrary, every path of the (instrumented) real code is
  followed and each postcondition is an obligation discharged by the prover -- this decides;
* concretely (`Conc`): inputs are drawn at random and the postconditions are evaluated on the
  unmodified real code -- this replays/refutes (a failing input) and checks the trusted base.
"""
import math, random, builtins


class Reject(Exception):
    """drawn input violates the precondition"""


class Violation(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name + ": " + detail)
        self.name, self.detail = name, detail


class Unit:
    def __init__(self, name, fn, sym=True, conc=True, trials=1.0, paths=400, secs=None, funcs=(), div=False, note="", split=1):
        self.name, self.fn, self.sym, self.conc, self.trials = name, fn, sym, conc, trials
        self.paths, self.secs, self.funcs, self.div, self.note = paths, secs, tuple(funcs), div, note
        self.split = split


class Property:
    def __init__(self, id, explanation="", assumptions=(), bounded=()):
        self.id, self.units, self.explanation = id, [], explanation
        self.assumptions, self.bounded = list(assumptions), list(bounded)
        self.known = []

    def unit(self, name, **kw):
        def deco(fn):
            self.units.append(Unit(name, fn, **kw))
            return fn

        return deco

    def finding(self, key):
        """a recorded genuine defect: fn(c) returns True while the listed input still fails (concrete only)"""
        def deco(fn):
            self.known.append((key, fn))
            return fn

        return deco


# =================================================================== symbolic
class Sym:
    sym = True
    NAMES = None

    def __init__(self):
        from . import engine, terms, tensor, runtime, solve, snp
        self.EN, self.Tm, self.X, self.RT, self.SV = engine, terms, tensor, runtime, solve
        self.E = engine.E
        self.xp = snp.SNP
        self._ops = None

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        v = self.EN.integer(name)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return v

    def idx(self, name, n):
        """index 0 <= v < n"""
        v = self.int(name, 0)
        self.E.assume(v < n)
        self.Tm.RANGE[v.t] = self.t(n)
        return v

    def dim(self, name, lo=0):
        v = self.int(name if lo < 1 else name + "+", lo)
        self.Tm.DIMS.add(v.t)
        if lo >= 1:
            self.Tm.declare_positive(v.t)
        return v

    def len(self, x):
        return self.RT.vlen(x)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        v = self.EN.real(name)
        if pos:
            self.Tm.declare_positive(v.t)
            self.E.assume(v > 0)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        if nonzero:
            self.E.assume(v != 0)
        return v

    def bool(self, name):
        return self.EN.boolean(name)

    def pick(self, name, options):
        return options[self.E.choose(len(options), name)]

    def flag(self, name):
        return self.pick(name, [False, True])

    def opaque(self, name):
        return self.EN.opaque(name)

    def array(self, name, *shape, dtype="float32", lo=None, hi=None, pos=False, fact=None, ties=False):
        t = self.X.tensor(name, *shape, dtype=dtype)
        v = t.st.content
        T = self.Tm
        T.POSARR.discard(v.id)
        told = fact
        if pos:
            T.POSARR.add(v.id)
            self.SV.FACTS[v] = lambda s, idx: T.lt(T.ZERO, s)
        elif lo is not None or hi is not None or told is not None:
            lo_t = None if lo is None else self.EN.term(lo)
            hi_t = None if hi is None else self.EN.term(hi)
            incl = t.dtype.kind == "f"

            def fact(s, idx):
                cs = []
                if lo_t is not None:
                    cs.append(T.le(lo_t, s))
                if hi_t is not None:
                    cs.append(T.le(s, hi_t) if incl else T.lt(s, hi_t))
                if told is not None:
                    cs.append(self.EN._b(told(self.EN.S(s))))
                return T.and_(*cs)

            self.SV.FACTS[v] = fact
            if lo_t is T.ZERO and hi_t is not None and not incl:
                t.st.bounds = (lo_t, hi_t)
        else:
            self.SV.FACTS.pop(v, None)
        return t

    def map(self, name, value, keys=None):
        """dict with arbitrary entries; value(key) makes the (arbitrary) value of a present key"""
        from .smap import SMap
        return SMap(name, value)

    def name(self, label):
        """arbitrary string"""
        return self.EN.opaque(label)

    def lst(self, name, n, fn):
        """list of n elements fn(i)"""
        return self.RT.symlist(n, lambda i: fn(self.EN.wrap(i)))

    def family(self, name, i, *rest):
        """the i-th member name of an indexed family of ints/arrays (for list elements)"""
        return name

    def fint(self, name, i, lo=None, hi=None):
        """i-th integer of a family; lo/hi bounds hold for every i"""
        T = self.Tm
        v = T.var(name, "O")
        if v not in self.SV.FACTS and (lo is not None or hi is not None):
            lo_t = None if lo is None else self.EN.term(lo)
            hi_t = None if hi is None else self.EN.term(hi)
            self.SV.FACTS[v] = lambda s, idx: T.and_(*([T.le(lo_t, s)] if lo_t is not None else []),
                                                    *([T.le(s, hi_t)] if hi_t is not None else []))
        return self.EN.S(T.sel(v, self.EN.term(i), sort="I"))

    def stream(self, name, lo=None, hi=None):
        """an iterator whose k-th value is an arbitrary integer; returns (iterator, k -> value)"""
        from .runtime import SymStream
        f = lambda k: self.fint(name, k, lo, hi)
        return SymStream(f), f

    def shuffled(self):
        """the permutation applied by the last shuffle: position -> original position"""
        from .snp import Random
        p = Random.PERM[-1]
        return lambda i: self.EN.S(self.Tm.sel(p, self.EN.term(i), sort="I"))

    def groups(self):
        """numbering of the last numpy.unique: (position -> number of its value, how many)"""
        from .snp import SNP
        v, m = SNP.UNIQUE[-1]
        return (lambda i: self.EN.S(self.Tm.sel(v, self.EN.term(i), sort="I"))), self.EN.S(m)

    def table(self, name, lo=-100, hi=100):
        """an arbitrary integer-valued table; (mapping with get/[]/in, key -> is it there, key -> value)"""
        from .smap import FnMap
        t = FnMap(name)
        return t, t.has, t.val

    def items(self, batches):
        """everything a sized generator yields"""
        from . import runtime as R
        R.COLLECT[0] = True
        try:
            it = batches.get_items()
        finally:
            R.COLLECT[0] = False
        return R.SList(segs=[("items", list(s[1])) if s[0] == "items" else s for s in it.segments()])

    def farray(self, name, i, *shape, dtype="float32", fact=None):
        """i-th array of a family, shape may depend on i; fact holds for every cell"""
        T, X = self.Tm, self.X
        v = T.var(name, "O")
        if fact is not None and v not in self.SV.FACTS:
            self.SV.FACTS[v] = lambda s, idx: self.EN._b(fact(self.EN.S(s)))
        it = self.EN.term(i)
        return X.from_fn(shape, lambda *idx: T.sel(v, it, *idx, sort=X.sort_of(dtype)), dtype, name)

    # ---- control
    def assume(self, c):
        self.E.assume(c)
        if self.E.solver.impossible():
            raise self.EN.Infeasible()

    def check(self, name, c, detail=""):
        return self.E.prove(c, name, detail)

    def fail(self, name, detail=""):
        return self.E.record(name, False, detail)

    def ok(self, name):
        return self.E.record(name, True, backend="execution")

    def raises(self, name, exc, fn):
        try:
            r = fn()
        except exc:
            self.ok(name)
            return True
        if self.E.solver.check([]) == "unsat":
            raise self.EN.Infeasible()
        self.fail(name, "expected %s, returned %r" % (exc, r))
        return False

    def run(self, fn, *exc):
        """(result, None) or (None, the exception raised, if of one of these classes)"""
        try:
            return fn(), None
        except exc as e:
            return None, e

    def under(self, cond):
        """decide a condition by case split; True on one path, False on the other"""
        return bool(cond)

    # ---- terms
    def t(self, x):
        return self.EN.term(x)

    def w(self, t):
        return self.EN.wrap(t)

    def at(self, a, *idx):
        if not self.X.is_t(a):
            a = self.X.lift(a)
            if not self.X.is_t(a):
                return self.w(a)
        return self.w(a.cell(*[self.t(i) for i in idx]))

    def sum(self, n, f, lo=0):
        T = self.Tm
        k = T.fresh("k", "I")
        if lo == 0:
            T.RANGE[k] = self.t(n)
        b = self.EN.term(f(self.w(k)))
        return self.w(T.tsum(k, self.t(lo), self.t(n), T.iv(b) if b.sort == "B" else b))

    def max(self, n, f, steps=False):
        return self._red("max", n, f, steps)

    def min(self, n, f, steps=False):
        return self._red("min", n, f, steps)

    def argmax(self, n, f, steps=False):
        return self._red("argmax", n, f, steps)

    def _red(self, kind, n, f, steps=False):
        T = self.Tm
        if steps and type(n) is builtins.int and 1 <= n <= 3:
            better = (lambda a, b: T.gt(a, b)) if kind.endswith("max") else (lambda a, b: T.lt(a, b))
            best, at = self.EN.term(f(0)), T.ZERO
            for j in range(1, n):
                v = self.EN.term(f(j))
                c = better(v, best)
                best, at = T.ite(c, v, best), T.ite(c, T.num(j), at)
            return self.w(at if kind.startswith("arg") else best)
        k = T.fresh("k", "I")
        T.RANGE[k] = self.t(n)
        return self.w(T.red(kind, k, self.t(n), self.EN.term(f(self.w(k)))))

    def ite(self, c, a, b):
        a, b = a() if callable(a) else a, b() if callable(b) else b
        return self.w(self.Tm.ite(self.EN._b(c), self.t(a), self.t(b)))

    def fn(self, name, x):
        return self.w(self.Tm.app(name, self.t(x)))

    def app(self, name, *args):
        """an arbitrary (uninterpreted) real function"""
        return self.w(self.Tm.mk("app", ("u:" + name,) + tuple(self.t(x) for x in args), "R"))

    def iterate(self, n, init, f):
        """state after n applications of s -> f(s, k)"""
        T = self.Tm
        s, k = T.fresh("s", "R"), T.fresh("k", "I")
        return self.w(T.rec(0, [s, k], [self.t(init)], self.t(n), [self.t(f(self.w(s), self.w(k)))]))

    def exp(self, x): return self.fn("exp", x)
    def log(self, x): return self.fn("log", x)
    def tanh(self, x): return self.fn("tanh", x)
    def erf(self, x): return self.fn("erf", x)
    def floor(self, x): return self.fn("floor", x)
    def fdiv(self, a, b): return self.w(self.Tm.app("fdiv", self.t(a), self.t(b), sort="I"))
    def mod(self, a, b): return self.w(self.Tm.app("mod", self.t(a), self.t(b), sort="I"))
    @property
    def pi(self): return self.w(self.Tm.PI)
    def sqrt(self, x):
        from fractions import Fraction
        return self.w(self.Tm.power(self.t(x), Fraction(1, 2)))

    def and_(self, *cs):
        return self.w(self.Tm.and_(*[self.EN._b(x) for x in cs]))

    def ivec(self, xs, dtype="int32"):
        """integer array of the listed values"""
        return self.xp.asarray(self.RT.SList(xs), dtype=dtype)

    def total(self, xs):
        """sum of a concrete list of terms"""
        return self.w(self.Tm.add(*[self.t(x) for x in xs])) if xs else 0

    def concrete(self, x, lo=0, hi=8):
        """the machine integer x is on this path (all values in [lo, hi] are explored)"""
        t = self.t(x)
        if t.op == "num":
            return int(t.args[0])
        for k in range(lo, hi + 1):
            if self.E.fork(self.Tm.eq(t, self.Tm.num(k))):
                return k
        raise self.EN.Unsupported("value outside the explored range")

    def or_(self, *cs):
        return self.w(self.Tm.or_(*[self.EN._b(x) for x in cs]))

    def not_(self, c):
        return self.w(self.Tm.not_(self.EN._b(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def build(self, shape, f, dtype="float32"):
        return self.X.from_fn(shape, lambda *i: self.EN.term(f(*[self.w(x) for x in i])), dtype)

    # ---- snapshots / frames
    def snap(self, *objs):
        return [self._snap(o) for o in objs]

    def _snap(self, o):
        X = self.X
        if X.is_t(o):
            return ("t", o, o.st.content, o.dims)
        if isinstance(o, dict):
            return ("d", o, {k: self._snap(v) for k, v in o.items()})
        if isinstance(o, (list, tuple)) and not (type(o) is self.RT.SList and o.segs is not None):
            return ("l", o, [self._snap(v) for v in o])
        if type(o) is self.RT.SList:
            i = self.Tm.fresh("snap", "I")
            return ("s", o, list(o.segs), i, self._snap(o.elem(i)))
        d = getattr(o, "__dict__", None)
        if type(o).__name__ in ("Ragged", "Padded", "ArgsKwargs", "SizedGenerator"):
            return ("o", o, {k: self._snap(v) for k, v in self._fields(o).items()})
        return ("v", o)

    def _fields(self, o):
        n = type(o).__name__
        if n == "Ragged":
            return {"data": o.data, "lengths": o.lengths, "data_shape": o.data_shape}
        if n == "Padded":
            return {"data": o.data, "size_at_t": o.size_at_t, "lengths": o.lengths, "indices": o.indices}
        if n == "ArgsKwargs":
            return {"args": o.args, "kwargs": o.kwargs}
        return dict(o.__dict__)

    def frame(self, name, snaps):
        """the snapshotted objects are unchanged"""
        for k, s in enumerate(snaps):
            self._frame("%s[%d]" % (name, k), s)

    def _frame(self, name, s):
        if s[0] == "t":
            _, o, content, dims = s
            if o.st.content is content:
                self.E.record(name, True, backend="execution")
            else:
                i = self.X.freshidx(o.st.shape)
                self._in_range(i, o.st.shape, lambda: self.E.prove_eq(
                    self.Tm.sel(o.st.content, *i, sort=self.X.sort_of(o.dtype)), self.Tm.sel(content, *i, sort=self.X.sort_of(o.dtype)), name, "array argument modified in place"))
        elif s[0] == "d":
            if list(s[1].keys()) != list(s[2].keys()):
                self.fail(name, "dict keys changed")
            for k, v in s[2].items():
                if k in s[1]:
                    if v[1] is not s[1][k]:
                        self.eq(name + "[%r]" % (k,), s[1][k], v[1])
                    self._frame(name + "[%r]" % (k,), v)
        elif s[0] == "l":
            if len(s[1]) != len(s[2]):
                self.fail(name, "length changed")
                return
            for k, v in enumerate(s[2]):
                if s[1][k] is not v[1]:
                    self.eq(name + "[%d]" % k, s[1][k], v[1])
                self._frame(name + "[%d]" % k, v)
            if not s[2]:
                self.ok(name)
        elif s[0] == "s":
            _, o, segs, i, sn = s
            if o.segs is None or len(o.segs) != len(segs) or any(a is not b for a, b in zip(o.segs, segs)):
                self.fail(name, "list changed")
            else:
                self._frame(name + "[i]", sn)
        elif s[0] == "o":
            now = self._fields(s[1])
            for k, v in s[2].items():
                if now[k] is not v[1]:
                    self.eq(name + "." + k, now[k], v[1])
                self._frame(name + "." + k, v)
        else:
            self.ok(name)

    def value(self, arr):
        """immutable copy of the current contents of an array (for stating postconditions)"""
        X = self.X
        i = X.freshidx(arr.dims)
        return X.from_body(i, arr.cell(*i), arr.dims, arr.dtype)

    # ---- equality
    def _in_range(self, idx, dims, f):
        T, sv = self.Tm, self.E.solver
        n0 = len(sv.pc)
        for i, d in zip(idx, dims):
            sv.pc.append(T.le(T.ZERO, i))
            sv.pc.append(T.lt(i, d))
        try:
            if len(idx) and sv.impossible():
                return self.E.record("empty-range", True, backend="z3")
            return f()
        finally:
            del sv.pc[n0:]

    def eq(self, name, a, b, tol=None):
        X, RT, E, T = self.X, self.RT, self.E, self.Tm
        import numpy
        at, bt = X.is_t(a) or type(a) is numpy.ndarray, X.is_t(b) or type(b) is numpy.ndarray
        if at or bt:
            if not (at and bt):
                one, other = (a, b) if at else (b, a)
                if not isinstance(other, (self.EN.S, int, float)) and type(other) is not self.EN.S:
                    return self.fail(name, "array compared with %r" % (type(other),))
            a, b = X.lift(a), X.lift(b)
            if not X.is_t(a) or not X.is_t(b):
                ta = a if not X.is_t(a) else self.EN.term(a)
                tb = b if not X.is_t(b) else self.EN.term(b)
                return E.prove_eq(ta, tb, name)
            if len(a.dims) != len(b.dims):
                return self.fail(name, "rank %d != %d" % (len(a.dims), len(b.dims)))
            ok = True
            for k, (x, y) in enumerate(zip(a.dims, b.dims)):
                if x is not y:
                    ok = E.prove(T.eq(x, y), name + ".shape[%d]" % k) and ok
            if not ok:
                return False
            i = X.freshidx(a.dims)
            return self._in_range(i, a.dims, lambda: E.prove_eq(a.cell(*i), b.cell(*i), name))
        if a is b:
            return self.ok(name)
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return self.fail(name, "keys %r != %r" % (sorted(map(str, a)), sorted(map(str, b))))
            r = True
            for k in a:
                r = self.eq(name + "[%r]" % (k,), a[k], b[k]) and r
            return r if a else self.ok(name)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            sa, sb = RT.as_slist(RT.SList(a)), RT.as_slist(RT.SList(b))
            if sa.segs is None and sb.segs is None:
                if len(sa) != len(sb):
                    return self.fail(name, "length %d != %d" % (len(sa), len(sb)))
                r = True
                for k, (x, y) in enumerate(zip(sa, sb)):
                    r = self.eq(name + "[%d]" % k, x, y) and r
                return r if len(sa) else self.ok(name)
            if not E.prove(T.eq(sa.nterm(), sb.nterm()), name + ".length"):
                return False
            i = T.fresh("i", "I")
            T.RANGE[i] = sa.nterm()
            return self._in_range((i,), (sa.nterm(),), lambda: self.eq(name + "[i]", sa.elem(i), sb.elem(i)))
        if type(a).__name__ in ("Ragged", "Padded", "ArgsKwargs") and type(a) is type(b):
            fa, fb = self._fields(a), self._fields(b)
            r = True
            for k in fa:
                r = self.eq(name + "." + k, fa[k], fb[k]) and r
            return r
        try:
            ta, tb = self.EN.term(a), self.EN.term(b)
        except self.EN.Unsupported:
            return self.fail(name, "%r is not %r" % (a, b)) if a is not b else self.ok(name)
        if (ta.op == "str") != (tb.op == "str") and "var" not in (ta.op, tb.op):
            return self.fail(name, "%r != %r" % (a, b))
        return E.prove_eq(ta, tb, name)

    def eq_build(self, name, arr, shape, f, tol=None):
        """arr has the given shape and arr[idx] == f(*idx)"""
        if not self.X.is_t(arr):
            import numpy
            if not isinstance(arr, numpy.ndarray):
                return self.fail(name, "not an array: %r" % (type(arr),))
        return self.eq(name, arr, self.build(shape, f, getattr(arr, "dtype", "float32")))

    def vjp(self, name, run, xs, dY, dxs, Y=None):
        """dxs are the vector-Jacobian products of dY with d run(*xs)/dxs"""
        T, X, E = self.Tm, self.X, self.E
        if Y is None:
            Y = run(*xs)
        I = X.freshidx(Y.dims)
        y = Y.cell(*I)
        if len(dY.dims) != len(Y.dims):
            return self.fail(name, "rank of gradient")
        w = dY.cell(*I)
        ok = True
        for k, (x, dx) in enumerate(zip(xs, dxs)):
            nm = "%s.d%s" % (name, x.st.name or k)
            if len(dx.dims) != len(x.dims):
                self.fail(nm, "rank of gradient")
                ok = False
                continue
            for p, (a, b) in enumerate(zip(dx.dims, x.dims)):
                if a is not b:
                    ok = E.prove(T.eq(a, b), nm + ".shape[%d]" % p) and ok
            v = x.st.content
            if v.op != "var":
                raise self.EN.Unsupported("vjp variable is not a plain array")
            J = X.freshidx(x.dims)

            def leaf(t):
                if t.op == "app" and t.args[0] == "sel" and t.args[1] is v:
                    return T.mul(*[T.iv(T.eq(p, q)) for p, q in zip(t.args[2:], J)])
                return None

            def go():
                try:
                    d = T.diff(y, leaf)
                except T.NotDifferentiable as e:
                    return E.record(nm, False, "verifier limit: cannot differentiate %s" % e)
                full = T.sums([(i, T.ZERO, n) for i, n in zip(I, Y.dims)], T.mul(w, d)) if I else T.mul(w, d)
                return E.prove_eq(dx.cell(*J), full, nm)

            ok = self._in_range(J, x.dims, go) and ok
        return ok

    @property
    def ops(self):
        if self._ops is None:
            import thinc.backends.ops as O
            self._ops = O.Ops()
        return self._ops

    @property
    def native(self):
        """NumpyOps as extracted from the .pyx/.hh sources"""
        from . import nativeops
        self._ops = nativeops.numpy_ops()
        return self._ops

    def use_ops(self, ops=None):
        import thinc.backends as B
        B.set_current_ops(ops or self.ops)
        return ops or self.ops


# =================================================================== concrete
class Conc:
    sym = False
    RTOL, ATOL = 2e-4, 2e-5

    def __init__(self, seed, trial, log=True):
        import numpy
        self.np = self.xp = numpy
        self.rng = random.Random("%s/%s" % (seed, trial))
        self.nprng = numpy.random.RandomState(self.rng.randrange(2 ** 31))
        self.drawn = {}
        self.n_checks = 0
        self._ops = None

    def _log(self, name, v):
        self.drawn[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        r = self.rng
        if lo is None and hi is None:
            v = r.choice([0, 1, -1, 2, 3, -2, r.randint(-50, 50)])
        elif hi is None:
            v = lo + r.choice([0, 0, 1, 1, 2, 3, 4, 5, r.randint(0, 12)])
        elif lo is None:
            v = hi - r.choice([0, 1, 2, 3, r.randint(0, 12)])
        else:
            v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, min(hi, lo + 6))])
        return self._log(name, v)

    def len(self, x):
        return len(x)

    def idx(self, name, n):
        if n <= 0:
            self.assume(False)
        return self._log(name, self.rng.randrange(int(n)))

    def dim(self, name, lo=0):
        return self._log(name, lo + self.rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        r = self.rng
        if pos and lo is None:
            lo = 0.0
        if lo is None and hi is None:
            v = r.choice([0.0, 1.0, -1.0, r.gauss(0, 1), r.gauss(0, 3), r.uniform(0, 1)])
        elif hi is None:
            v = lo + abs(r.choice([0.0, 1.0, 0.5, r.gauss(0, 1), r.gauss(0, 4), r.uniform(0, 1)]))
        elif lo is None:
            v = hi - abs(r.choice([0.0, 1.0, 0.5, r.gauss(0, 1), r.gauss(0, 4)]))
        else:
            v = r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi)])
        if (pos and v <= 0) or (nonzero and v == 0):
            v = (lo or 0.0) + r.uniform(0.01, 1.0)
            if hi is not None:
                v = min(v, hi)
        return self._log(name, float(v))

    def bool(self, name):
        return self._log(name, self.rng.random() < 0.5)

    def pick(self, name, options):
        k = self.rng.randrange(len(options))
        self._log(name, repr(options[k])[:60])
        return options[k]

    def flag(self, name):
        return self.pick(name, [False, True])

    def opaque(self, name):
        return self._log(name, "<%s>" % name)

    def array(self, name, *shape, dtype="float32", lo=None, hi=None, pos=False, fact=None, ties=False):
        np_ = self.np
        dt = np_.dtype(dtype)
        shape = tuple(builtins.int(s) for s in shape)
        if dt.kind == "f":
            v = self.nprng.normal(0, 1.5, shape)
            if pos:
                v = np_.abs(v) + 0.05
            elif lo is not None and hi is not None:
                v = self.nprng.uniform(lo, hi, shape)
            elif lo is not None:
                v = lo + np_.abs(v)
            elif hi is not None:
                v = hi - np_.abs(v)
            if ties and self.rng.random() < 0.4:
                v = np_.round(v)
        elif dt.kind == "b":
            v = self.nprng.uniform(0, 1, shape) < 0.5
        else:
            l = -20 if lo is None else lo
            h = (l + 40) if hi is None else hi
            if dt.kind == "u":
                l = max(l, 0)
            v = self.nprng.randint(l, max(h, l + 1), shape, dtype="int64")
            if h <= l and v.size:
                raise Reject()
        v = np_.ascontiguousarray(v, dtype=dt)
        if fact is not None and v.size:
            for idx in np_.ndindex(*shape):
                for _ in range(80):
                    if fact(v[idx].item()):
                        break
                    v[idx] = self.rng.gauss(0, 2) if dt.kind == "f" else self.rng.randint(-6 if lo is None else lo, 6 if hi is None else max(lo or 0, hi - 1))
                else:
                    raise Reject()
        return self._log(name, v)

    NAMES = ["W", "b", "E", "x"]

    def map(self, name, value, keys=None):
        out = {}
        for k in (keys if keys is not None else [(i, n) for i in range(1, 4) for n in self.NAMES]):
            if self.rng.random() < 0.5:
                out[k] = value(k)
        return out

    def name(self, label):
        return self._log(label, self.rng.choice(self.NAMES))

    def lst(self, name, n, fn):
        out = []
        for k in range(n):
            out.append(fn(k))
        return out

    def fint(self, name, i, lo=None, hi=None):
        key = "%s[%s]" % (name, i)
        if key in self.drawn:
            return self.drawn[key]
        return self.int(key, lo, hi)

    def stream(self, name, lo=None, hi=None):
        vals = []

        def at(k):
            while len(vals) <= k:
                vals.append(self.int("%s%d" % (name, len(vals)), lo, hi))
            return vals[k]

        def gen():
            k = 0
            while True:
                yield at(k)
                k += 1

        return gen(), at

    def items(self, batches):
        return list(batches)

    def table(self, name, lo=-100, hi=100):
        d = {}
        for _ in range(self.rng.randrange(6)):
            d[self.rng.randint(0, 6)] = self.rng.randint(lo, hi)
        self._log(name, dict(d))
        src = dict(d)
        return d, src.__contains__, src.__getitem__

    def farray(self, name, i, *shape, dtype="float32", **k):
        key = "%s[%s]" % (name, i)
        if key in self.drawn:
            return self.drawn[key].copy()
        return self.array(key, *shape, dtype=dtype)

    # ---- control
    def assume(self, c):
        if not c:
            raise Reject()

    def check(self, name, c, detail=""):
        self.n_checks += 1
        if not c:
            raise Violation(name, detail or "does not hold")
        return True

    def fail(self, name, detail=""):
        raise Violation(name, detail)

    def ok(self, name):
        self.n_checks += 1
        return True

    def raises(self, name, exc, fn):
        self.n_checks += 1
        try:
            r = fn()
        except exc:
            return True
        raise Violation(name, "expected %s, returned %s" % (exc, repr(r)[:200]))

    def run(self, fn, *exc):
        try:
            return fn(), None
        except exc as e:
            return None, e

    def under(self, cond):
        return bool(cond)

    # ---- terms
    def t(self, x): return x
    def w(self, x): return x
    def at(self, a, *idx):
        v = self.np.asarray(a)[tuple(builtins.int(i) for i in idx)]
        return v.item() if hasattr(v, "item") else v
    def sum(self, n, f, lo=0): return builtins.sum([f(k) for k in range(lo, n)])
    def max(self, n, f, steps=False): return builtins.max(f(k) for k in range(n))
    def min(self, n, f, steps=False): return builtins.min(f(k) for k in range(n))
    def argmax(self, n, f, steps=False): return builtins.max(range(n), key=lambda k: (f(k), -k))
    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def app(self, name, *args):
        return math.sin(builtins.sum((k + 1.37) * float(a) for k, a in enumerate(args)) + builtins.sum(map(ord, name)))

    def iterate(self, n, init, f):
        for k in range(n):
            init = f(init, k)
        return init

    def exp(self, x): return math.exp(x) if x < 700 else float("inf")
    def log(self, x): return math.log(x)
    def tanh(self, x): return math.tanh(x)
    def erf(self, x): return math.erf(x)
    def floor(self, x): return math.floor(x)
    def fdiv(self, a, b): return a // b
    def mod(self, a, b): return a % b
    pi = math.pi
    def sqrt(self, x): return math.sqrt(x)
    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def ivec(self, xs, dtype="int32"): return self.np.asarray(xs, dtype=dtype)
    def total(self, xs): return sum(xs)
    def concrete(self, x, lo=0, hi=8): return builtins.int(x)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or b

    def build(self, shape, f, dtype="float64"):
        np_ = self.np
        shape = tuple(builtins.int(s) for s in shape)
        dt = np_.dtype(dtype)
        out = np_.zeros(shape, dtype="float64" if dt.kind == "f" else dt)
        for idx in np_.ndindex(*shape):
            out[idx] = f(*idx)
        return out

    def snap(self, *objs):
        import copy
        return [(o, _clone(o)) for o in objs]

    def frame(self, name, snaps):
        for k, (o, old) in enumerate(snaps):
            self.eq("%s[%d]" % (name, k), o, old, tol=0)

    def value(self, arr):
        return self.np.array(arr, copy=True)

    def eq(self, name, a, b, tol=None):
        np_ = self.np
        self.n_checks += 1
        if isinstance(a, np_.ndarray) or isinstance(b, np_.ndarray):
            if not (isinstance(a, np_.ndarray) and isinstance(b, np_.ndarray)):
                if not (np_.isscalar(a) or np_.isscalar(b)):
                    raise Violation(name, "array compared with %s / %s" % (type(a), type(b)))
                if getattr(a, "shape", ()) not in ((), (1,)) or getattr(b, "shape", ()) not in ((), (1,)):
                    raise Violation(name, "array compared with scalar")
                a, b = np_.asarray(a).reshape(()), np_.asarray(b).reshape(())
            if a.shape != b.shape:
                raise Violation(name, "shape %r != %r" % (a.shape, b.shape))
            if a.dtype.kind in "fc" or b.dtype.kind in "fc":
                if tol == 0:
                    good = np_.array_equal(a, b, equal_nan=True)
                else:
                    rt = self.RTOL if tol is None else tol
                    at_ = self.ATOL if tol is None else tol
                    scale = 1.0
                    if b.size:
                        fb = np_.abs(b[np_.isfinite(b)])
                        scale = max(1.0, float(fb.max()) if fb.size else 1.0)
                    good = np_.allclose(a.astype("float64"), b.astype("float64"), rtol=rt, atol=at_ * scale, equal_nan=True)
            else:
                good = np_.array_equal(a, b)
            if not good:
                raise Violation(name, "%s != %s" % (_show(a), _show(b)))
            return True
        if a is b:
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                raise Violation(name, "keys %r != %r" % (sorted(map(str, a)), sorted(map(str, b))))
            return all(self.eq("%s[%r]" % (name, k), a[k], b[k], tol) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                raise Violation(name, "length %d != %d" % (len(a), len(b)))
            return all([self.eq("%s[%d]" % (name, k), x, y, tol) for k, (x, y) in enumerate(zip(a, b))])
        if type(a).__name__ in ("Ragged", "Padded", "ArgsKwargs") and type(a) is type(b):
            fa, fb = Sym._fields(self, a), Sym._fields(self, b)
            return all([self.eq("%s.%s" % (name, k), fa[k], fb[k], tol) for k in fa])
        if isinstance(a, (builtins.int, builtins.float, np_.number)) and isinstance(b, (builtins.int, builtins.float, np_.number)):
            x, y = float(a), float(b)
            if x != x and y != y:
                return True
            if tol == 0:
                good = x == y
            elif x == y:
                good = True
            else:
                rt = self.RTOL if tol is None else tol
                good = abs(x - y) <= (self.ATOL if tol is None else tol) + rt * abs(y)
            if not good:
                raise Violation(name, "%r != %r" % (a, b))
            return True
        if not (a == b):
            raise Violation(name, "%s != %s" % (repr(a)[:300], repr(b)[:300]))
        return True

    def eq_build(self, name, arr, shape, f, tol=None):
        if not isinstance(arr, self.np.ndarray):
            raise Violation(name, "not an array: %r" % (type(arr),))
        return self.eq(name, arr, self.build(shape, f, arr.dtype), tol)

    def vjp(self, name, run, xs, dY, dxs, Y=None, eps=None, tol=None):
        """directional finite differences in the arrays' own precision"""
        np_ = self.np
        for k, (x, dx) in enumerate(zip(xs, dxs)):
            self.n_checks += 1
            if not isinstance(dx, np_.ndarray) or dx.shape != x.shape:
                raise Violation("%s.d%d" % (name, k), "shape %r != %r" % (getattr(dx, "shape", None), x.shape))
            if x.size == 0:
                continue
            single = x.dtype == np_.float32
            e = eps or (1e-2 if single else 1e-5)
            tl = tol or (4e-2 if single else 1e-4)
            for rep in range(2):
                v = self.nprng.normal(0, 1, x.shape)
                v /= max(1e-6, float(np_.abs(v).max()))
                ests = []
                y0 = np_.asarray(run(*[q.copy() for q in xs]), dtype="float64").copy()
                dYd, dxd = np_.asarray(dY, "float64"), np_.asarray(dx, "float64")
                for h in (e, e / 2, e / 4):
                    hi = [a.copy() for a in xs]
                    lo = [a.copy() for a in xs]
                    hi[k] = (x + h * v).astype(x.dtype)
                    lo[k] = (x - h * v).astype(x.dtype)
                    yh = np_.asarray(run(*hi), dtype="float64").copy()
                    yl = np_.asarray(run(*lo), dtype="float64").copy()
                    dirv = (hi[k].astype("float64") - lo[k].astype("float64"))
                    side = float(np_.abs(dYd * (yh - 2 * y0 + yl)).sum()) / h
                    ests.append((float((dYd * (yh - yl)).sum()) / (2 * h), float((dxd * dirv).sum()) / (2 * h), h,
                                 np_.abs(yh).max() if yh.size else 0.0, side))
                bad = 0
                for d, an, h, m, side in ests:
                    noise = (float(np_.abs(dY).sum()) * float(m) * 2e-7 / h) if single else 1e-6
                    scale = max(1.0, abs(d), abs(an))
                    # `side` bounds the error of the central difference (curvature, kinks next to the point)
                    bad += not abs(d - an) <= 2 * tl * scale + 4 * noise + 2 * side
                if bad == 3:
                    raise Violation("%s.d%d" % (name, k), "directional derivative %.6g, gradient gives %.6g" % (ests[-1][0], ests[-1][1]))
        return True

    @property
    def ops(self):
        if self._ops is None:
            from thinc.api import NumpyOps, Ops
            self._ops = self.pick("ops", [NumpyOps, NumpyOps, NumpyOps, Ops])()
        return self._ops

    @property
    def native(self):
        from thinc.api import NumpyOps
        self._ops = NumpyOps()
        return self._ops

    def use_ops(self, ops=None):
        import thinc.backends as B
        B.set_current_ops(ops or self.ops)
        return ops or self.ops


def _show(a):
    s = repr(a.tolist())
    return s if len(s) < 400 else s[:400] + "..."


def _clone(o):
    import numpy
    if isinstance(o, numpy.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: _clone(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)([_clone(v) for v in o]) if type(o) in (list, tuple) else [_clone(v) for v in o]
    n = type(o).__name__
    if n in ("Ragged", "Padded", "ArgsKwargs"):
        f = Sym._fields(None, o)
        c = type(o).__new__(type(o))
        if n == "Ragged":
            r = type(o)(_clone(f["data"]), _clone(f["lengths"]))
            r.data_shape = f["data_shape"]
            return r
        if n == "Padded":
            return type(o)(*[_clone(f[k]) for k in ("data", "size_at_t", "lengths", "indices")])
        return type(o)(_clone(f["args"]), _clone(f["kwargs"]))
    return o
