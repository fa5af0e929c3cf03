"""Symbolic execution of the real functions: path exploration, symbolic scalars, obligations."""
import builtins, itertools, sys, time, traceback
from . import terms as T
from . import solve
from .terms import Term


class Unsupported(Exception):
    """the verifier cannot represent what the code does (=> the obligation is not discharged)"""


class OtherPart(BaseException):
    """path belongs to another process's share"""


class Infeasible(BaseException):
    """path condition became unsatisfiable"""


class CutPath(BaseException):
    pass


class Obligation:
    def __init__(self, name, ok, detail="", path=(), model=None, seconds=0.0, backend=""):
        self.name, self.ok, self.detail, self.path, self.model = name, ok, detail, path, model
        self.seconds, self.backend = seconds, backend


class Engine:
    def __init__(self):
        self.solver = solve.Solver()
        self.prefix = []
        self.trace = []
        self.obligations = []
        self.unit = ""
        self.max_paths = 400
        self.check_div = False
        self.notes = set()
        self.paths = 0
        self.depth = 0
        self.part, self.parts, self.nested = 0, 1, 0

    # -- decisions -------------------------------------------------------
    def choose(self, n, label="choice"):
        """nondeterministic choice in range(n): all alternatives are explored"""
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][0]
        else:
            v = 0
        self.trace.append((v, n, label))
        self.partition()
        return v

    DEPTH = 4

    def partition(self):
        """a unit may be split over processes by its first choices"""
        if self.parts > 1 and not self.nested and len(self.trace) == self.DEPTH:
            h = 0
            for v, n, _ in self.trace:
                h = h * n + v
            if h % self.parts != self.part:
                raise OtherPart()

    def fork(self, c: Term) -> bool:
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        # already decided?
        pcids = {x.id for x in self.solver.pc}
        if c.id in pcids:
            return True
        nc = T.not_(c)
        if nc.id in pcids:
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v, n, _ = self.prefix[k]
            self.trace.append((v, n, str(c)))
            b = v == 0
            if n > 1 or not self.nested:
                self.solver.assume(c if b else nc)
            self.partition()
            return b
        can_t = self.solver.check([c], 3000) != "unsat"
        can_f = self.solver.check([nc], 3000) != "unsat"
        if can_t and can_f:
            self.trace.append((0, 2, str(c)))
            self.solver.assume(c)
            self.partition()
            return True
        if not can_t and not can_f:
            raise Infeasible()
        # forced: record as single alternative so that replays stay aligned
        self.trace.append((0 if can_t else 1, 1, str(c)))
        if not self.nested:  # (entailed anyway; keeps merged loop transitions small)
            self.solver.assume(c if can_t else nc)
        self.partition()
        return can_t

    def assume(self, c):
        if isinstance(c, S):
            c = c.t
        if c is True or c is T.TRUE:
            return
        if c is False or c is T.FALSE:
            raise Infeasible()
        self.solver.assume(c)

    # -- obligations -----------------------------------------------------
    def record(self, name, ok, detail="", model=None, seconds=0.0, backend=""):
        self.obligations.append(
            Obligation(self.unit + "/" + name, bool(ok), detail, tuple(self.trace), model, seconds, backend)
        )
        return bool(ok)

    def prove(self, c, name, detail=""):
        if isinstance(c, S):
            c = c.t
        if isinstance(c, bool):
            c = T.TRUE if c else T.FALSE
        t0 = time.time()
        n0 = solve.STATS["z3_calls"]
        ok = self.solver.entails(c, 3000)
        if not ok:
            try:
                ok = all(solve.prove_atom(x, self.solver) for x in (c.args if c.op == "and" else (c,)))
            except RecursionError:
                ok = False
        model = None
        if not ok:
            r, m = self.solver.check([T.not_(c)] if c is not T.FALSE else [], model=True)
            model = str(m) if m is not None else r
            detail = detail or ("cannot establish %s" % T.show(c)[:600])
        return self.record(name, ok, detail, model, time.time() - t0,
                           "z3" if solve.STATS["z3_calls"] > n0 else "normal-form")

    def prove_eq(self, a, b, name, detail=""):
        a, b = term(a), term(b)
        t0 = time.time()
        n0 = solve.STATS["z3_calls"]
        try:
            ok = solve.prove_eq(a, b, self.solver)
        except RecursionError:
            ok = False
        if not ok:
            detail = detail or "cannot establish\n   %s\n == %s" % (T.show(a)[:1500], T.show(b)[:1500])
        return self.record(name, ok, detail, None, time.time() - t0,
                           "z3" if solve.STATS["z3_calls"] > n0 else "normal-form")

    # -- exploration -----------------------------------------------------
    def explore(self, fn, unit):
        """run fn on every feasible path; fn records obligations on each"""
        self.unit = unit
        todo = [[]]
        npaths = 0
        outer = (self.solver.pc, self.prefix, self.trace)
        base_pc = list(self.solver.pc)
        n_ob0 = len(self.obligations)
        while todo:
            prefix = todo.pop()
            npaths += 1
            if npaths > self.max_paths:
                self.record("path-limit", False, "more than %d paths" % self.max_paths)
                break
            self.solver.pc = list(base_pc)
            self.prefix, self.trace = prefix, []
            n_path = len(self.obligations)
            try:
                fn()
                if self.parts > 1 and len(self.trace) < self.DEPTH and self.part:
                    npaths -= 1
                    del self.obligations[n_path:]
            except (Infeasible, OtherPart):
                npaths -= 1
            except CutPath:
                pass
            except Unsupported as e:
                self.record("supported", False, "verifier limit: %s\n%s" % (e, traceback.format_exc()[-1500:]))
            except RecursionError as e:
                self.record("supported", False, "verifier limit: recursion\n%s" % traceback.format_exc()[-1500:])
            except Exception as e:
                self.record("no-unexpected-exception", False,
                            "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
            tr = self.trace
            for k in range(len(prefix), len(tr)):
                v, n, label = tr[k]
                for alt in range(v + 1, n):
                    todo.append(tr[:k] + [(alt, n, label)])
        self.solver.pc, self.prefix, self.trace = outer
        self.paths += npaths
        if self.parts > 1:
            pass
        elif npaths == 0:
            self.record("vacuity", False, "no feasible path: precondition unsatisfiable")
        elif len(self.obligations) == n_ob0:
            self.record("vacuity", False, "no obligation was generated")
        return npaths

    def subexplore(self, fn):
        """explore fn from the current path condition; returns [(extra path condition, result)]"""
        out = []
        todo = [[]]
        saved = (self.solver.pc, self.prefix, self.trace)
        base = list(self.solver.pc)
        n = 0
        self.nested += 1
        try:
            while todo:
                prefix = todo.pop()
                n += 1
                if n > 64:
                    raise Unsupported("too many paths in loop body")
                self.solver.pc = list(base)
                self.prefix, self.trace = prefix, []
                try:
                    r = fn()
                    out.append((T.and_(*self.solver.pc[len(base):]), r))
                except Infeasible:
                    pass
                tr = self.trace
                for k in range(len(prefix), len(tr)):
                    v, m, label = tr[k]
                    for alt in range(v + 1, m):
                        todo.append(tr[:k] + [(alt, m, label)])
        finally:
            self.nested -= 1
            self.solver.pc, self.prefix, self.trace = saved
        return out


E = Engine()


def reset():
    E.__init__()


# ------------------------------------------------------------------ scalars
def term(x) -> Term:
    if isinstance(x, Term):
        return x
    if type(x) is S:
        return x.t
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, (int, float)):
        return T.num(x, "R" if isinstance(x, float) else None)
    import numpy, fractions
    if isinstance(x, fractions.Fraction):
        return T.num(x)
    if isinstance(x, numpy.bool_):
        return T.TRUE if x else T.FALSE
    if isinstance(x, numpy.integer):
        return T.num(int(x))
    if isinstance(x, numpy.floating):
        return T.num(float(x), "R")
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return term(x.item())
    if isinstance(x, str):
        return T.mk("str", (x,), "O")
    if x is None:
        return T.mk("str", (None,), "O")
    h = getattr(type(x), "__vc_term__", None)
    if h is not None:
        return h(x)
    raise Unsupported("no term for %r" % (type(x),))


def is_sym(x):
    return type(x) is S


def numeric(x):
    return type(x) is S or (isinstance(x, (int, float)) and not isinstance(x, bool)) or isinstance(x, bool)


def _ar(x):
    """arithmetic term or NotImplemented marker"""
    if type(x) is S:
        return T.iv(x.t) if x.t.sort == "B" else x.t
    if isinstance(x, bool):
        return T.num(int(x))
    if isinstance(x, (int, float)):
        return T.num(x, "R" if isinstance(x, float) else None)
    import numpy
    if isinstance(x, (numpy.integer, numpy.floating)):
        return term(x)
    return None


class S:
    """symbolic scalar: the value handed to the executed code"""

    __slots__ = ("t", "py")

    def __init__(self, t, py=None):
        self.t = t
        self.py = py

    @property
    def __class__(self):
        s = self.t.sort
        if self.py is not None:
            return self.py
        return {"I": int, "N": int, "R": float, "B": bool, "O": str}[s]

    def __vc_term__(self):
        return self.t

    def __repr__(self):
        return "<%s>" % T.show(self.t)

    __str__ = __repr__

    def astype(self, dtype, **kw):
        return self

    def item(self):
        return self

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        if self.t.sort == "B":
            return E.fork(self.t)
        if self.t.sort == "O":
            raise Unsupported("truth of opaque value")
        return not E.fork(T.eq(self.t, T.ZERO))

    def __index__(self):
        if self.t.op == "num" and T.is_int(self.t):
            return int(self.t.args[0])
        raise Unsupported("symbolic integer used as a concrete index: %s" % T.show(self.t))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.t.op == "num":
            return float(self.t.args[0])
        raise Unsupported("symbolic real used as a concrete float")

    def _bin(self, o, f, swap=False):
        b = _ar(o)
        if b is None:
            return NotImplemented
        a = _ar(self)
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._bin(o, T.add)
    def __radd__(self, o): return self._bin(o, T.add, True)
    def __sub__(self, o): return self._bin(o, T.sub)
    def __rsub__(self, o): return self._bin(o, T.sub, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, T.mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, T.mul, True)
    def __truediv__(self, o): return self._bin(o, _truediv)
    def __rtruediv__(self, o): return self._bin(o, _truediv, True)
    def __floordiv__(self, o): return self._bin(o, _floordiv)
    def __rfloordiv__(self, o): return self._bin(o, _floordiv, True)
    def __mod__(self, o): return self._bin(o, _mod)
    def __rmod__(self, o): return self._bin(o, _mod, True)
    def __pow__(self, o): return self._bin(o, _pow)
    def __rpow__(self, o): return self._bin(o, _pow, True)
    def __neg__(self): return wrap(T.neg(_ar(self)))
    def __pos__(self): return self
    def __abs__(self): return wrap(T.absv(_ar(self)))
    def __invert__(self):
        if self.t.sort == "B":
            return wrap(T.not_(self.t))
        return wrap(T.sub(T.neg(self.t), T.ONE))
    def __and__(self, o): return wrap(T.and_(_b(self), _b(o)))
    def __rand__(self, o): return wrap(T.and_(_b(self), _b(o)))
    def __or__(self, o): return wrap(T.or_(_b(self), _b(o)))
    def __ror__(self, o): return wrap(T.or_(_b(self), _b(o)))

    def _cmp(self, o, f):
        b = _ar(o)
        if b is None:
            return NotImplemented
        return wrapb(f(_ar(self), b))

    def __lt__(self, o): return self._cmp(o, T.lt)
    def __le__(self, o): return self._cmp(o, T.le)
    def __gt__(self, o): return self._cmp(o, T.gt)
    def __ge__(self, o): return self._cmp(o, T.ge)

    def __eq__(self, o):
        if self.t.sort == "O":
            try:
                return wrapb(T.eq(self.t, term(o)))
            except Unsupported:
                return NotImplemented
        if self.t.sort == "B" and (isinstance(o, bool) or (type(o) is S and o.t.sort == "B")):
            return wrapb(T.eq(self.t, term(o)))
        b = _ar(o)
        if b is None:
            return False if o is None or isinstance(o, (str, list, tuple, dict)) else NotImplemented
        return wrapb(T.eq(_ar(self), b))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is not S else wrapb(T.not_(r.t))

    # numpy scalar-ish / int-ish API
    def item(self): return self
    def sum(self, *a, **k): return self
    def __ceil__(self): return wrap(T.neg(T.app("floor", T.neg(self.t))))
    def __floor__(self): return wrap(T.app("floor", self.t))
    def __round__(self, n=None): raise Unsupported("round")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def is_integer(self): return wrapb(T.eq(self.t, T.app("floor", self.t)))
    def __getattr__(self, name):
        if self.t.sort == "O":
            raise Unsupported("attribute %s of opaque value" % name)
        raise AttributeError(name)


def _b(x):
    if type(x) is S:
        return x.t if x.t.sort == "B" else T.not_(T.eq(x.t, T.ZERO))
    return T.TRUE if x else T.FALSE


def _truediv(a, b):
    if b is T.ZERO:
        raise ZeroDivisionError("division by zero")
    if E.check_div and b.op != "num":
        if E.fork(T.eq(b, T.ZERO)):
            raise ZeroDivisionError("division by zero")
    return T.div(a, b)


def _floordiv(a, b):
    if b is T.ZERO:
        raise ZeroDivisionError("integer division or modulo by zero")
    if T.is_int(a) and T.is_int(b):
        return T.app("fdiv", a, b, sort="I")
    return T.app("floor", T.div(a, b), sort="I")


def _mod(a, b):
    if b is T.ZERO:
        raise ZeroDivisionError("integer division or modulo by zero")
    if T.is_int(a) and T.is_int(b):
        return T.app("mod", a, b, sort="I")
    return T.sub(a, T.mul(b, T.app("floor", T.div(a, b), sort="I")))


def tpow(a, b):
    if b.op == "num":
        return T.power(a, b.args[0])
    if a.op == "num" and a.args[0] == 1:
        return T.ONE
    # symbolic exponent: canonical base^(c + rest)
    p = T.to_poly(b)
    c = p.pop((), 0)
    rest = T.from_poly(p)
    base = T.mk("app", ("pow", a, rest), "R")
    return T.mul(base, T.power(a, c)) if c else base


_pow = tpow


def wrap(t):
    if t.op == "num" and T.is_int(t):
        return int(t.args[0])
    if t.op in ("true", "false"):
        return t.op == "true"
    return S(t)


def wrapb(t):
    if t.op in ("true", "false"):
        return t.op == "true"
    return S(t)


def integer(name): return S(T.var(name, "I"))
def real(name): return S(T.var(name, "R"))
def boolean(name): return S(T.var(name, "B"))
def opaque(name): return S(T.var(name, "O"), None)
