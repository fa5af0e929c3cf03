"""Discharging obligations: normal form, case splitting, z3, cvc5."""
import sys, time, os
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from fractions import Fraction as F
from . import terms as T

STATS = {"z3": 0.0, "z3_calls": 0, "normal": 0, "cvc5": 0, "cvc5_s": 0.0}
_OBJ = z3.DeclareSort("Obj")
_SORT = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "O": _OBJ, "N": z3.IntSort()}
_FUN = {}
FACTS = {}  # array variable -> fn(cell term, index terms) -> boolean term known to hold
AXIOMS = []  # callables(term)-> list of z3 facts about an atom, for atoms met in a query


def _fun(name, argsorts, res):
    key = (name, tuple(str(s) for s in argsorts), str(res))
    f = _FUN.get(key)
    if f is None:
        f = _FUN[key] = z3.Function("%s/%d" % (name, len(_FUN)), *argsorts, res)
    return f


QUANT = {}  # id -> (array variable, index terms, variables, body, ranges): body holds for all values in range of the variables


def forall_cells(v, i, body, n, pat=None):
    """path-condition entry: body (which reads v[i]) holds for all 0 <= i < n; i may be several variables, and
    pat the index terms of the cell in which they occur"""
    k = len(QUANT)
    if type(i) is not tuple:
        i, n = (i,), (n,)
    QUANT[k] = (v, pat or i, i, body, n)
    return T.mk("forall", (k,), "B")


class Ctx:
    def __init__(self):
        self.facts = []
        self.seen = set()
        self.quant = []


def toz3(t, cx):
    """translate; side facts about interpreted atoms are collected in cx"""
    op = t.op
    if t._z3 is not None and t.id in cx.seen:
        return t._z3
    cx.seen.add(t.id)
    r = _toz3(t, cx)
    t._z3 = r
    return r


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def _toz3(t, cx):
    op = t.op
    if op == "forall":
        return z3.BoolVal(True)
    if op == "num":
        q = t.args[0]
        return z3.IntVal(int(q)) if q.denominator == 1 else z3.RealVal(str(q))
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "var":
        return z3.Const("%s:%s" % (t.args[0], t.sort), _SORT[t.sort])
    if op == "bv":
        return z3.Const("%%%d:%s" % (t.args[0], t.sort), _SORT[t.sort])
    if op == "str":
        return z3.Const("str:" + repr(t.args[0]), _OBJ)
    if op == "poly":
        isint = T.is_int(t)
        acc = None
        for c, m in t.args:
            fs = None
            for a, e in m:
                x = toz3(a, cx)
                if not isint:
                    x = _real(x)
                if e.denominator != 1:
                    x = _rootvar(a, e, x, cx)
                elif e < 0:
                    x = _inv(a, x, -e, cx)
                elif e > 1:
                    y = x
                    for _ in range(int(e) - 1):
                        y = y * x
                    x = y
                fs = x if fs is None else fs * x
            if fs is None:
                fs = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            elif c != 1:
                fs = (z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * fs
            acc = fs if acc is None else acc + fs
        return acc
    if op == "iv":
        return z3.If(toz3(t.args[0], cx), z3.IntVal(1), z3.IntVal(0))
    if op == "le0":
        return toz3(t.args[0], cx) <= 0
    if op == "lt0":
        return toz3(t.args[0], cx) < 0
    if op == "eq0":
        return toz3(t.args[0], cx) == 0
    if op == "eqo":
        return toz3(t.args[0], cx) == toz3(t.args[1], cx)
    if op == "not":
        return z3.Not(toz3(t.args[0], cx))
    if op == "and":
        return z3.And(*[toz3(x, cx) for x in t.args])
    if op == "iteo":
        return z3.If(*[toz3(x, cx) for x in t.args])
    if op == "app":
        name = t.args[0]
        args = [x for x in t.args[1:]]
        zs = [toz3(x, cx) if isinstance(x, T.Term) else z3.Const("str:" + repr(x), _OBJ) for x in args]
        if name == "fdiv":
            # python floor division; introduced as quotient with defining facts
            q = _fun("fdiv", [z3.IntSort(), z3.IntSort()], z3.IntSort())(*zs)
            a, b = zs
            cx.facts.append(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b)))
            cx.facts.append(z3.Implies(b < 0, z3.And(q * b >= a, a > q * b + b)))
            return q
        if name == "mod":
            q = _fun("fdiv", [z3.IntSort(), z3.IntSort()], z3.IntSort())(*zs)
            a, b = zs
            cx.facts.append(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b)))
            cx.facts.append(z3.Implies(b < 0, z3.And(q * b >= a, a > q * b + b)))
            return a - q * b
        if name == "max2":
            return z3.If(zs[0] >= zs[1], zs[0], zs[1])
        if name == "floor":
            return z3.ToInt(_real(zs[0]))
        res = _SORT[t.sort]
        # numbers may be passed as Int where Real expected: normalise by promoting ints of N sort
        f = _fun(name, [z.sort() for z in zs], res)
        r = f(*zs) if zs else z3.Const(name + ":" + t.sort, res)
        if name == "sel":
            if len(t.args) == 3:
                cx.__dict__.setdefault("cells", []).append((t.args[1], t.args[2]))
            fact = FACTS.get(t.args[1])
            if fact is not None:
                t._z3 = r
                cx.facts.append(toz3(fact(t, t.args[2:]), cx))
            if cx.quant:
                t._z3 = r
                for v, pat, i, body, n in cx.quant:
                    if v is not t.args[1] or len(pat) != len(t.args) - 2:
                        continue
                    here, same = {}, T.TRUE
                    for p, x in zip(pat, t.args[2:]):
                        if p in i:
                            here[p] = x
                        else:
                            same = T.and_(same, T.eq(p, x))
                    inr = T.and_(same, *[T.and_(T.ge(here[q], T.ZERO), T.lt(here[q], T.subst(d, here))) for q, d in zip(i, n)])
                    if inr is not T.FALSE:
                        cx.facts.append(z3.Implies(toz3(inr, cx), toz3(T.subst(body, here), cx)))
        if name in ("hash128", "hash32"):
            cx.facts.append(z3.And(r >= 0, r < 2**32))
        if name == "bitand":
            cx.facts += [z3.Implies(m >= 0, z3.And(r >= 0, r <= m)) for m in zs]
        if name == "exp":
            cx.facts.append(r > 0)
            a = _real(zs[0])
            cx.facts.append(z3.And(z3.Implies(a > 0, r > 1), z3.Implies(a < 0, r < 1), z3.Implies(a == 0, r == 1)))
            for t2, r2, a2 in cx.__dict__.setdefault("exps", []):
                cx.facts.append(z3.And(z3.Implies(a < a2, r < r2), z3.Implies(a > a2, r > r2)))
            cx.exps.append((t, r, a))
        if name == "pi":
            cx.facts.append(z3.And(r > z3.RealVal("3.14159"), r < z3.RealVal("3.1416")))
        if name == "erf":
            cx.facts.append(z3.And(r > -1, r < 1))
        if name in ("sin", "cos"):
            cx.facts.append(z3.And(r >= -1, r <= 1))
        for ax in AXIOMS:
            cx.facts += ax(t, r, zs, toz3, cx)
        return r
    if op in ("sum", "red", "lam", "rec"):
        r = _open_const(t, cx)
        if op == "sum" and len(t.args[0]) == 1:
            cx.__dict__.setdefault("sums", []).append((t, r))
        if op == "red" and t.args[0] in ("argmax", "argmin"):
            n = toz3(t.args[2], cx)
            cx.facts.append(z3.Implies(n > 0, z3.And(r >= 0, r < n)))
        if op == "red" and t.args[0] in ("max", "min") and T.is_int(t):
            cx.__dict__.setdefault("reds", []).append((t, r))
        return r
    raise NotImplementedError(op)


def _open_const(t, cx):
    vs = sorted((v for v in T.fv(t)), key=lambda v: v.id)
    ph = {}
    for i, v in enumerate(vs):
        ph[v] = T.var("@%d%s" % (i, v.sort), v.sort)
    canon = T.subst(t, ph) if vs else t
    zs = [toz3(v, cx) for v in vs]
    if not zs:
        return z3.Const("%s#%d" % (t.op, canon.id), _SORT[t.sort])
    return _fun("%s#%d" % (t.op, canon.id), [z.sort() for z in zs], _SORT[t.sort])(*zs)


def _rootvar(a, e, x, cx):
    """x ** (p/q), x >= 0 assumed where used: r>=0, r**q == x"""
    if e.denominator > 6 or abs(e.numerator) > 6:
        f = _fun("pow%s" % e, [z3.RealSort()], z3.RealSort())
        return f(x)
    r = _fun("root%d" % e.denominator, [z3.RealSort()], z3.RealSort())(x)
    y = r
    for _ in range(e.denominator - 1):
        y = y * r
    cx.facts.append(z3.Implies(x >= 0, z3.And(r >= 0, y == x)))
    z = r
    for _ in range(abs(e.numerator) - 1):
        z = z * r
    return z if e > 0 else 1 / z


def _inv(a, x, n, cx):
    y = x
    for _ in range(int(n) - 1):
        y = y * x
    return 1 / y


_NONNEG = {}


def body_sign(binder, body):
    """what holds of body for every value of its variables (from array facts alone): '0' zero, '+' at least one, '>=' not negative"""
    vs = sorted(T.fv(body), key=lambda v: v.id)
    ph = {v: T.var("@n%d%s" % (i, v.sort), v.sort) for i, v in enumerate(vs) if v.sort in ("I", "R", "N")}
    c = T.subst(body, ph)
    key = (c, _facts_of(c))
    r = _NONNEG.get(key)
    if r is None:
        _NONNEG[key] = ""
        sv = Solver(1500)
        r = ""
        if sv.entails(T.le(T.ZERO, c)):
            r = ">="
            if sv.entails(T.le(c, T.ZERO)):
                r = "0"
            elif T.is_int(c) and sv.entails(T.le(T.ONE, c)):
                r = "+"
        _NONNEG[key] = r
    return r


def _facts_of(t):
    """the array facts a query about t can use (part of the cache key)"""
    out = []

    def walk(x, depth):
        if x.op == "app" and x.args[0] == "sel":
            f = FACTS.get(x.args[1])
            if f is not None:
                y = f(x, x.args[2:])
                out.append((x.id, y.id))
                if depth < 2 and y is not x:
                    for z in T.children(y):
                        if z is not x:
                            walk(z, depth + 1)
        for z in T.children(x):
            walk(z, depth)

    walk(t, 0)
    return tuple(out)


def body_nonneg(binder, body):
    return body_sign(binder, body) != ""


_VANISH = {}


def _threshold(b, body):
    """(up, c) when the indicator is [b + c <= 0] (up) or [c - b <= 0]"""
    if body.op == "poly" and len(body.args) == 2:
        # 1 - [c]
        (c1, m1), (c2, m2) = body.args
        ivs = [m for c, m in body.args if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "iv"]
        if len(ivs) == 1 and any(c == 1 and not m for c, m in body.args) and ivs[0][0][0].args[0].op == "le0":
            body = T.mk("iv", (T.not_(ivs[0][0][0].args[0]),), body.sort)
    if body.op != "iv":
        return None
    if body.args[0].op == "not" and body.args[0].args[0].op == "le0":
        p = T.sub(T.ONE, body.args[0].args[0].args[0])  # not p <= 0  <=>  1 - p <= 0
    elif body.args[0].op == "le0":
        p = body.args[0].args[0]
    else:
        return None
    if p.sort != "I":
        return None
    for up, rest in ((True, T.sub(p, b)), (False, T.add(p, b))):
        if b not in T.fv(rest):
            return up, rest
    return None


def _indicator(t):
    return t.op == "iv" or (t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1 and all(a.op == "iv" for a, e in t.args[0][1]))


def vanish(b, ind, g):
    """bit 0: ind = 1 implies g = 0; bit 1: ind = 0 implies g = 0, whatever the variables (array facts only)"""
    key = (ind, g, _facts_of(g))
    r = _VANISH.get(key)
    if r is None:
        _VANISH[key] = 0
        r = 0
        for bit, val in ((1, 1), (2, 0)):
            sv = Solver(1500)
            sv.pc.append(T.eq(ind, T.num(val)))
            if sv.entails(T.eq0(g)):
                r |= bit
        _VANISH[key] = r
    return r


def red_lemmas(cx):
    """a maximum (minimum) is attained and bounds every element met in the query"""
    done = set()
    for rnd in range(2):
        for t, r in list(cx.__dict__.get("reds", []))[:6]:
            kind, (b,), n, body = t.args
            N = toz3(n, cx)
            if t.id not in done:
                done.add(t.id)
                w = T.var("at%d" % t.id, "I")
                W = toz3(w, cx)
                cx.facts.append(z3.Implies(N > 0, z3.And(W >= 0, W < N, toz3(T.subst(body, {b: w}), cx) == r)))
            for arr, x in list(cx.__dict__.get("cells", []))[:12]:
                if (t.id, arr.id, x.id) not in done and T.mentions(body, arr, b):
                    done.add((t.id, arr.id, x.id))
                    v = toz3(T.subst(body, {b: x}), cx)
                    inr = z3.And(toz3(x, cx) >= 0, toz3(x, cx) < N)
                    cx.facts.append(z3.Implies(inr, v <= r if kind == "max" else v >= r))


def sum_lemmas(cx):
    """facts about prefix sums met in a query (one binder): empty range, non-negativity, monotonicity and
    one-step unfolding; instances of theorems about finite sums"""
    done = set()
    for v, pat, i, qb, n in list(getattr(cx, "quant", ())):
        if len(pat) != 1:
            continue
        (i,), (n,) = i, n
        # a fact about every element, used at the last element below the limit of a prefix sum over that array
        for t, r in list(cx.__dict__.get("sums", []))[:6]:
            (b, lo, hi), = t.args[0]
            if T.mentions(t.args[1], v, b):
                x = T.sub(hi, T.ONE)
                inr = z3.And(toz3(x, cx) >= 0, toz3(x, cx) < toz3(n, cx))
                cx.facts.append(z3.Implies(inr, toz3(T.subst(qb, {i: x}), cx)))
    for rnd in range(2):
        sums = cx.__dict__.get("sums", [])[:14]  # those of the query and of the latest facts come first
        if not sums:
            return
        info = []
        for t, r in list(sums):
            (b, lo, hi), = t.args[0]
            info.append((t, r, b, lo, hi, t.args[1]))
        for t, r, b, lo, hi, body in info:
            if (t.id,) in done:
                continue
            done.add((t.id,))
            cx.facts.append(z3.Implies(toz3(hi, cx) <= toz3(lo, cx), r == 0))
            sg = body_sign(b, body)
            if sg == "0":
                cx.facts.append(r == 0)
            elif sg:
                cx.facts.append(r >= 0)
                if sg == "+":
                    cx.facts.append(z3.Implies(toz3(hi, cx) >= toz3(lo, cx), r >= toz3(hi, cx) - toz3(lo, cx)))
        # a vanishing sum of non-negative terms: every term is zero
        for t, r, b, lo, hi, body in info:
            if len(body.args) and body.op in ("iv", "poly", "app") and body_sign(b, body):
                for arr, x in list(cx.__dict__.get("cells", []))[:12]:
                    if (t.id, arr.id, x.id) not in done and T.mentions(body, arr, b):
                        done.add((t.id, arr.id, x.id))
                        inr = z3.And(toz3(lo, cx) <= toz3(x, cx), toz3(x, cx) < toz3(hi, cx))
                        cx.facts.append(z3.Implies(z3.And(r == 0, inr), toz3(T.subst(body, {b: x}), cx) == 0))
        for t, r, b, lo, hi, body in info:
            # counting: a sum of indicators is at most the number of terms; if equal, every one holds
            if not (_indicator(body) or _threshold(b, body)):
                continue
            L0, H0 = toz3(lo, cx), toz3(hi, cx)
            full = z3.And(r == H0 - L0, L0 <= H0)
            if (t.id, "cnt") not in done:
                done.add((t.id, "cnt"))
                thr = _threshold(b, body)
                if thr is not None:
                    up, c = thr
                    C = toz3(c, cx)
                    # up: [b <= -c], else [b >= c]
                    n = (z3.If(H0 <= 1 - C, H0, 1 - C) - L0) if up else (H0 - z3.If(C >= L0, C, L0))
                    cx.facts.append(r == z3.If(n > 0, n, 0))
                cx.facts.append(z3.And(r >= 0, z3.Implies(L0 <= H0, r <= H0 - L0)))
            for arr, x in list(cx.__dict__.get("cells", []))[:12]:
                if (t.id, arr.id, x.id, "cnt") not in done and T.mentions(body, arr, b):
                    done.add((t.id, arr.id, x.id, "cnt"))
                    inr = z3.And(L0 <= toz3(x, cx), toz3(x, cx) < H0)
                    cx.facts.append(z3.Implies(z3.And(full, inr), toz3(T.subst(body, {b: x}), cx) == 1))
            for t2, r2, b2, lo2, hi2, body2 in info:
                if t2 is t or lo2 is not lo or hi2 is not hi or (t.id, t2.id, "cnt") in done:
                    continue
                done.add((t.id, t2.id, "cnt"))
                z = vanish(b, body, T.subst(body2, {b2: b}))
                if z & 1:
                    cx.facts.append(z3.Implies(full, r2 == 0))
                if z & 2:
                    cx.facts.append(z3.Implies(r == 0, r2 == 0))
        for x in info:
            for y in info:
                if x[0] is y[0] or (x[0].id, y[0].id) in done:
                    continue
                done.add((x[0].id, y[0].id))
                if x[3] is not y[3] or T.subst(y[5], {y[2]: x[2]}) is not x[5]:
                    continue
                h1, h2 = toz3(x[4], cx), toz3(y[4], cx)
                lo = toz3(x[3], cx)
                step = toz3(T.subst(x[5], {x[2]: x[4]}), cx)
                cx.facts.append(z3.Implies(z3.And(lo <= h1, h2 == h1 + 1), y[1] == x[1] + step))
                cx.facts.append(z3.Implies(h1 == h2, x[1] == y[1]))
                if body_nonneg(x[2], x[5]):
                    cx.facts.append(z3.Implies(h1 <= h2, x[1] <= y[1]))
                    gap = (h2 - h1 - 1) if body_sign(x[2], x[5]) == "+" else 0
                    cx.facts.append(z3.Implies(z3.And(lo <= h1, h1 < h2), x[1] + step + gap <= y[1]))


class Solver:
    """path condition + entailment queries"""

    def __init__(self, timeout_ms=8000):
        self.pc = []
        self.timeout = timeout_ms
        self.cache = {}

    def assume(self, c):
        self.pc.append(c)

    def _relevant(self, extra):
        return list(self.pc) + extra

    def check(self, extra, timeout=None, model=False):
        """satisfiability of pc + extra: 'sat','unsat','unknown'"""
        key = (tuple(c.id for c in self.pc), tuple(c.id for c in extra))
        if not model and key in self.cache:
            return self.cache[key]
        cs = T.and_(*(list(self.pc) + list(extra)))
        if cs is T.FALSE:
            self.cache[key] = "unsat"
            return "unsat"
        if cs is T.TRUE and not model:
            self.cache[key] = "sat"
            return "sat"
        cx = Ctx()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        cx.quant = [QUANT[c.args[0]] for c in self.pc if c.op == "forall"]
        for c in list(extra) + self.pc[::-1]:
            if c.op != "forall":
                s.add(toz3(c, cx))
        red_lemmas(cx)
        sum_lemmas(cx)
        for f in cx.facts:
            s.add(f)
        t0 = time.time()
        r = str(s.check())
        STATS["z3"] += time.time() - t0
        STATS["z3_calls"] += 1
        if r == "unknown" and not model:
            r2 = _cvc5(s)
            if r2:
                r = r2
        if model:
            return r, (s.model() if r == "sat" else None)
        self.cache[key] = r
        return r

    def impossible(self, timeout=2000):
        """the integer part of the path condition is unsatisfiable"""
        key = ("imp",) + tuple(c.id for c in self.pc)
        if key not in self.cache:
            saved = self.pc
            self.pc = [c for c in saved if integral(c)]
            try:
                self.cache[key] = self.check([], timeout) == "unsat"
            finally:
                self.pc = saved
        return self.cache[key]

    def entails(self, c, timeout=None):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return self.check([], timeout) == "unsat"
        return self.check([T.not_(c)], timeout) == "unsat"


_INTEGRAL = {}


def integral(t):
    """no real-valued variable or function occurs in t"""
    r = _INTEGRAL.get(t.id)
    if r is None:
        if t.op in ("var", "app") and t.sort == "R":
            r = False
        else:
            r = all(integral(x) for x in T.children(t))
        _INTEGRAL[t.id] = r
    return r


def _cvc5(s, secs=6):
    try:
        import subprocess
        t0 = time.time()
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (secs * 1000), "-"], input=txt, capture_output=True, text=True, timeout=secs + 4)
        STATS["cvc5"] += 1
        STATS["cvc5_s"] += time.time() - t0
        out = p.stdout.strip().splitlines()
        if out and out[-1] in ("sat", "unsat"):
            return out[-1]
    except Exception:
        pass
    return None


# ------------------------------------------------------------- equality of terms
def clear_denominators(t):
    """multiply out negative integer powers; returns term zero iff t zero (denominators nonzero)"""
    for _ in range(20):
        p = T.to_poly(t)
        den = {}
        for m, c in p.items():
            for a, e in m:
                if e < 0:
                    k = F(-(e.numerator // e.denominator)) if e.denominator != 1 else -e
                    den[a] = max(den.get(a, F(0)), -e)
        if not den:
            # also nested denominators within poly atoms with fractional exps are left alone
            return t
        # one denominator at a time to keep sizes small
        f = tuple(sorted(den.items(), key=lambda x: x[0].id))
        q = {}
        acc = []
        for m, c in p.items():
            d = {a: e for a, e in m}
            for a, e in f:
                d[a] = d.get(a, F(0)) + e
            acc.append(T.mul(T.num(c), *[T._atom_pow(a, e) for a, e in d.items() if e != 0]))
        t = T.add(*acc)
    return t


def ivs_in(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "iv":
        acc.append(t)
    for c in T.children(t):
        ivs_in(c, acc, seen)
    return acc


def replace_iv(t, ivt, val):
    memo = {}

    def go(x):
        if x is ivt:
            return val if isinstance(val, T.Term) else T.num(val)
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == "poly":
            acc = []
            for c, m in x.args:
                acc.append(T.mul(T.num(c), *[T.power(go(a), e) for a, e in m]))
            r = T.add(*acc)
        elif op == "sum":
            if ivt not in ivs_in(x):
                r = x
            else:
                binders, body = x.args
                s, bs = {}, []
                for b, lo, hi in binders:
                    s[b] = T.fresh("b", b.sort)
                for b, lo, hi in binders:
                    bs.append((s[b], go(T.subst(lo, s)), go(T.subst(hi, s))))
                r = T.sums(bs, go(T.subst(body, s)))
        elif op == "red":
            kind, (b,), n, body = x.args
            nb = T.fresh("b", b.sort)
            r = T.red(kind, nb, go(n), go(T.subst(body, {b: nb})))
        elif op in ("lam", "rec"):
            r = x
        elif op in ("app", "iv", "le0", "lt0", "eq0", "eqo", "not", "and", "iteo"):
            r = T.rebuild(op, tuple(go(a) if isinstance(a, T.Term) else a for a in x.args), x.sort)
        else:
            r = x
        memo[x] = r
        return r

    return go(t)


def resolve_ivs(t, solver, depth=0):
    """replace indicator atoms decided by the path condition; descends into sums with binder ranges"""
    for _ in range(6):
        changed = False
        for a in ivs_in(t):
            fvs = T.fv(a)
            if any(v.op == "bv" for v in fvs):
                continue
            c = a.args[0]
            if solver.entails(c, 2000):
                t = replace_iv(t, a, 1)
                changed = True
            elif solver.entails(T.not_(c), 2000):
                t = replace_iv(t, a, 0)
                changed = True
            elif depth and c.op == "le0" and T.is_int(c.args[0]) and solver.entails(T.ge(c.args[0], T.ZERO), 2000):
                # p >= 0 inside the range of the sum: [p <= 0] is [p == 0], which fixes the bound variable
                t = replace_iv(t, a, T.iv(T.eq0(c.args[0])))
                changed = True
            if changed:
                break
        if not changed:
            break
    if depth < 3:
        t = _resolve_in_sums(t, solver, depth)
    return t


def _resolve_in_sums(t, solver, depth):
    def go(x):
        if x.op == "poly":
            acc = []
            ch = False
            for c, m in x.args:
                fs = []
                for a, e in m:
                    g = go(a)
                    ch = ch or g is not a
                    fs.append(T.power(g, e))
                acc.append(T.mul(T.num(c), *fs))
            return T.add(*acc) if ch else x
        if x.op == "sum":
            if not ivs_in(x):
                return x
            binders, body = x.args
            s, bs = {}, []
            n0 = len(solver.pc)
            for b, lo, hi in binders:
                s[b] = T.fresh("b", b.sort)
            for b, lo, hi in binders:
                lo, hi = T.subst(lo, s), T.subst(hi, s)
                bs.append((s[b], lo, hi))
                solver.pc.append(T.le(lo, s[b]))
                solver.pc.append(T.lt(s[b], hi))
            ob = T.subst(body, s)
            nb = resolve_ivs(ob, solver, depth + 1)
            del solver.pc[n0:]
            if nb is ob:
                return x
            return T.sums(bs, nb)
        if x.op == "app":
            ch = False
            args = []
            for a in x.args:
                g = go(a) if isinstance(a, T.Term) and a.op in ("poly", "sum", "app") else a
                ch = ch or g is not a
                args.append(g)
            return T.rebuild("app", tuple(args), x.sort) if ch else x
        return x

    return go(t)


def _prefix_limits(t):
    """upper limits of the one-binder sums occurring in indicator conditions of t"""
    out = []
    seen = set()

    def walk(x, inside):
        if (x.id, inside) in seen:
            return
        seen.add((x.id, inside))
        if x.op == "sum" and inside and len(x.args[0]) == 1:
            out.append((x.args[0][0][2], x))
        for c in T.children(x):
            walk(c, inside or x.op == "iv")

    walk(t, False)
    return out


def split_sums(t, solver):
    """split a sum over segments at the segment an index is known to lie in, so that its guards are decided"""
    memo = {}
    changed = [False]

    def one(x):
        binders, body = x.args
        lims = _prefix_limits(body)
        if not lims:
            return None
        bvs = [b for b, _, _ in binders]
        for k, (b, lo, hi) in enumerate(binders):
            if not any(b in T.fv(h) for h, _ in lims):
                continue
            for h, s0 in lims:
                if any(v.op == "bv" for v in T.fv(h)) or h is hi:
                    continue
                if any(v in T.fv(lo) or v in T.fv(hi) for v in bvs):
                    continue
                if not solver.entails(T.and_(T.le(lo, h), T.lt(h, hi)), 3000):
                    continue
                rest = lambda lo2, hi2: T.sums([(bb, lo2 if j == k else l, hi2 if j == k else u) for j, (bb, l, u) in enumerate(fb)], fbody)
                m = {bb: T.fresh("b", bb.sort) for bb in bvs}
                fb = [(m[bb], T.subst(l, m), T.subst(u, m)) for bb, l, u in binders]
                fbody = T.subst(body, m)
                p1 = rest(lo, h)
                p3 = rest(T.add(h, T.ONE), hi)
                mm = {m[b]: h}
                mid = T.subst(fbody, mm)
                others = [(bb, T.subst(l, mm), T.subst(u, mm)) for j, (bb, l, u) in enumerate(fb) if j != k]
                p2 = T.sums(others, mid) if others else mid
                ps = [resolve_ivs(p, solver) for p in (p1, p2, p3)]
                if any(s0 is y for p in (ps[0], ps[2]) for _, y in _prefix_limits(p)):
                    continue
                return T.add(*ps)
        return None

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = x
        if x.op == "poly":
            acc, ch = [], False
            for c, m in x.args:
                fs = []
                for a, e in m:
                    g = go(a)
                    ch = ch or g is not a
                    fs.append(T.power(g, e))
                acc.append(T.mul(T.num(c), *fs))
            if ch:
                r = T.add(*acc)
        elif x.op == "sum":
            y = one(x)
            if y is not None:
                changed[0] = True
                r = y
        elif x.op == "app":
            args = [go(a) if isinstance(a, T.Term) and a.op in ("poly", "sum", "app") else a for a in x.args]
            if any(a is not b for a, b in zip(args, x.args)):
                r = T.rebuild("app", tuple(args), x.sort)
        memo[x] = r
        return r

    u = go(t)
    return u if changed[0] else None


def split_joint(t, solver):
    """as split_sums, for all sums of a polynomial over the same range together: their guards may only vanish jointly"""
    if t.op != "poly":
        return None
    groups = {}
    for c, m in t.args:
        ss = [a for a, e in m if e == 1 and a.op == "sum"]
        if len(ss) != 1 or not ivs_in(ss[0]):
            continue
        bvs = [b for b, _, _ in ss[0].args[0]]
        for k, (b, lo, hi) in enumerate(ss[0].args[0]):
            if b.sort == "I" and not any(v in T.fv(lo) or v in T.fv(hi) for v in bvs):
                groups.setdefault((lo, hi), []).append((c, m, ss[0], k))
    for (lo, hi), g in groups.items():
        if len({(c, m) for c, m, _, _ in g}) < 2:
            continue
        b = T.fresh("b", "I")
        parts, used = [], set()
        for c, m, a, k in g:
            if (c, m) in used:
                continue
            used.add((c, m))
            binders, body = a.args
            mm = {bb: T.fresh("b", bb.sort) for bb, _, _ in binders}
            mm[binders[k][0]] = b
            others = [(mm[bb], T.subst(l, mm), T.subst(u, mm)) for j, (bb, l, u) in enumerate(binders) if j != k]
            body = T.subst(body, mm)
            parts.append(T.mul(T.num(c), *[T.power(z, e) for z, e in m if z is not a], T.sums(others, body) if others else body))
        F = T.add(*parts)
        lims = _prefix_limits(F)
        hs = []
        for h, s0 in lims:
            if not any(v.op == "bv" or v is b for v in T.fv(h)) and h is not hi and h not in hs:
                hs.append(h)
        if not any(b in T.fv(h) for h, _ in lims):
            continue
        rest = T.add(*[T.mul(T.num(c), *[T.power(z, e) for z, e in m]) for c, m in t.args if (c, m) not in used])
        for h in hs:
            if not solver.entails(T.and_(T.le(lo, h), T.lt(h, hi)), 3000):
                continue
            n0 = len(solver.pc)
            out = [rest, T.subst(F, {b: h})]
            for l2, h2 in ((lo, h), (T.add(h, T.ONE), hi)):
                x = T.fresh("b", "I")
                solver.pc += [T.le(l2, x), T.lt(x, h2)]
                G = resolve_ivs(T.subst(F, {b: x}), solver, 1)
                del solver.pc[n0:]
                if any(h is y for y, _ in _prefix_limits(G)):
                    out = None
                    break
                if G is not T.ZERO:
                    out.append(T.tsum(x, l2, h2, G))
            if out is not None:
                return T.add(*out)
    return None


def prove_zero(t, solver, budget=[0], depth=0, max_depth=14):
    """True if t == 0 follows from the path condition"""
    if t is T.ZERO:
        STATS["normal"] += 1
        return True
    if t.op == "num":
        return solver.check([]) == "unsat"
    t = resolve_ivs(t, solver)
    if t is T.ZERO:
        STATS["normal"] += 1
        return True
    for _ in range(3):
        sp = split_joint(t, solver)
        if sp is None:
            sp = split_sums(t, solver)
        if sp is None:
            break
        t = resolve_ivs(sp, solver)
        if t is T.ZERO:
            STATS["normal"] += 1
            return True
    t = join_sums(t, solver)
    u = clear_denominators(t)
    if u is T.ZERO:
        STATS["normal"] += 1
        return True
    cand = [a for a in ivs_in(u) if not any(v.op == "bv" for v in T.fv(a))]
    if cand and depth < max_depth:
        a = cand[0]
        c = a.args[0]
        for val, cc in ((1, c), (0, T.not_(c))):
            n0 = len(solver.pc)
            solver.pc.append(cc)
            try:
                if solver.check([], 3000) == "unsat":
                    continue
                v = replace_iv(u, a, val)
                if val == 1 and c.op == "eq0":
                    v = _use_equality(v, c)
                if not prove_zero(v, solver, budget, depth + 1):
                    return False
            finally:
                del solver.pc[n0:]
        return True
    if merged_zero(u, solver, depth):
        return True
    v = align_sums(u, solver, depth)
    if v is not None:
        return prove_zero(v, solver, budget, depth + 1)
    if depth == 0:
        for v in peel_sums(u, solver):
            if v is T.ZERO or prove_zero(v, solver, budget, depth + 1):
                STATS["normal"] += 1
                return True
    # sums with undecided indicators over bound variables: leave to z3
    return solver.entails(T.eq0(u) if u.op != "num" else (T.TRUE if u is T.ZERO else T.FALSE))


def merged_zero(t, solver, depth):
    """Sum{x in A} f(x) + Sum{x in A} g(x) = 0 when f(x) + g(x) = 0 for every x in A (A may be a product of ranges)"""
    if t.op != "poly" or depth > 8:
        return False
    groups = []
    for c, m in t.args:
        ss = [a for a, e in m if e == 1 and a.op == "sum"]
        if len(ss) != 1:
            return False
        bs, body = ss[0].args
        if len(bs) < 2 or any(b[0].sort != "I" or b[1] is not T.ZERO for b in bs):
            return False
        rest = [T.power(z, e) for z, e in m if z is not ss[0]]
        for xs, ranges, acc in groups:
            fit = next((s for s in _arrangements(bs, xs, ranges)), None)
            if fit is not None:
                acc.append(T.mul(T.num(c), *rest, T.subst(body, fit)))
                break
        else:
            s = {b[0]: T.fresh("x", "I") for b in bs}
            groups.append(([s[b[0]] for b in bs], [T.subst(b[2], s) for b in bs], [T.mul(T.num(c), *rest, T.subst(body, s))]))
    for xs, ranges, acc in groups:
        if len(acc) < 2:
            return False
    for xs, ranges, acc in groups:
        n0 = len(solver.pc)
        for x, h in zip(xs, ranges):
            solver.pc += [T.ge(x, T.ZERO), T.lt(x, h)]
        try:
            if solver.check([], 2000) != "unsat" and not prove_zero(T.add(*acc), solver, depth=depth + 4):
                return False
        finally:
            del solver.pc[n0:]
    return True


def _arrangements(bs, xs, ranges):
    if len(bs) != len(xs) or len(bs) > 4:
        return
    from itertools import permutations
    for perm in permutations(range(len(xs))):
        s = {b[0]: xs[j] for b, j in zip(bs, perm)}
        if all(T.subst(b[2], s) is ranges[j] for b, j in zip(bs, perm)):
            yield s


def _lin1(p, x):
    """p = a*x + r with a = 1 or -1"""
    if not isinstance(p, T.Term) or x not in T.fv(p):
        return None
    r = T.subst(p, {x: T.ZERO})
    for a in (1, -1):
        if T.sub(p, r) is T.mul(T.num(a), x):
            return a, r
    return None


def align_sums(t, solver, depth=0):
    """Sum{x in A} f(x) + Sum{y in B} g(y) = 0 when, with y = +-x + c, [x in A] f(x) + [y in B] g(y) = 0 for every x"""
    if t.op != "poly" or depth > 10:
        return None
    groups = {}
    for c, m in t.args:
        ss = [a for a, e in m if e == 1 and a.op == "sum"]
        if len(ss) == 1 and len(ss[0].args[0]) == 1 and ss[0].args[0][0][0].sort == "I":
            b, lo, hi = ss[0].args[0][0]
            groups.setdefault((lo, hi), []).append((c, m, ss[0]))
    if not 2 <= len(groups) <= 4:
        return None
    keys = list(groups)

    def body(key, x):
        acc = []
        for c, m, a in groups[key]:
            acc.append(T.mul(T.num(c), *[T.power(z, e) for z, e in m if z is not a], T.subst(a.args[1], {a.args[0][0][0]: x})))
        return T.add(*acc)

    for i1, k1 in enumerate(keys):
        x = T.fresh("x", "I")
        f = body(k1, x)
        fa = [a for a in _atoms(f) if a.op == "app" and x in T.fv(a)]
        for k2 in keys[i1 + 1:]:
            y = T.fresh("y", "I")
            g = body(k2, y)
            tried = set()
            for a in fa:
                for b in _atoms(g):
                    if b.op != "app" or len(a.args) != len(b.args) or a.args[0] is not b.args[0]:
                        continue
                    for p, q in zip(a.args, b.args):
                        lp, lq = _lin1(p, x), _lin1(q, y)
                        if lp is None or lq is None:
                            continue
                        # a1 x + r1 = a2 y + r2
                        yx = T.mul(T.num(lq[0]), T.sub(T.add(T.mul(T.num(lp[0]), x), lp[1]), lq[1]))
                        if yx in tried or len(tried) > 2:
                            continue
                        tried.add(yx)
                        inA = T.and_(T.le(k1[0], x), T.lt(x, k1[1]))
                        inB = T.and_(T.le(k2[0], yx), T.lt(yx, k2[1]))
                        g2 = T.subst(g, {y: yx})
                        n0 = len(solver.pc)
                        ok = True
                        for conds, z in (((inA, inB), T.add(f, g2)), ((inA, T.not_(inB)), f), ((T.not_(inA), inB), g2)):
                            solver.pc += conds
                            try:
                                ok = solver.check([], 3000) == "unsat" or prove_zero(z, solver, depth=depth + 6)
                            finally:
                                del solver.pc[n0:]
                            if not ok:
                                break
                        if ok:
                            used = {(c, m) for k in (k1, k2) for c, m, _ in groups[k]}
                            return T.add(*[T.mul(T.num(c), *[T.power(z, e) for z, e in m]) for c, m in t.args if (c, m) not in used])
    return None


def _join_poly(p, solver):
    """c*Sum{q<m} f(q) + c*Sum{q<n} f(m+q)  ->  c*Sum{q<m+n} f(q)   (m, n >= 0)"""
    for _ in range(8):
        done = False
        parts = []
        for c, m in p.args if p.op == "poly" else ():
            for a, e in m:
                if e == 1 and a.op == "sum" and len(a.args[0]) == 1 and a.args[0][0][1] is T.ZERO:
                    rest = tuple(x for x in m if x[0] is not a)
                    parts.append((c, rest, a))
        for c1, r1, a in parts:
            for c2, r2, b in parts:
                if a is b or c1 != c2 or r1 != r2:
                    continue
                (x, _, m), f = a.args[0][0], a.args[1]
                (y, _, n), g = b.args[0][0], b.args[1]
                k = T.fresh("b", x.sort)
                T.RANGE[k] = n
                if T.subst(f, {x: T.add(k, m)}) is not T.subst(g, {y: k}):
                    continue
                if not solver.entails(T.and_(T.le(T.ZERO, m), T.le(T.ZERO, n)), 2000):
                    continue
                T.RANGE[k] = T.add(m, n)
                j = T.tsum(k, T.ZERO, T.add(m, n), T.subst(f, {x: k}))
                co = T.mul(T.num(c1), *[T.power(z, e) for z, e in r1])
                p = T.add(p, T.mul(co, T.sub(j, T.add(a, b))))
                done = True
                break
            if done:
                break
        if not done:
            break
    return p


def join_sums(t, solver):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = x
        if x.op == "poly":
            acc, ch = [], False
            for c, m in x.args:
                fs = []
                for a, e in m:
                    g = go(a) if a.op == "app" else a
                    ch = ch or g is not a
                    fs.append(T.power(g, e))
                acc.append(T.mul(T.num(c), *fs))
            if ch:
                r = T.add(*acc)
            r = _join_poly(r, solver)
        elif x.op == "app":
            args = [go(a) if isinstance(a, T.Term) and a.op in ("poly", "app") else a for a in x.args]
            if any(a is not b for a, b in zip(args, x.args)):
                r = T.rebuild("app", tuple(args), x.sort)
        memo[x] = r
        return r

    return go(t) if any(a.op == "sum" for a in _atoms(t)) else t


def _atoms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(T.children(x))


def peel_sums(t, solver):
    """variants of t in which sums over [0, h+c) are written as c single terms and a sum over [0, h)"""
    sums = {a for c, m in (t.args if t.op == "poly" else ()) for a, e in m if a.op == "sum" and len(a.args[0]) == 1}
    if len(sums) < 2 or len(sums) > 12:
        return
    his = {a.args[0][0][2] for a in sums}
    for h1 in his:
        for h2 in his:
            d = T.sub(h1, h2)
            if d.op != "num" or not 0 < d.args[0] <= 3 or not solver.entails(T.le(T.ZERO, h2), 2000):
                continue
            c = int(d.args[0])
            for front in (True, False):
                m = {}
                for a in sums:
                    (b, lo, hi), body = a.args[0][0], a.args[1]
                    if hi is not h1:
                        continue
                    k = T.fresh("b", "I")
                    T.RANGE[k] = h2
                    if front:
                        m[a] = T.add(*[T.subst(body, {b: T.num(j)}) for j in range(c)],
                                     T.tsum(k, T.ZERO, h2, T.subst(body, {b: T.add(k, T.num(c))})))
                    else:
                        m[a] = T.add(*[T.subst(body, {b: T.add(h2, T.num(j))}) for j in range(c)],
                                     T.tsum(k, T.ZERO, h2, T.subst(body, {b: k})))
                acc = []
                for co, mo in t.args:
                    acc.append(T.mul(T.num(co), *[T.power(m.get(a, a), e) for a, e in mo]))
                yield T.add(*acc)


def _use_equality(v, c):
    p = c.args[0]
    for x in sorted(T.fv(p), key=lambda z: -z.id):
        if x.op == "var" and x.sort in ("I", "R"):
            lin = T._linear_in(p, x)
            if lin is not None:
                k, rest = lin
                return T.subst(v, {x: T.neg(rest) if k == 1 else rest})
    return v


def prove_atom(c, solver):
    """entailment with the sums of the statement brought to a common form first"""
    if c.op == "eq0" and c.args[0].sort in ("I", "R"):
        return prove_zero(use_pc_equalities(c.args[0], solver), solver)
    if c.op == "le0":
        t = resolve_ivs(use_pc_equalities(c.args[0], solver), solver)
        t = join_sums(t, solver)
        return solver.entails(T.le(t, T.ZERO))
    return solver.entails(c)


def prove_eq(a, b, solver):
    if a is b:
        STATS["normal"] += 1
        return True
    if a.sort == "B":
        return solver.entails(T.eq(a, b))
    if a.sort == "O" or b.sort == "O":
        if a.op == "lam" and b.op == "lam" and len(a.args[0]) == len(b.args[0]):
            vs = [T.fresh("l", x.sort) for x in a.args[0]]
            return prove_eq(T.subst(a.args[1], dict(zip(a.args[0], vs))), T.subst(b.args[1], dict(zip(b.args[0], vs))), solver)
        return solver.entails(T.eq(a, b))
    d = T.sub(a, b)
    if d is not T.ZERO:
        d = use_pc_equalities(d, solver)
    return prove_zero(d, solver)


def pinned(solver):
    """p - v for integer forms p whose lower and upper bound in the path condition coincide"""
    lo, hi = {}, {}
    for c in solver.pc:
        for x in (c.args if c.op == "and" else (c,)):
            y = x.args[0] if x.op == "not" else x
            if y.op != "le0" or not T.is_int(y.args[0]):
                continue
            p = T.to_poly(y.args[0])
            k = p.get((), 0)
            form = T.from_poly({m: v for m, v in p.items() if m})
            if x is y:
                hi[form] = min(hi.get(form, -k), -k)
            else:
                lo[form] = max(lo.get(form, 1 - k), 1 - k)
    return [T.sub(f, T.num(lo[f])) for f in lo if f in hi and lo[f] == hi[f]]


def use_pc_equalities(d, solver):
    """substitute variables the path condition fixes to other terms"""
    eqs = []
    for c in solver.pc:
        for x in (c.args if c.op == "and" else (c,)):
            if x.op == "eq0":
                eqs.append(x.args[0])
    eqs += pinned(solver)
    for k in range(len(eqs)):
        p = eqs[k]
        for x in sorted(T.fv(p), key=lambda z: -z.id):
            if x.op == "var" and x.sort in ("I", "R"):
                lin = T._linear_in(p, x)
                if lin is not None:
                    c, rest = lin
                    v = T.neg(rest) if c == 1 else rest
                    if x in T.fv(v):
                        continue
                    m = {x: v}
                    d = T.subst(d, m)
                    for j in range(k + 1, len(eqs)):
                        eqs[j] = T.subst(eqs[j], m)
                    break
    return d
