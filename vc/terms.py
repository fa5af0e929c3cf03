"""Hash-consed term language with a canonical normal form.

Sorts: I (integer), R (real), B (boolean), O (opaque object / array).
Arithmetic terms are kept as polynomials over atoms with rational
coefficients and rational exponents.  Sums over symbolic index ranges are
canonical up to renaming of bound indices, order of summation, distribution
over addition and factoring of independent parts.  Conditionals are
polynomials with 0/1 indicator atoms (`iv`)."""
from fractions import Fraction as F
from itertools import permutations
from typing import Dict, Iterable, Tuple
import math

_TABLE: Dict[tuple, "Term"] = {}
_NEXT = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h", "_z3", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._fv = None
        t._h = None
        t._z3 = None
        _TABLE[key] = t
    return t


def num(q, sort=None):
    if isinstance(q, bool):
        q = int(q)
    if isinstance(q, float):
        if q != q or q in (float("inf"), float("-inf")):
            return mk("app", ("float:" + repr(q),), "R")
        q = F(repr(q))
        if sort is None:
            sort = "R"
    q = F(q)
    if sort is None:
        sort = "I" if q.denominator == 1 else "R"
    return mk("num", (q,), "N" if q.denominator == 1 else "R")


# numbers with integer value have sort N: usable as either I or R
ZERO = num(0)
ONE = num(1)
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")

_fresh = [0]
_POS = set()  # ids of atoms known positive
DIMS = set()  # terms known to be array dimensions (>= 0)
_EXPANDED = {}  # expanded integer power -> (base, exponent)
RANGE = {}  # var term -> exclusive upper bound (lower bound 0) for index variables


def var(name, sort):
    return mk("var", (name,), sort)


def fresh(prefix, sort):
    _fresh[0] += 1
    return mk("var", ("%s!%d" % (prefix, _fresh[0]),), sort)


def declare_positive(t):
    _POS.add(t.id)


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


# ----------------------------------------------------------------- polynomials
# poly term: args = tuple of (coef, mono); mono = tuple of (atom, exp) sorted by atom.id


def to_poly(t) -> Dict[tuple, F]:
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {((t, F(1)),): F(1)}


def _join(a, b):
    if a == "R" or b == "R":
        return "R"
    if a == "I" or b == "I":
        return "I"
    if a == "N" and b == "N":
        return "N"
    return "R"


def mono_sort(m, c):
    s = "N" if c.denominator == 1 else "R"
    for a, e in m:
        if e.denominator != 1 or e < 0:
            return "R"
        s = _join(s, a.sort if a.sort in "IRN" else "R")
    return s


def from_poly(p: Dict[tuple, F]):
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != "poly":
            return m[0][0]
    items = tuple(sorted(((c, m) for m, c in p.items()), key=_mkey))
    s = "N"
    for c, m in items:
        s = _join(s, mono_sort(m, c))
    if s == "N":
        s = "I"
    return mk("poly", items, s)


def _mkey(cm):
    return tuple((a.id, e) for a, e in cm[1])


def add(*ts):
    p: Dict[tuple, F] = {}
    for t in ts:
        for m, c in to_poly(t).items():
            v = p.get(m, 0) + c
            if v == 0:
                p.pop(m, None)
            else:
                p[m] = v
    return from_poly(p)


def neg(t):
    return from_poly({m: -c for m, c in to_poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """returns list of (needs-expansion atoms) ; result mono or a Term."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    expand = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "iv":
            if e > 0:
                e = F(1)
        elif a.op == "poly" and e.denominator == 1 and e > 0:
            expand.append((a, e))
            continue
        elif a.op == "num" and e.denominator == 1:
            expand.append((a, e))
            continue
        out.append((a, F(e)))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), expand


def mul(*ts):
    acc = {(): F(1)}
    for t in ts:
        acc = _pmul(acc, to_poly(t))
        if not acc:
            return ZERO
    return from_poly(acc)


def _pmul(p, q):
    r: Dict[tuple, F] = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, expand = _mono_mul(m1, m2)
            c = c1 * c2
            if expand:
                t = {m: c}
                for a, e in expand:
                    if a.op == "num":
                        t = {mm: cc * a.args[0] ** int(e) for mm, cc in t.items()}
                    else:
                        for _ in range(int(e)):
                            t = _pmul(t, to_poly(a))
                for mm, cc in t.items():
                    v = r.get(mm, 0) + cc
                    if v == 0:
                        r.pop(mm, None)
                    else:
                        r[mm] = v
            else:
                if _iv_conflict(m):
                    continue
                v = r.get(m, 0) + c
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    return r


def _iv_conflict(m):
    """[i == e]*[i == e'] with e-e' a nonzero constant is 0"""
    eqs = [a.args[0].args[0] for a, _ in m if a.op == "iv" and a.args[0].op == "eq0"]
    if not eqs:
        return False
    for q in eqs:
        # a * [a == 0] is 0
        if q.op in ("var", "app") and any(a is q and e > 0 for a, e in m):
            return True
    if len(eqs) < 2:
        return False
    for i in range(len(eqs)):
        for j in range(i):
            d = sub(eqs[i], eqs[j])
            if d.op == "num" and d.args[0] != 0:
                return True
            d = add(eqs[i], eqs[j])
            if d.op == "num" and d.args[0] != 0:
                return True
    return False


def power(t, e):
    """t ** e, e a rational"""
    e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        q = t.args[0]
        if e.denominator == 1:
            if q == 0 and e < 0:
                return mk("app", ("div0",), "R")
            return num(q ** int(e))
        if q == 0 and e > 0:
            return ZERO
        if q == 1:
            return ONE
        if q > 0:
            r = _perfect_root(q, e.denominator)
            if r is not None:
                return num(r ** e.numerator)
            # pull out denominator: (a/b)^(n/d) ; keep integer radicand
            a, b = q.numerator, q.denominator
            if b != 1:
                base = num(a * b ** (e.denominator - 1))
                return mul(power(base, e), power(num(b), -e.numerator)) if e > 0 else \
                    power(power(t, -e), -1)
            whole = math.floor(e)
            frac = e - whole
            acc = [num(q ** whole)]
            if frac:
                rest, f, n = int(q), 2, 0
                while f * f <= rest and f < 1000:
                    n = 0
                    while rest % f == 0:
                        rest //= f
                        n += 1
                    if n:
                        x = n * frac
                        acc.append(num(F(f) ** math.floor(x)))
                        if x - math.floor(x):
                            acc.append(from_poly({((num(f), x - math.floor(x)),): F(1)}))
                    f += 1
                if rest != 1:
                    acc.append(from_poly({((num(rest), frac),): F(1)}))
            return mul(*acc)
        return from_poly({((t, e),): F(1)})
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            out = num(c ** int(e))
            r = {(): F(1)}
            acc = [out]
            for a, x in m:
                acc.append(_atom_pow(a, x * e))
            return mul(*acc)
        if c > 0 and all(_positive(a) for a, x in m):
            acc = [power(num(c), e)]
            for a, x in m:
                acc.append(_atom_pow(a, x * e))
            return mul(*acc)
        if c > 0 and c != 1:
            return mul(power(num(c), e), power(from_poly({m: F(1)}), e))
        if len(m) == 1 and m[0][1].denominator != 1 and c == 1:
            # (x^(1/2))^e : x is nonnegative already
            return _atom_pow(m[0][0], m[0][1] * e)
        if len(m) == 1 and m[0][1] == -1 and c == 1:
            return _atom_pow(m[0][0], -e)
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return _atom_pow(m[0][0], e)
        base = mk("poly", tuple(sorted(((cc, mm) for mm, cc in p.items()), key=_mkey)), "R")
        return from_poly({((base, e),): F(1)})
    if e.denominator == 1 and e > 0:
        r = {(): F(1)}
        for _ in range(int(e)):
            r = _pmul(r, p)
        r = from_poly(r)
        if r.op == "poly" and len(r.args) > 1:
            _EXPANDED.setdefault(r, (t, int(e)))
        return r
    if e < 0 and e.denominator == 1 and t in _EXPANDED:
        base, n = _EXPANDED[t]
        return power(base, e * n)
    ivs = _top_ivs(t)
    if ivs and len(ivs) <= 3:
        return _piecewise(lambda x: power(x, e), t)
    # multi-term base, negative or fractional exponent: make primitive
    cont = _content(p)
    if cont < 0 and e.denominator != 1:
        cont = -cont
    gm = _common(p) if e.denominator == 1 else {}
    if cont != 1 or gm:
        q = {}
        inv = tuple((a, -x) for a, x in gm.items())
        for m, c in p.items():
            mm, _ = _mono_mul(m, inv)
            q[mm] = c / cont
        base = from_poly(q)
        acc = [power(num(cont), e), power(base, e)]
        for a, x in gm.items():
            acc.append(_atom_pow(a, x * e))
        return mul(*acc)
    return from_poly({((t, e),): F(1)})


def _common(p):
    ms = list(p)
    g = {}
    atoms = {}
    for m in ms:
        for a, x in m:
            atoms.setdefault(a, []).append(x)
    for a, xs in atoms.items():
        if a.op == "iv":
            continue
        lo = min(xs) if len(xs) == len(ms) else min(min(xs), F(0))
        if lo != 0:
            g[a] = lo
    return g


def _content(p):
    """leading coefficient (by canonical order) - makes the base monic"""
    items = sorted(((c, m) for m, c in p.items()), key=_mkey)
    return items[-1][0]


def _perfect_root(q, d):
    def root(n):
        r = round(n ** (1.0 / d))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** d == n:
                return k
        return None

    a, b = root(q.numerator), root(q.denominator)
    if a is None or b is None:
        return None
    return F(a, b)


POSARR = set()  # ids of array variables whose cells are all positive


def _positive(a):
    if a.id in _POS:
        return True
    if a.op == "app" and a.args[0] == "sel" and a.args[1].id in POSARR:
        return True
    if a.op == "app" and a.args[0] in ("exp", "pi", "cosh"):
        return True
    if a.op == "num":
        return a.args[0] > 0
    return False


def _atom_pow(a, e):
    e = F(e)
    if e == 0:
        return ONE
    if a.op == "poly" and e.denominator == 1:
        if e > 0:
            return power(a, e)
    if a.op == "iv":
        if e > 0:
            return a
    if a.op == "num":
        return power(a, e)
    if a.op == "poly" and e.denominator != 1 and len(a.args) == 1:
        return from_poly({((a, e),): F(1)})
    return from_poly({((a, e),): F(1)})


def div(a, b):
    return mul(a, power(b, -1))


# ----------------------------------------------------------------- functions
_DERIV = {}  # unary f -> callable(x term) -> derivative term


def app(name, *args, sort="R"):
    f = _SIMP.get(name)
    if f is not None:
        return f(*args)
    return mk("app", (name,) + tuple(args), sort)


def _piecewise(f, x):
    ivs = _top_ivs(x)
    if not ivs or len(ivs) > 3:
        return None
    a = ivs[0]
    return ite(a.args[0], f(_set_iv(x, a, 1)), f(_set_iv(x, a, 0)))


def _exp(x):
    r = _piecewise(_exp, x)
    if r is not None:
        return r
    p = to_poly(x)
    acc = []
    out: Dict[tuple, F] = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log":
            acc.append(power(m[0][0].args[1], c))
            continue
        base = from_poly({m: F(1)})
        out[((mk("app", ("exp", base), "R"), c),)] = F(1)
    for (k,) in out:
        acc.append(from_poly({(k,): F(1)}))
    return mul(*acc) if acc else ONE


def _log(x):
    if x is ONE:
        return ZERO
    r = _piecewise(_log, x)
    if r is not None:
        return r
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if m and c > 0 and all(_positive(a) for a, _ in m):
            acc = [_log(num(c))]
            for a, e in m:
                if a.op == "app" and a.args[0] == "exp":
                    acc.append(mul(num(e), a.args[1]))
                else:
                    acc.append(mul(num(e), mk("app", ("log", a), "R")))
            return add(*acc)
    return mk("app", ("log", x), "R")


def _tanh(x):
    if x is ZERO:
        return ZERO
    e = _exp(mul(num(2), x))
    return div(sub(e, ONE), add(e, ONE))


def _cosh(x):
    return div(add(_exp(x), _exp(neg(x))), num(2))


def _sinh(x):
    return div(sub(_exp(x), _exp(neg(x))), num(2))


def _odd(name):
    def f(x):
        if x is ZERO:
            return ZERO
        if _lead_neg(x):
            return neg(mk("app", (name, neg(x)), "R"))
        return mk("app", (name, x), "R")

    return f


def _even(name, at0):
    def f(x):
        if x is ZERO:
            return at0
        if _lead_neg(x):
            return mk("app", (name, neg(x)), "R")
        return mk("app", (name, x), "R")

    return f


def _lead_neg(x):
    p = to_poly(x)
    return bool(p) and _content(p) < 0


def _floor(x):
    if x.sort in ("I", "N"):
        return x
    if x.op == "num":
        return num(math.floor(x.args[0]))
    p = to_poly(x)
    ip, rp = {}, {}
    for m, c in p.items():
        if mono_sort(m, c) in ("I", "N"):
            ip[m] = c
        elif not m:
            w = math.floor(c)
            if w:
                ip[m] = F(w)
            if c - w:
                rp[m] = c - w
        else:
            rp[m] = c
    r = mk("app", ("floor", from_poly(rp)), "I")
    return add(from_poly(ip), r) if ip else r


def _fdiv(a, b):
    if b is ONE:
        return a
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if within(a, b):
        return ZERO
    q, r = _divpart(a, b)
    if q is not None:
        if r is ZERO:
            return q
        if q is not ZERO:
            return add(q, _fdiv(r, b))
    u, v, rest, p = _cancel(a, b)
    if u is not None:
        return _fdiv(u, rest)
    return mk("app", ("fdiv", a, b), "I")


def _cancel(a, b):
    """b = p*rest and a = p*u + v with 0 <= v < p: a // b is u // rest and a % b is p*(u % rest) + v"""
    pb = to_poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        if sum(e for _, e in mb) > 1 or cb != 1 and mb:
            for x, e in list(mb) + ([(num(cb), 1)] if cb > 1 else []):
                if e < 1 or x is b:
                    continue
                u, v = _divpart(a, x)
                if u is not None and u is not ZERO and (v is ZERO and _positive(x) or v is not ZERO and within(v, x)):
                    return u, v, mul(b, power(x, -1)), x
    return None, None, None, None


def within(e, hi):
    """0 <= e < hi by construction"""
    if RANGE.get(e) is hi:
        return True
    if e.op == "num":
        return e.args[0] >= 0 and (hi.op == "num" and e.args[0] < hi.args[0] or e is ZERO and _positive(hi))
    if e.op == "app" and e.args[0] == "mod" and e.args[2] is hi:
        return True
    d = RANGE.get(e)
    if d is not None and d.op == "num" and hi.op == "num":
        return d.args[0] <= hi.args[0]
    if e.op != "poly":
        return False
    p = to_poly(e)
    for m, c in p.items():
        if c != 1:
            continue
        for v, k in m:
            d = RANGE.get(v)
            if d is None and v.op == "app" and v.args[0] == "fdiv":
                # (x // y) < d for x < d*y
                d = None
            if d is None or k != 1:
                continue
            s = from_poly({tuple(x for x in m if x[0] is not v): F(1)})
            rest = sub(e, mul(v, s))
            if s is ONE:
                if rest.op == "num" and rest.args[0] >= 0:
                    room = sub(hi, d)
                    if room.op == "num" and rest.args[0] <= room.args[0]:
                        return True
            elif mul(d, s) is hi and within(rest, s):
                return True
    return False


def _mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b is ONE and a.sort in ("I", "N"):
        return ZERO
    if within(a, b):
        return a
    q, r = _divpart(a, b)
    if q is not None and q is not ZERO:
        return _mod(r, b)
    if r is ZERO and q is not None:
        return ZERO
    u, v, rest, p = _cancel(a, b)
    if u is not None:
        return add(mul(p, _mod(u, rest)), v)
    return mk("app", ("mod", a, b), "I")


def _divpart(a, b):
    """write a = q*b + r where q collects monomials divisible by the single-monomial b"""
    pb = to_poly(b)
    if len(pb) != 1:
        return None, a
    (mb, cb), = pb.items()
    q, r = {}, {}
    for m, c in to_poly(a).items():
        inv = tuple((x, -e) for x, e in mb)
        mm, ex = _mono_mul(m, inv)
        if not ex and all(e > 0 for _, e in mm) and (c / cb).denominator == 1:
            q[mm] = c / cb
        else:
            r[m] = c
    return from_poly(q), from_poly(r)


def _max2(a, b):
    """maximum kept as one atom (of native integer arithmetic)"""
    if a is b:
        return a
    if a.op == "num" and b.op == "num":
        return a if a.args[0] >= b.args[0] else b
    if a.id > b.id:
        a, b = b, a
    return mk("app", ("max2", a, b), "I")


_SIMP = {
    "max2": _max2,
    "exp": _exp,
    "log": _log,
    "tanh": _tanh,
    "cosh": _cosh,
    "sinh": _sinh,
    "erf": _odd("erf"),
    "sin": _odd("sin"),
    "cos": _even("cos", ONE),
    "floor": _floor,
    "fdiv": _fdiv,
    "mod": _mod,
}
PI = mk("app", ("pi",), "R")


def absv(x):
    if x.op == "num":
        return num(abs(x.args[0]))
    return ite(ge(x, ZERO), x, neg(x))


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(ge(a, b), a, b)


# ----------------------------------------------------------------- booleans
def is_int(t):
    return t.sort in ("I", "N")


def _canon_scale(p):
    """scale so that leading coefficient is +-1 (reals) / primitive (ints)"""
    return abs(_content(p))


def _top_ivs(p):
    """indicator atoms occurring directly in the monomials of p"""
    if p.op == "iv":
        return [p]
    out = []
    if p.op == "poly":
        for c, m in p.args:
            for a, e in m:
                if a.op == "iv" and a not in out:
                    out.append(a)
    return out


def _set_iv(p, a, val):
    if p is a:
        return num(val)
    if p.op != "poly":
        return p
    acc = []
    for c, m in p.args:
        if any(x is a for x, _ in m):
            if val:
                acc.append(from_poly({tuple(y for y in m if y[0] is not a): c}) if len(m) > 1 else num(c))
        else:
            acc.append(from_poly({m: c}))
    # from_poly of a single-atom monomial may leave an expandable atom: renormalise
    return add(*[mul(x) for x in acc]) if acc else ZERO


def _over_max(f, p, mono):
    """comparison of a form with a max2 atom, as comparisons with its arguments"""
    for c, m in (p.args if p.op == "poly" else [(1, ((p, 1),))] if p.op == "app" else []):
        for a, e in m:
            if a.op == "app" and a.args[0] == "max2":
                if len(m) != 1 or e != 1 or any(x is a for c2, m2 in (p.args if p.op == "poly" else []) if m2 is not m for x, _ in m2):
                    continue
                rest = sub(p, mul(num(c), a))
                u, v = (add(rest, mul(num(c), a.args[k])) for k in (1, 2))
                if mono:
                    return and_(f(u), f(v)) if c > 0 else or_(f(u), f(v))
                g = ge(a.args[1], a.args[2])
                return or_(and_(g, f(u)), and_(not_(g), f(v)))
    return None


def _lifted(f, p):
    r = _over_max(f, p, f is not eq0)
    if r is not None:
        return r
    """f(comparison of p) distributed over a few top-level conditionals in p"""
    ivs = _top_ivs(p)
    if not ivs or len(ivs) > 3:
        return None
    a = ivs[0]
    c = a.args[0]
    return or_(and_(c, f(_set_iv(p, a, 1))), and_(not_(c), f(_set_iv(p, a, 0))))


def _pos_scale(p):
    """divide out positive atoms common to all monomials (keeps the sign)"""
    g = {a: e for a, e in _common(to_poly(p)).items() if _positive(a)}
    if not g:
        return p
    inv = from_poly({tuple(sorted(((a, -e) for a, e in g.items()), key=lambda ae: ae[0].id)): F(1)})
    return mul(p, inv)


def le0(p):
    """p <= 0"""
    if p.op == "num":
        return TRUE if p.args[0] <= 0 else FALSE
    r = _lifted(le0, p)
    if r is not None:
        return r
    if not is_int(p):
        p = _pos_scale(p)
        if p.op == "num":
            return TRUE if p.args[0] <= 0 else FALSE
    d = to_poly(p)
    if is_int(p):
        # primitive: divide by gcd of coefs of nonconstant monos, tighten constant
        g = 0
        for m, c in d.items():
            if m:
                g = math.gcd(g, int(c))
        if g > 1:
            d = {m: (c / g if m else F(math.ceil(c / g))) for m, c in d.items()}
            d = {m: c for m, c in d.items() if c != 0}
        items = sorted(((c, m) for m, c in d.items() if m), key=_mkey)
        if items[-1][0] < 0:
            # -q + c <= 0  <=> not (q - c <= -1)  <=> not(-(d) ... )
            nd = {m: -c for m, c in d.items()}
            nd[()] = nd.get((), F(0)) + 1
            if nd[()] == 0:
                del nd[()]
            return mk("not", (mk("le0", (from_poly(nd),), "B"),), "B")
        return mk("le0", (from_poly(d),), "B")
    s = _canon_scale(d)
    d = {m: c / s for m, c in d.items()}
    if _content(d) < 0:
        return mk("not", (mk("lt0", (from_poly({m: -c for m, c in d.items()}),), "B"),), "B")
    return mk("le0", (from_poly(d),), "B")


def lt0(p):
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    if is_int(p):
        return le0(add(p, ONE))
    r = _lifted(lt0, p)
    if r is not None:
        return r
    p = _pos_scale(p)
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    d = to_poly(p)
    s = _canon_scale(d)
    d = {m: c / s for m, c in d.items()}
    if _content(d) < 0:
        return mk("not", (mk("le0", (from_poly({m: -c for m, c in d.items()}),), "B"),), "B")
    return mk("lt0", (from_poly(d),), "B")


def eq0(p):
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    r = _lifted(eq0, p)
    if r is not None:
        return r
    if not is_int(p):
        p = _pos_scale(p)
        if p.op == "num":
            return TRUE if p.args[0] == 0 else FALSE
    elif p.op == "poly" and len(p.args) <= 8:
        p = _pos_scale(p)
        if p.op == "num":
            return TRUE if p.args[0] == 0 else FALSE
    d = to_poly(p)
    if is_int(p):
        g = 0
        for m, c in d.items():
            if m:
                g = math.gcd(g, int(c))
        k = d.get((), F(0))
        if g > 1:
            if k % g != 0:
                return FALSE
            d = {m: c / g for m, c in d.items()}
        if _content(d) < 0:
            d = {m: -c for m, c in d.items()}
    else:
        s = _content(d)
        d = {m: c / s for m, c in d.items()}
    return mk("eq0", (from_poly(d),), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "O" or b.sort == "O":
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk("eqo", (a, b), "B")
    return eq0(sub(a, b))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,), "B")


def and_(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        parts = c.args if c.op == "and" else (c,)
        for q in parts:
            if q.id in seen:
                continue
            seen.add(q.id)
            out.append(q)
    for q in out:
        if not_(q).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def implies(a, b):
    return or_(not_(a), b)


def iv(c):
    """indicator of a boolean as a 0/1 integer polynomial"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, iv(c.args[0]))
    if c.op == "and":
        return mul(*[iv(x) for x in c.args])
    return mk("iv", (c,), "I")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == "O":
        if c.op == "not":
            c, a, b = c.args[0], b, a
        for x in (a, b):
            if x.op == "lam" and all(y.sort == "I" for y in x.args[0]):
                ks = [fresh("k", "I") for _ in x.args[0]]
                st = x.args[1].sort
                if st != "O":
                    return lam(ks, ite(c, sel(a, *ks, sort=st), sel(b, *ks, sort=st)))
        return mk("iteo", (c, a, b), "O")
    return add(b, mul(iv(c), sub(a, b)))


# ----------------------------------------------------------------- structure
def children(t):
    op = t.op
    if op in ("num", "var", "true", "false", "str", "bv"):
        return ()
    if op == "poly":
        return [a for c, m in t.args for a, e in m]
    if op == "sum":
        binders, body = t.args
        return [x for b in binders for x in (b[1], b[2])] + [body]
    if op in ("red", "lam", "rec"):
        return [x for x in t.args if isinstance(x, Term)]
    return [x for x in t.args if isinstance(x, Term)]


def height(t):
    """1 + largest bound-variable index occurring in t (bound or free bv)"""
    if t._h is None:
        h = 0
        if t.op == "bv":
            h = t.args[0] + 1
        for c in children(t):
            h = max(h, height(c))
        if t.op == "sum":
            for b in t.args[0]:
                h = max(h, height(b[0]))
        if t.op in ("red", "lam", "rec"):
            for x in t.args:
                if isinstance(x, tuple):
                    for y in x:
                        h = max(h, height(y))
        t._h = h
    return t._h


def fv(t):
    """free variables (var terms and bv terms)"""
    if t._fv is None:
        if t.op in ("var", "bv"):
            r = frozenset((t,))
        else:
            r = frozenset()
            for c in children(t):
                r |= fv(c)
            if t.op == "sum":
                r -= frozenset(b[0] for b in t.args[0])
            elif t.op in ("red", "lam", "rec"):
                for x in t.args:
                    if isinstance(x, tuple):
                        r -= frozenset(x)
        t._fv = r
    return t._fv


def bv(i, sort):
    return mk("bv", (i, sort), sort)


def subst(t, s: Dict[Term, Term], memo=None):
    if not s:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(s)
    return _subst(t, s, keys, memo)


def _subst(t, s, keys, memo):
    if not (fv(t) & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ("var", "bv"):
        r = s[t]
    elif op == "poly" and t in _EXPANDED:
        base, n = _EXPANDED[t]
        r = power(_subst(base, s, keys, memo), n)
    elif op == "poly":
        acc = []
        for c, m in t.args:
            fs = [num(c)]
            for a, e in m:
                fs.append(power(_subst(a, s, keys, memo), e))
            acc.append(mul(*fs))
        r = add(*acc)
    elif op == "sum":
        binders, body = t.args
        # open with fresh variables, substitute, close again
        op_s = {}
        news = []
        for b, lo, hi in binders:
            nb = fresh("b", b.sort)
            op_s[b] = nb
            news.append(nb)
        rs = []
        m2 = {}
        full = dict(s)
        full.update(op_s)
        kk = frozenset(full)
        for (b, lo, hi), nb in zip(binders, news):
            rs.append((nb, _subst(lo, full, kk, m2), _subst(hi, full, kk, m2)))
        for nb, lo, hi in rs:
            if lo is ZERO:
                RANGE[nb] = hi
        m2 = {}
        r = sums(rs, _subst(body, full, kk, m2))
    elif op == "red":
        kind, (b,), n, body = t.args
        nb = fresh("b", b.sort)
        full = dict(s)
        full[b] = nb
        r = red(kind, nb, _subst(n, s, keys, memo), _subst(body, full, frozenset(full), {}))
    elif op == "lam":
        bs, body = t.args
        full = dict(s)
        nbs = []
        for b in bs:
            nb = fresh("b", b.sort)
            full[b] = nb
            nbs.append(nb)
        r = lam(nbs, _subst(body, full, frozenset(full), {}))
    elif op == "rec":
        kind, bs, rest = t.args[0], t.args[1], t.args[2:]
        nst = len(bs) - 1
        inits, n, steps = rest[:nst], rest[nst], rest[nst + 1:]
        full = dict(s)
        nbs = []
        for b in bs:
            nb = fresh("b", b.sort)
            full[b] = nb
            nbs.append(nb)
        kk = frozenset(full)
        m2 = {}
        r = rec(kind, nbs, [_subst(x, s, keys, memo) for x in inits], _subst(n, s, keys, memo),
                [_subst(x, full, kk, m2) for x in steps])
    else:
        args = tuple(_subst(x, s, keys, memo) if isinstance(x, Term) else x for x in t.args)
        r = rebuild(op, args, t.sort)
    memo[t] = r
    return r


def rebuild(op, args, sort):
    if op == "app":
        name = args[0]
        if name == "sel" and args[1].op == "lam":
            bs, body = args[1].args
            if len(bs) == len(args) - 2:
                return subst(body, dict(zip(bs, args[2:])))
        return app(name, *args[1:], sort=sort)
    if op == "le0":
        return le0(args[0])
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "eqo":
        return eq(args[0], args[1])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "iv":
        return iv(args[0])
    if op == "iteo":
        return ite(*args)
    return mk(op, args, sort)


def sel(arr, *idx, sort="R"):
    """read of array-valued term"""
    if arr.op == "lam" and len(arr.args[0]) == len(idx):
        return subst(arr.args[1], dict(zip(arr.args[0], idx)))
    if arr.op == "iteo":
        return ite(arr.args[0], sel(arr.args[1], *idx, sort=sort), sel(arr.args[2], *idx, sort=sort))
    return mk("app", ("sel", arr) + tuple(idx), sort)


def lam(bs, body):
    """canonical lambda (array-valued term); bs are free variables of body"""
    # eta: lam i,j. sel(A,i,j) -> A
    if body.op == "app" and body.args[0] == "sel" and tuple(body.args[2:]) == tuple(bs) and not (
        fv(body.args[1]) & frozenset(bs)
    ):
        return body.args[1]
    h = height(body)
    nb = tuple(bv(h + i, b.sort) for i, b in enumerate(bs))
    return mk("lam", (nb, subst(body, dict(zip(bs, nb)))), "O")


def red(kind, b, n, body):
    """reduction max/min/argmax/argmin over b in [0,n)"""
    if n is ONE:
        return ZERO if kind.startswith("arg") else subst(body, {b: ZERO})
    h = max(height(body), height(n))
    nb = bv(h, b.sort)
    return mk("red", (kind, (nb,), n, subst(body, {b: nb})), "I" if kind.startswith("arg") or body.sort in ("I", "N") else "R")


def rec(kind, bs, inits, n, steps):
    """bs = state vars..., counter.  value of state component `kind` after n steps."""
    if n is ZERO:
        return inits[kind]
    h = max([height(x) for x in steps] + [0])
    nb = tuple(bv(h + i, b.sort) for i, b in enumerate(bs))
    m = dict(zip(bs, nb))
    return mk(
        "rec",
        (kind, nb) + tuple(inits) + (n,) + tuple(subst(x, m) for x in steps),
        bs[kind].sort,
    )


# ----------------------------------------------------------------- sums
def tsum(b, lo, hi, body):
    """sum over integer b in [lo,hi) -- assumes lo <= hi"""
    return sums([(b, lo, hi)], body)


def sums(binders, body):
    """binders: list of (var, lo, hi) ; body a term; ranges may depend on other binders"""
    binders = list(binders)
    for k, (b, lo, hi) in enumerate(binders):
        # short constant ranges are written out
        if lo.op == "num" and hi.op == "num" and hi.args[0] - lo.args[0] <= 4:
            rest = binders[:k] + binders[k + 1:]
            vals = []
            for v in range(int(lo.args[0]), int(hi.args[0])):
                s = {b: num(v)}
                x = subst(body, s)
                vals.append(sums([(b2, subst(l, s), subst(h, s)) for b2, l, h in rest], x) if rest else x)
            return add(*vals)
    out = []
    for m, c in to_poly(body).items():
        out.append(mul(num(c), _sum_mono(binders, m)))
    return add(*out)


def _linear_in(p, b):
    """p = k*b + rest with k=+-1, rest free of b ; returns (k, rest) or None"""
    k = None
    rest = {}
    for m, c in to_poly(p).items():
        if any(b in fv(a) for a, _ in m):
            if len(m) == 1 and m[0][0] is b and m[0][1] == 1 and abs(c) == 1 and k is None:
                k = c
            else:
                return None
        else:
            rest[m] = c
    if k is None:
        return None
    return k, from_poly(rest)


def _sum_mono(binders, m):
    # 1. flatten nested sum atoms that mention a binder
    bset = frozenset(b[0] for b in binders)
    changed = True
    factors = list(m)
    again = True
    while again:
        again = False
        for i, (a, e) in enumerate(factors):
            if a.op == "sum" and e.denominator == 1 and e > 0 and (fv(a) & bset):
                rest = factors[:i] + factors[i + 1:]
                if e > 1:
                    rest.append((a, e - 1))
                ib, ibody = a.args
                s = {}
                newb = []
                for b, lo, hi in ib:
                    nb = fresh("b", b.sort)
                    s[b] = nb
                for b, lo, hi in ib:
                    newb.append((s[b], subst(lo, s), subst(hi, s)))
                ibody = subst(ibody, s)
                binders = binders + newb
                total = mul(ibody, *[power(x, y) for x, y in rest])
                p = to_poly(total)
                if len(p) == 1:
                    (mm, c), = p.items()
                    return mul(num(c), _sum_mono(binders, mm))
                return sums(binders, total)
    # 2. eliminate binders fixed by an equality indicator
    for i, (a, e) in enumerate(factors):
        if a.op == "iv" and a.args[0].op == "eq0":
            p = a.args[0].args[0]
            for j, (b, lo, hi) in enumerate(binders):
                if b in fv(p):
                    lin = _linear_in(p, b)
                    if lin is None:
                        continue
                    k, rest = lin
                    val = neg(rest) if k == 1 else rest
                    rb = binders[:j] + binders[j + 1:]
                    s = {b: val}
                    rb = [(x, subst(l, s), subst(h, s)) for x, l, h in rb]
                    body = mul(
                        *[subst(power(x, y), s) for t, (x, y) in enumerate(factors) if t != i]
                    )
                    guard = ONE if within(sub(val, lo), sub(hi, lo)) else mul(iv(le(lo, val)), iv(lt(val, hi)))
                    return sums(rb, mul(body, guard)) if rb else mul(body, guard)
    # 3. split into independent components
    names = [b[0] for b in binders]
    comp = {b: {b} for b in names}

    def join(x, y):
        if comp[x] is not comp[y]:
            u = comp[x] | comp[y]
            for z in u:
                comp[z] = u

    for b, lo, hi in binders:
        for y in (fv(lo) | fv(hi)) & frozenset(names):
            join(b, y)
    outer = []
    facs = []
    for a, e in factors:
        ds = [b for b in names if b in fv(a)]
        if not ds:
            outer.append(power(a, e))
            continue
        for y in ds[1:]:
            join(ds[0], y)
        facs.append((ds[0], a, e))
    groups = []
    seen = set()
    for b in names:
        if id(comp[b]) in seen:
            continue
        seen.add(id(comp[b]))
        groups.append(comp[b])
    result = outer
    for g in groups:
        bs = [x for x in binders if x[0] in g]
        fs = [(a, e) for d, a, e in facs if d in g]
        result.append(_sum_close(bs, fs))
    return mul(*result)


def _split_by(t, b, hi):
    """a dimension P such that t contains b // P or b % P and P divides hi"""
    if b not in fv(t):
        return None
    if t.op == "app" and t.args[0] in ("fdiv", "mod") and t.args[1] is b and t.args[2] in DIMS:
        q, r = _divpart(hi, t.args[2])
        if q is not None and r is ZERO:
            return t.args[2]
        return None
    for c in children(t):
        r = _split_by(c, b, hi)
        if r is not None:
            return r
    return None


def _sum_close(bs, fs):
    # order binders so that ranges only depend on earlier ones
    if not fs:
        # pure counting sum
        # try to eliminate a binder no range depends on
        for i, (b, lo, hi) in enumerate(bs):
            others = bs[:i] + bs[i + 1:]
            if not any(b in fv(l) or b in fv(h) for _, l, h in others):
                cnt = sub(hi, lo)
                if not others:
                    return cnt
                return sums(others, cnt)
    # a binder that occurs in no factor and no range: multiply by its length
    used = frozenset().union(*[fv(a) for a, _ in fs]) if fs else frozenset()
    for i, (b, lo, hi) in enumerate(bs):
        if b not in used:
            others = bs[:i] + bs[i + 1:]
            if not any(b in fv(l) or b in fv(h) for _, l, h in others):
                cnt = sub(hi, lo)
                return sums(others, mul(cnt, *[power(a, e) for a, e in fs]))
    # normalise lower bounds to 0
    s = {}
    nbs = []
    shifted = False
    for b, lo, hi in bs:
        if lo is not ZERO:
            shifted = True
    if shifted:
        b2 = []
        full = {}
        for b, lo, hi in bs:
            if lo is not ZERO:
                nb = fresh("b", b.sort)
                full[b] = add(nb, lo)
                b2.append((nb, lo, hi))
            else:
                b2.append((b, lo, hi))
        # lo may depend on other shifted binders: substitute repeatedly
        for _ in range(len(bs)):
            full = {k: subst(v, {x: y for x, y in full.items() if x is not k}) for k, v in full.items()}
        b3 = [(b, ZERO, sub(subst(hi, full), subst(lo, full))) for b, lo, hi in b2]
        return sums(b3, mul(*[subst(power(a, e), full) for a, e in fs]))
    for i, (b, lo, hi) in enumerate(bs):
        if hi is ONE:
            full = {b: ZERO}
            b3 = [(x, l, subst(h, full)) for j, (x, l, h) in enumerate(bs) if j != i]
            body = mul(*[subst(power(a, e), full) for a, e in fs])
            return sums(b3, body) if b3 else body
    # a flattened pair of indices: sum over b < Q*P of f(b // P, b % P)
    for i, (b, lo, hi) in enumerate(bs):
        for a, _ in fs:
            P = _split_by(a, b, hi)
            if P is not None:
                bo, bp = fresh("b", b.sort), fresh("b", b.sort)
                q = _divpart(hi, P)[0]
                RANGE[bo], RANGE[bp] = q, P
                full = {b: add(mul(bo, P), bp)}
                b3 = [x for j, x in enumerate(bs) if j != i]
                if any(b in fv(l) or b in fv(h) for _, l, h in b3):
                    continue
                return sums(b3 + [(bo, ZERO, q), (bp, ZERO, P)], mul(*[subst(power(a, e), full) for a, e in fs]))
    best = None
    h = 0
    for a, _ in fs:
        h = max(h, height(a))
    for _, lo, hi in bs:
        h = max(h, height(hi))
    perms = permutations(range(len(bs))) if len(bs) <= 5 else [tuple(range(len(bs)))]
    for perm in perms:
        m = {}
        for k, j in enumerate(perm):
            m[bs[j][0]] = bv(h + k, bs[j][0].sort)
        body = mul(*[power(subst(a, m), e) for a, e in fs])
        nb = tuple((m[bs[j][0]], ZERO, subst(bs[j][2], m)) for j in perm)
        t = mk("sum", (nb, body), "R" if body.sort == "R" else "I")
        key = (tuple(x[2].id for x in nb), body.id)
        if best is None or key < best[0]:
            best = (key, t)
    return best[1]


# ----------------------------------------------------------------- calculus
def deriv_unary(name):
    def deco(f):
        _DERIV[name] = f
        return f

    return deco


@deriv_unary("erf")
def _d_erf(x):
    return mul(num(2), power(PI, F(-1, 2)), _exp(neg(mul(x, x))))


@deriv_unary("exp")
def _d_exp(x):
    return _exp(x)


@deriv_unary("log")
def _d_log(x):
    return power(x, -1)


@deriv_unary("sin")
def _d_sin(x):
    return app("cos", x)


@deriv_unary("cos")
def _d_cos(x):
    return neg(app("sin", x))


class NotDifferentiable(Exception):
    pass


def diff(t, d):
    """derivative; d(atom) -> Term derivative of a leaf (array read / var) or None if constant"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = _go(t)
        return r

    def _go(t):
        leaf = d(t)
        if leaf is not None:
            return leaf
        op = t.op
        if op in ("num", "var", "bv", "iv", "true", "false", "str"):
            return ZERO
        if op == "poly":
            acc = []
            for c, m in t.args:
                for i, (a, e) in enumerate(m):
                    da = go(a)
                    if da is ZERO:
                        continue
                    fs = [num(c), num(e), power(a, e - 1) if e != 1 else ONE, da]
                    fs += [power(x, y) for j, (x, y) in enumerate(m) if j != i]
                    acc.append(mul(*fs))
            return add(*acc) if acc else ZERO
        if op == "sum":
            binders, body = t.args
            s, bs = {}, []
            for b, lo, hi in binders:
                s[b] = fresh("b", b.sort)
            for b, lo, hi in binders:
                bs.append((s[b], subst(lo, s), subst(hi, s)))
            return sums(bs, go(subst(body, s)))
        if op == "red":
            kind, (b,), n, body = t.args
            if kind in ("argmax", "argmin"):
                return ZERO
            if kind in ("max", "min"):
                nb = fresh("b", "I")
                w = red("arg" + kind, b, n, body)
                bb = go(subst(body, {b: nb}))
                return subst(bb, {nb: w})
            raise NotDifferentiable(kind)
        if op == "app":
            name = t.args[0]
            if name == "floor" or name in ("fdiv", "mod"):
                return ZERO
            if name in _DERIV and len(t.args) == 2:
                da = go(t.args[1])
                return mul(_DERIV[name](t.args[1]), da) if da is not ZERO else ZERO
            ds = [go(x) for x in t.args[1:] if isinstance(x, Term)]
            if all(x is ZERO for x in ds):
                return ZERO
            raise NotDifferentiable(show(t))
        if op in ("lam", "rec"):
            raise NotDifferentiable(op)
        return ZERO

    return go(t)


# ----------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 30:
        return "..."
    d = depth + 1
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op in ("true", "false"):
        return op
    if op == "var":
        return str(t.args[0])
    if op == "str":
        return repr(t.args[0])
    if op == "bv":
        return "%%%d" % t.args[0]
    if op == "poly":
        out = []
        for c, m in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for a, e in m:
                s = show(a, d)
                if a.op == "poly":
                    s = "(" + s + ")"
                fs.append(s if e == 1 else "%s^%s" % (s, "(%s)" % e if e.denominator != 1 or e < 0 else e))
            out.append("*".join(fs))
        return " + ".join(out)
    if op == "app":
        if t.args[0] == "sel":
            return "%s[%s]" % (show(t.args[1], d), ",".join(show(x, d) for x in t.args[2:]))
        return "%s(%s)" % (t.args[0], ", ".join(show(x, d) if isinstance(x, Term) else str(x) for x in t.args[1:]))
    if op == "sum":
        bs, body = t.args
        return "Sum{%s}(%s)" % (",".join("%s<%s" % (show(b, d), show(hi, d)) for b, lo, hi in bs), show(body, d))
    if op == "red":
        return "%s{%s<%s}(%s)" % (t.args[0], show(t.args[1][0], d), show(t.args[2], d), show(t.args[3], d))
    if op == "iv":
        return "[%s]" % show(t.args[0], d)
    if op == "le0":
        return "%s<=0" % show(t.args[0], d)
    if op == "lt0":
        return "%s<0" % show(t.args[0], d)
    if op == "eq0":
        return "%s==0" % show(t.args[0], d)
    if op == "not":
        return "!(%s)" % show(t.args[0], d)
    if op == "lam":
        return "\\%s.%s" % (",".join(show(b, d) for b in t.args[0]), show(t.args[1], d))
    return "%s(%s)" % (op, ", ".join(show(x, d) if isinstance(x, Term) else str(x) for x in t.args))


def mentions(t, v, i):
    """the cell v[i] occurs in t outside any binder"""
    if t.op == "app" and t.args[0] == "sel" and len(t.args) == 3 and t.args[1] is v and t.args[2] is i:
        return True
    if t.op in ("sum", "red", "lam", "rec"):
        return False
    return any(mentions(x, v, i) for x in children(t))
