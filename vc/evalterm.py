"""The meaning of a term on concrete values: used by selftest.py to compare the verifier's contracts and loop rule with real executions."""
import math
import numpy as np
from fractions import Fraction as F
from . import terms as T


class NoValue(Exception):
    pass


def _num(v):
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, np.generic):
        return v.item()
    return v


class Value:
    def __init__(self, env):
        self.env = env

    def __call__(self, t, b=None):
        b = b or {}
        op, a = t.op, t.args
        if op == "num":
            return int(a[0]) if a[0].denominator == 1 else float(a[0])
        if op in ("var", "bv"):
            if t in b:
                return b[t]
            if t in self.env:
                return self.env[t]
            raise NoValue(t)
        if op in ("true", "false"):
            return op == "true"
        if op == "str":
            return a[0]
        if op == "poly":
            acc = 0
            for c, m in a:
                p = int(c) if c.denominator == 1 else float(c)
                # indicator factors first: a false guard makes the rest irrelevant
                for x, e in sorted(m, key=lambda xe: xe[0].op != "iv"):
                    v = self(x, b)
                    if e.denominator != 1:
                        v = v ** float(e) if v >= 0 else float("nan")
                    elif e < 0:
                        v = float(v) ** int(e) if v else float("nan")
                    else:
                        v = v ** int(e)
                    p = p * v
                    if p == 0:
                        break
                acc = acc + p
            return acc
        if op == "iv":
            return int(bool(self(a[0], b)))
        if op == "le0":
            return self(a[0], b) <= 0
        if op == "lt0":
            return self(a[0], b) < 0
        if op == "eq0":
            return self(a[0], b) == 0
        if op == "forall":
            from .solve import QUANT
            _, _, vs, body, ranges = QUANT[a[0]]
            return self.every(list(zip(vs, ranges)), body, b)
        if op == "eqo":
            return self(a[0], b) == self(a[1], b)
        if op == "not":
            return not self(a[0], b)
        if op == "and":
            return all(self(x, b) for x in a)
        if op == "iteo":
            return self(a[1] if self(a[0], b) else a[2], b)
        if op == "lam":
            return lambda *i: self(a[1], {**b, **dict(zip(a[0], i))})
        if op == "sum":
            return self.summed(list(a[0]), a[1], b)
        if op == "red":
            kind, (v,), n, body = a
            xs = [self(body, {**b, v: i}) for i in range(int(self(n, b)))]
            if not xs:
                return 0
            return {"max": max, "min": min, "argmax": lambda s: s.index(max(s)), "argmin": lambda s: s.index(min(s))}[kind](xs)
        if op == "rec":
            kind, bs = a[0], a[1]
            k = len(bs) - 1
            inits, n, steps = a[2:2 + k], int(self(a[2 + k], b)), a[3 + k:]
            st = [self(x, b) for x in inits]
            for i in range(n):
                e = {**b, bs[-1]: i, **dict(zip(bs, st))}
                st = [self(x, e) for x in steps]
            return st[kind]
        if op == "app":
            return self.apply(t, b)
        raise NoValue(op)

    def every(self, vs, body, b):
        if not vs:
            return bool(self(body, b))
        (v, n), rest = vs[0], vs[1:]
        return all(self.every(rest, body, {**b, v: i}) for i in range(int(self(n, b))))

    def summed(self, bs, body, b):
        if not bs:
            return self(body, b)
        # a range may depend on binders listed later
        names = {x[0] for x in bs}
        k = next(i for i, x in enumerate(bs) if not ((T.fv(x[1]) | T.fv(x[2])) & (names - {x[0]})))
        v, lo, hi = bs[k]
        rest = bs[:k] + bs[k + 1:]
        return sum(self.summed(rest, body, {**b, v: i}) for i in range(int(self(lo, b)), int(self(hi, b))))

    def apply(self, t, b):
        name, xs = t.args[0], t.args[1:]
        if name == "sel":
            arr = self(xs[0], b)
            i = tuple(int(self(x, b)) for x in xs[1:])
            if callable(arr):
                return arr(*i)
            arr = np.asarray(arr)
            if any(j < 0 or j >= n for j, n in zip(i, arr.shape)):
                raise NoValue("read outside")
            return _num(arr[i])
        v = [self(x, b) for x in xs]
        if name in ("exp", "log", "tanh", "cosh", "sinh", "cos", "sin", "erf"):
            try:
                return getattr(math, name)(v[0])
            except ValueError:
                return float("nan")
        if name == "floor":
            return math.floor(v[0])
        if name == "fdiv":
            return v[0] // v[1]
        if name == "mod":
            return v[0] % v[1]
        if name == "max2":
            return max(v)
        if name == "pi":
            return math.pi
        raise NoValue(name)
