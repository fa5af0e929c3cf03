"""C functions over unsigned machine words: executed on z3 bit-vectors from Cython's parse tree, with C's conversions.

Used for the hash functions, whose contracts ("a function of key and seed") are otherwise assumed by their callers."""
import os, re
from .solve import z3
from . import cyx

WIDTH = {"uint64_t": 64, "uint32_t": 32}


class Word:
    __slots__ = ("e", "w")

    def __init__(self, e, w):
        self.e, self.w = e, w

    def to(self, w):
        if w == self.w:
            return self
        return Word(z3.Extract(w - 1, 0, self.e) if w < self.w else z3.ZeroExt(w - self.w, self.e), w)


def literal(text):
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)", text)
    if not m:
        raise cyx.Untranslated("constant %s" % text)
    v = int(m.group(1), 0)
    w = 64 if m.group(2).lower().count("l") or v >= 1 << 32 else 32
    return Word(z3.BitVecVal(v, w), w)


class Run:
    def __init__(self, fn, args):
        """fn: CFuncDefNode; args: one Word per integer parameter, None for the output pointer"""
        d = fn.declarator
        self.vars, self.width, self.out, self.ret = {}, {}, {}, None
        self.name = str(d.base.name)
        self.rtype = cyx.basename(fn.base_type)
        for p, a in zip(d.args, args):
            q = p.declarator
            if cyx.cname(q) == "CPtrDeclaratorNode":
                self.ptr = str(q.base.name)
                continue
            n, w = str(q.name), WIDTH[cyx.basename(p.base_type)]
            self.width[n], self.vars[n] = w, a.to(w)
        self.stmt(fn.body)

    def stmt(self, n):
        k = cyx.cname(n)
        if self.ret is not None:
            raise cyx.Untranslated("statement after return")
        if k == "StatListNode":
            for x in n.stats:
                self.stmt(x)
        elif k == "CVarDefNode":
            for d in n.declarators:
                w = WIDTH.get(cyx.basename(n.base_type))
                if w is None or cyx.cname(d) != "CNameDeclaratorNode":
                    raise cyx.Untranslated("declaration")
                self.width[str(d.name)] = w
                if d.default is not None:
                    self.vars[str(d.name)] = self.e(d.default).to(w)
        elif k == "SingleAssignmentNode":
            self.assign(n.lhs, self.e(n.rhs))
        elif k == "InPlaceAssignmentNode":
            self.assign(n.lhs, self.op(n.operator, self.e(n.lhs), self.e(n.rhs)))
        elif k == "ReturnStatNode":
            self.ret = self.e(n.value).to(WIDTH[self.rtype])
        elif k == "PassStatNode" or k == "ExprStatNode" and cyx.cname(n.expr) in ("UnicodeNode", "StringNode", "BytesNode"):
            pass
        else:
            raise cyx.Untranslated("statement %s" % k)

    def assign(self, lhs, v):
        k = cyx.cname(lhs)
        if k == "NameNode" and str(lhs.name) in self.width:
            self.vars[str(lhs.name)] = v.to(self.width[str(lhs.name)])
        elif k == "IndexNode" and cyx.cname(lhs.base) == "NameNode" and str(lhs.base.name) == self.ptr and cyx.cname(lhs.index) == "IntNode":
            self.out[int(lhs.index.value, 0)] = v.to(32)
        else:
            raise cyx.Untranslated("assignment to %s" % k)

    def e(self, n):
        k = cyx.cname(n)
        if k == "NameNode":
            if str(n.name) not in self.vars:
                raise cyx.Untranslated("value of %s" % n.name)
            return self.vars[str(n.name)]
        if k == "IntNode":
            return literal(n.value + (n.unsigned or "") + (n.longness or ""))
        if k == "TypecastNode":
            return self.e(n.operand).to(WIDTH[cyx.basename(n.base_type)])
        if k == "IndexNode" and int(getattr(n.index, "value", "-1"), 0) in self.out:
            return self.out[int(n.index.value, 0)]
        if hasattr(n, "operand1"):
            return self.op(n.operator, self.e(n.operand1), self.e(n.operand2))
        raise cyx.Untranslated("expression %s" % k)

    def op(self, o, a, b):
        if o in ("<<", ">>"):
            s = b.to(a.w).e
            return Word(a.e << s if o == "<<" else z3.LShR(a.e, s), a.w)
        w = max(a.w, b.w)
        x, y = a.to(w).e, b.to(w).e
        f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "^": lambda: x ^ y, "&": lambda: x & y, "|": lambda: x | y}.get(o)
        if f is None:
            raise cyx.Untranslated("operator %s" % o)
        return Word(f(), w)


def function(stem, name):
    path = os.path.join(os.environ.get("VC_REPO", "/repo"), "thinc", stem + ".pyx")
    t = cyx.parse(open(path, encoding="utf8").read())
    for n in t.body.stats if hasattr(t, "body") else t.stats:
        if cyx.cname(n) == "CFuncDefNode":
            b = n.declarator
            while not hasattr(b, "name"):
                b = b.base
            if str(b.name) == name:
                return n
    raise cyx.Untranslated("no function %s in %s" % (name, stem))


# ------------------------------------------------------------ the published algorithm
class Ints:
    """the specification on Python integers"""
    def __init__(self, bits): self.m = (1 << bits) - 1; self.b = bits
    def mul(self, a, c): return a * c & self.m
    def add(self, a, b): return a + b & self.m
    def xor(self, a, b): return a ^ b
    def shr(self, a, k): return a >> k
    def rotl(self, a, k): return (a << k | a >> self.b - k) & self.m


class Vecs:
    """the specification on bit-vectors"""
    def __init__(self, bits): self.b = bits
    def v(self, a): return z3.BitVecVal(a, self.b) if isinstance(a, int) else a
    def mul(self, a, c): return self.v(a) * self.v(c)
    def add(self, a, b): return self.v(a) + self.v(b)
    def xor(self, a, b): return self.v(a) ^ self.v(b)
    def shr(self, a, k): return z3.LShR(a, k)
    def rotl(self, a, k): return z3.RotateLeft(a, k)


def fmix64(o, k):
    k = o.mul(o.xor(k, o.shr(k, 33)), 0xFF51AFD7ED558CCD)
    k = o.mul(o.xor(k, o.shr(k, 33)), 0xC4CEB9FE1A85EC53)
    return o.xor(k, o.shr(k, 33))


def murmur3_x64_128(o, key, seed):
    """MurmurHash3_x64_128 of the 8 bytes of key: no whole block, a tail of 8 bytes in k1; (h1, h2)"""
    k1 = o.mul(o.rotl(o.mul(key, 0x87C37B91114253D5), 31), 0x4CF5AD432745937F)
    h1, h2 = o.xor(seed, k1), seed
    h1, h2 = o.xor(h1, 8), o.xor(h2, 8)
    h1 = o.add(h1, h2)
    h2 = o.add(h2, h1)
    h1, h2 = fmix64(o, h1), fmix64(o, h2)
    h1 = o.add(h1, h2)
    return h1, o.add(h2, h1)


def murmur3_x86_32(o, lo, hi, seed):
    """MurmurHash3_x86_32 of 8 bytes: two blocks of 32 bits, no tail"""
    h = seed
    for k in (lo, hi):
        k = o.mul(o.rotl(o.mul(k, 0xCC9E2D51), 15), 0x1B873593)
        h = o.add(o.mul(o.rotl(o.xor(h, k), 13), 5), 0xE6546B64)
    h = o.xor(h, 8)
    h = o.mul(o.xor(h, o.shr(h, 16)), 0x85EBCA6B)
    h = o.mul(o.xor(h, o.shr(h, 13)), 0xC2B2AE35)
    return o.xor(h, o.shr(h, 16))


def hash128(key, seed):
    h1, h2 = murmur3_x64_128(Ints(64), key, seed)
    return [h1 & 0xFFFFFFFF, h1 >> 32, h2 & 0xFFFFFFFF, h2 >> 32]


def hash32(key, seed):
    return murmur3_x86_32(Ints(32), key & 0xFFFFFFFF, key >> 32, seed)


def equal(a, b, secs=60):
    """(proved, message)"""
    s = z3.SolverFor("QF_BV")
    s.set("timeout", secs * 1000)
    d = z3.simplify(a != b)
    if z3.is_false(d):
        return True, ""
    s.add(d)
    r = s.check()
    return str(r) == "unsat", "%s %s" % (r, s.model() if str(r) == "sat" else "")


def check_hash128(stem="backends/numpy_ops", name="MurmurHash3_x86_128_uint64"):
    """obligations (name, proved, message): every output word of the C function is the published hash's"""
    key, seed = z3.BitVec("key", 64), z3.BitVec("seed", 32)
    r = Run(function(stem, name), [Word(key, 64), Word(seed, 32), None])
    h1, h2 = murmur3_x64_128(Vecs(64), key, z3.ZeroExt(32, seed))
    want = [z3.Extract(31, 0, h1), z3.Extract(63, 32, h1), z3.Extract(31, 0, h2), z3.Extract(63, 32, h2)]
    out = [("writes exactly four words", sorted(r.out) == [0, 1, 2, 3], str(sorted(r.out)))]
    return out + [("word %d" % j,) + equal(r.out[j].e, want[j]) for j in range(4) if j in r.out]


def check_hash32(stem="layers/sparselinear", name="MurmurHash3_x86_32_uint64"):
    key, seed = z3.BitVec("key", 64), z3.BitVec("seed", 32)
    r = Run(function(stem, name), [Word(key, 64), Word(seed, 32)])
    return [("value",) + equal(r.ret.e, murmur3_x86_32(Vecs(32), z3.Extract(31, 0, key), z3.Extract(63, 32, key), seed))]
