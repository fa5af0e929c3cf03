"""Names available to the instrumented code: list type, loop rule, builtins, modules."""
import builtins, itertools, sys, types, functools
import numpy as real_np
import math as real_math
from . import terms as T
from . import tensor as X
from . import solve
from .engine import E, S, term, wrap, wrapb, Unsupported, Infeasible, is_sym, _ar
from .terms import Term


class _Break:
    pass


BREAK = _Break()


class Ret:
    def __init__(self, value):
        self.value = value


def unsupported(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ lists
class SList(list):
    """a list; `segs` is None while its contents are concrete, otherwise a list of
    ('items', [...]) and ('map', n, fn) segments"""

    def __init__(self, it=(), segs=None):
        if segs is not None:
            list.__init__(self)
            self.segs = segs
        elif type(it) is SList and it.segs is not None:
            list.__init__(self)
            self.segs = list(it.segs)
        elif isinstance(it, SymIter):
            list.__init__(self)
            self.segs = it.segments()
        else:
            list.__init__(self, it)
            self.segs = None

    @property
    def __class__(self):
        return list

    def segments(self):
        if self.segs is None:
            return [("items", list.__iter__(self))]
        return self.segs

    def nterm(self):
        if self.segs is None:
            return T.num(list.__len__(self))
        return T.add(*[T.num(len(s[1])) if s[0] == "items" else s[1] for s in self.segs])

    def elem(self, i: Term):
        """element at index i (0 <= i < n is the caller's obligation)"""
        if self.segs is None:
            if i.op == "num":
                return list.__getitem__(self, int(i.args[0]))
            n = list.__len__(self)
            for k in range(n - 1):
                if E.fork(T.eq(i, T.num(k))):
                    return list.__getitem__(self, k)
            return list.__getitem__(self, n - 1)
        off = T.ZERO
        for j, s in enumerate(self.segs):
            last = j == len(self.segs) - 1
            if s[0] == "items":
                for k, v in enumerate(s[1]):
                    here = T.add(off, T.num(k))
                    lastk = last and k == len(s[1]) - 1
                    if lastk or E.fork(T.eq(i, here)):
                        return v
                off = T.add(off, T.num(len(s[1])))
            else:
                if last or E.fork(T.lt(i, T.add(off, s[1]))):
                    return s[2](T.sub(i, off))
                off = T.add(off, s[1])
        raise IndexError("list index out of range")

    def _sym(self):
        return self.segs is not None

    def __iter__(self):
        if self._sym():
            if all(s[0] == "items" for s in self.segs):
                return iter([v for s in self.segs for v in s[1]])
            raise Unsupported("iteration over a list of symbolic length outside an instrumented loop")
        return list.__iter__(self)

    def __len__(self):
        if self._sym():
            n = self.nterm()
            if n.op == "num":
                return int(n.args[0])
            raise Unsupported("machine len() of a symbolic list")
        return list.__len__(self)

    def __bool__(self):
        if self._sym():
            return E.fork(T.gt(self.nterm(), T.ZERO))
        return list.__len__(self) > 0

    def __getitem__(self, k):
        if not self._sym():
            if isinstance(k, slice):
                if any(type(x) is S for x in (k.start, k.stop, k.step)):
                    return self._slice(k)
                return SList(list.__getitem__(self, k))
            if type(k) is S:
                return self.elem(X.norm_index(k, self.nterm()))
            return list.__getitem__(self, k)
        if isinstance(k, slice):
            return self._slice(k)
        return self.elem(X.norm_index(k, self.nterm()))

    def _slice(self, k):
        if k.step is not None and k.step == -1 and k.start is None and k.stop is None:
            return rev(self)
        if k.start is None and k.stop is None:
            return SList(self)
        a, ln, st = X.norm_slice(k, self.nterm())
        me = SList(self)
        # drop concrete prefix cheaply
        if me.segs is not None and a.op == "num" and k.stop is None:
            drop = int(a.args[0])
            out = []
            for s in me.segs:
                if drop and s[0] == "items":
                    m = min(drop, len(s[1]))
                    if m < len(s[1]):
                        out.append(("items", list(s[1])[m:]))
                    drop -= m
                elif drop:
                    f, d = s[2], drop
                    out.append(("map", T.sub(s[1], T.num(d)), (lambda f, d: lambda i: f(T.add(i, T.num(d))))(f, d)))
                    drop = 0
                else:
                    out.append(s)
            return SList(segs=out)
        return SList(segs=[("map", ln, lambda i: me.elem(T.add(i, a)))])

    def __setitem__(self, k, v):
        if type(k) is S and k.t.op == "num":
            k = int(k.t.args[0])
        if self._sym():
            if type(k) in (S, int) and len(self.segs) == 1 and self.segs[0][0] == "map":
                _, n, f = self.segs[0][:3]
                k = X.norm_index(k, n)
                self.segs = [("map", n, _store(f, k, v), ("store", self.segs[0], k, v))]
                return
            raise Unsupported("assignment into a symbolic list")
        if type(k) is S:
            k = X.norm_index(k, T.num(list.__len__(self)))
            for j in range(list.__len__(self)):
                if E.fork(T.eq(k, T.num(j))):
                    list.__setitem__(self, j, v)
                    return
            raise Infeasible()
        list.__setitem__(self, k, v)

    def append(self, v):
        if self._sym():
            if self.segs and self.segs[-1][0] == "items":
                self.segs = self.segs[:-1] + [("items", list(self.segs[-1][1]) + [v])]
            else:
                self.segs = self.segs + [("items", [v])]
        else:
            list.append(self, v)

    def extend(self, it):
        if type(it) is SList and it._sym() or self._sym() or isinstance(it, SymIter):
            o = it.segments() if isinstance(it, (SymIter,)) or type(it) is SList else [("items", list(it))]
            mine = self.segs if self._sym() else [("items", list(list.__iter__(self)))]
            o = [("items", list(s[1])) if s[0] == "items" else s for s in o]
            list.clear(self)
            self.segs = list(mine) + o
        else:
            list.extend(self, it)

    def insert(self, k, v):
        if self._sym():
            if k == 0:
                self.segs = [("items", [v])] + self.segs
                return
            raise Unsupported("insert")
        list.insert(self, k, v)

    def pop(self, k=-1):
        if self._sym():
            s = self.segs[-1] if self.segs else None
            if k == -1 and s and s[0] == "items" and len(s[1]):
                v = s[1][-1]
                self.segs = self.segs[:-1] + ([("items", s[1][:-1])] if len(s[1]) > 1 else [])
                return v
            raise Unsupported("pop from symbolic list")
        return list.pop(self, k)

    def __add__(self, o):
        r = SList(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(o)
        r.extend(self)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if type(k) is S and not self._sym() and list.__len__(self) == 1:
            v = list.__getitem__(self, 0)
            return SList(segs=[("map", k.t, lambda i: v)])
        if self._sym():
            raise Unsupported("list * int")
        return SList(list.__mul__(self, k))

    __rmul__ = __mul__

    def __reversed__(self):
        return iter(rev(self)) if self._sym() else list.__reversed__(self)

    def __eq__(self, o):
        if self._sym() or (type(o) is SList and o._sym()):
            raise Unsupported("comparison of symbolic lists")
        return list.__eq__(self, o)

    def __contains__(self, v):
        if self._sym():
            raise Unsupported("membership in symbolic list")
        for x in list.__iter__(self):
            if x is v or x == v:
                return True
        return False

    def index(self, v, *a):
        if self._sym():
            raise Unsupported("index")
        return list.index(self, v, *a)

    def copy(self):
        return SList(self)

    def clear(self):
        list.clear(self)
        self.segs = None

    def __repr__(self):
        return "<SList %s>" % (self.segs if self._sym() else list.__repr__(self))

    __hash__ = None


def _store(f, k, v):
    def at(i):
        c = T.eq(i, k)
        if c in (T.TRUE, T.FALSE):
            return v if c is T.TRUE else f(i)
        old = f(i)
        if isinstance(v, (int, float, S)) and isinstance(old, (int, float, S)):
            return wrap(T.ite(c, term(v), term(old)))
        return v if E.fork(c) else old

    return at


def mklist(it):
    return SList(it)


def symlist(n, fn):
    """list of symbolic length n with element function fn(index term)"""
    return SList(segs=[("map", term(n), fn)])


class SymIter:
    """iterable with segments: ('items', iterator) / ('map', n, fn)"""

    def __init__(self, segs):
        self.segs = segs
        self.used = False

    def segments(self):
        return self.segs

    def __iter__(self):
        out = []
        for s in self.segs:
            if s[0] != "items":
                raise Unsupported("iteration over symbolic iterable outside an instrumented loop")
            out += list(s[1])
        return iter(out)

    def nterm(self):
        return SList(segs=[("items", list(s[1])) if s[0] == "items" else s for s in self.segs]).nterm()


def symiter(it):
    """does iterating need the loop rule?"""
    if type(it) is SList:
        return it.segs is not None and any(s[0] == "map" for s in it.segs)
    if isinstance(it, SymIter):
        return any(s[0] == "map" for s in it.segs)
    if X.is_t(it):
        return it.dims[0].op != "num"
    return False


def iterable(it):
    if hasattr(type(it), "__vc_iter__"):
        return it.__vc_iter__()
    return it


def segs_of(it):
    if type(it) is SList or isinstance(it, SymIter):
        return it.segments()
    if X.is_t(it):
        if it.dims[0].op == "num":
            return [("items", [it[k] for k in range(int(it.dims[0].args[0]))])]
        return [("map", it.dims[0], lambda i: X.getitem(it, S(i)) if False else _row(it, i))]
    if hasattr(type(it), "__vc_iter__"):
        return segs_of(it.__vc_iter__())
    return [("items", list(it))]


def _row(t, i):
    """t[i] for an in-range symbolic i"""
    if t.ndim == 1:
        return S(t.cell(i)) if t.cell(i).op != "num" else wrap(t.cell(i))
    f, g = t.fwd, t.inv

    def inv(J):
        c, s = g(J)
        return T.and_(c, T.eq(s[0], i)), s[1:]

    r = X.SymTensor(t.st, t.dims[1:], lambda idx: f((i,) + tuple(idx)), inv, t.dtype)
    r.contig = t.contig
    return r


def rev(it):
    segs = segs_of(it)
    out = []
    for s in reversed(list(segs)):
        if s[0] == "items":
            out.append(("items", list(s[1])[::-1]))
        else:
            n, f = s[1], s[2]
            out.append(("map", n, (lambda n, f: lambda i: f(T.sub(T.sub(n, T.ONE), i)))(n, f)))
    return SymIter(out)


def as_slist(it):
    if type(it) is SList:
        return it
    return SList(segs=[("items", list(s[1])) if s[0] == "items" else s for s in segs_of(it)])


# ------------------------------------------------------------------ comprehension
def _pure(fn):
    return fn


def listcomp(it, f, conds):
    if conds:
        return _filtered(it, f, conds)
    out = []
    for s in segs_of(it):
        if s[0] == "items":
            out.append(("items", [f(v) for v in s[1]]))
        else:
            g = s[2]
            out.append(("map", s[1], _lazy(g, f, s[1])))
    return SList(segs=out)


def _lazy(g, f, n):
    """element function of a comprehension: body re-evaluated at the index; must not have side effects"""
    # evaluate once at a generic index to surface exceptions and check purity
    i = T.fresh("i", "I")
    T.RANGE[i] = n
    snap = Snapshot([f, g])
    n0 = len(E.solver.pc)
    if E.fork(T.gt(n, T.ZERO)):
        E.solver.pc.append(T.ge(i, T.ZERO))
        E.solver.pc.append(T.lt(i, n))
        f(g(i))
        if snap.changed():
            raise Unsupported("comprehension body with side effects")
    cache = RunCache()

    def at(j):
        if j.id not in cache:
            cache[j.id] = (j, f(g(j)))
        return cache[j.id][1]

    return at


def _filtered(it, f, conds):
    out = []
    for s in segs_of(it):
        if s[0] == "items":
            out.append(("items", [f(v) for v in s[1] if all(c(v) for c in conds)]))
        else:
            n, g = s[1], s[2]
            i = T.fresh("i", "I")
            T.RANGE[i] = n
            n0 = len(E.solver.pc)
            E.solver.pc += [T.ge(i, T.ZERO), T.lt(i, n)]
            try:
                v = g(i)
                c = T.and_(*[_bt(c(v)) for c in conds])
                always = E.solver.entails(c)
                never = (not always) and E.solver.entails(T.not_(c))
            finally:
                del E.solver.pc[n0:]
            if always:
                out.append(("map", n, _lazy(g, f, n)))
            elif never:
                pass
            else:
                out.append(_kept(n, g, f, c, i))
    return SList(segs=out)


def _kept(n, g, f, c, i):
    """the elements g(j), j < n, with c(j), in order: the k-th one is the element at an unknown position pos(k);
    the segment remembers where it comes from, for operations that do not depend on the positions"""
    count = T.tsum(i, T.ZERO, n, T.iv(c))
    pos = T.fresh("kept", "O")
    solve.FACTS[pos] = lambda s, idx: T.and_(T.ge(s, T.ZERO), T.lt(s, n), T.subst(c, {i: s}))
    return ("map", count, lambda k: f(g(T.sel(pos, k, sort="I"))), (n, lambda j: f(g(j)), c, i))


def _bt(x):
    if type(x) is S and x.t.sort == "B":
        return x.t
    return T.TRUE if x else T.FALSE


def genexp(it, f, conds):
    r = listcomp(it, f, conds)
    return SymIter(r.segs)


# ------------------------------------------------------------------ heap snapshots
_ATOM = (str, bytes, int, float, complex, bool, type(None), types.ModuleType, type, types.BuiltinFunctionType)
PKG = "thinc."


def _children(o):
    if type(o) is SList:
        if o.segs is None:
            return list(list.__iter__(o))
        return [v for s in o.segs if s[0] == "items" for v in s[1]]
    if type(o) in (list, tuple, set, frozenset):
        return list(o)
    if type(o) is dict:
        return list(o.values())
    if isinstance(o, types.FunctionType):
        out = []
        for c in o.__closure__ or ():
            try:
                out.append(c.cell_contents)
            except ValueError:
                pass
        return out
    if isinstance(o, types.MethodType):
        return [o.__self__, o.__func__]
    if isinstance(o, functools.partial):
        return [o.func] + list(o.args) + list(o.keywords.values())
    if X.is_t(o):
        return []
    return _attrs(o)


def _attrs(o):
    t = type(o)
    if t is S or t is Term:
        return []
    if not (t.__module__ or "").startswith(("thinc", "contracts", "vc.model", "__main__")):
        return []
    out = []
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        out += list(d.values())
    for c in t.__mro__:
        for s in c.__dict__.get("__slots__", ()):
            if isinstance(s, str):
                try:
                    out.append(object.__getattribute__(o, s))
                except AttributeError:
                    pass
    return out


class Snapshot:
    """contents of every mutable object reachable from roots"""

    def __init__(self, roots):
        self.objs = []
        seen = set()
        stack = list(roots)
        while stack:
            o = stack.pop()
            if isinstance(o, _ATOM) and type(o) is not S and not X.is_t(o) and type(o) is not SList or id(o) in seen:
                continue
            if isinstance(o, real_np.ndarray) and not X.is_t(o):
                continue
            seen.add(id(o))
            if len(seen) > 5000:
                break
            if X.is_t(o):
                if id(o.st) not in seen:
                    seen.add(id(o.st))
                    self.objs.append(("tensor", o.st, o.st.content))
                continue
            if type(o) is SList:
                self.objs.append(("list", o, (o.segs, list(list.__iter__(o)))))
            elif type(o) is dict:
                self.objs.append(("dict", o, dict(o)))
            elif type(o) is list:
                self.objs.append(("plist", o, list(o)))
            elif type(o) is set:
                self.objs.append(("set", o, set(o)))
            elif isinstance(o, types.FunctionType):
                for c in o.__closure__ or ():
                    if id(c) not in seen:
                        seen.add(id(c))
                        try:
                            self.objs.append(("cell", c, c.cell_contents))
                        except ValueError:
                            self.objs.append(("cell", c, _EMPTY))
            else:
                st = _state(o)
                if st is not None:
                    self.objs.append(("obj", o, st))
            stack.extend(_children(o))

    def diff(self):
        out = []
        for kind, o, old in self.objs:
            if kind == "tensor":
                if o.content is not old:
                    out.append((kind, o, None))
            elif kind == "list":
                if o.segs is not old[0] or len(list(list.__iter__(o))) != len(old[1]) or any(
                    a is not b for a, b in zip(list.__iter__(o), old[1])
                ):
                    out.append((kind, o, None))
            elif kind == "dict":
                for k in set(o) | set(old):
                    if k not in o or k not in old or o[k] is not old[k]:
                        out.append((kind, o, k))
            elif kind == "plist":
                if len(o) != len(old) or any(a is not b for a, b in zip(o, old)):
                    out.append((kind, o, None))
            elif kind == "set":
                if o != old:
                    out.append((kind, o, None))
            elif kind == "cell":
                try:
                    c = o.cell_contents
                except ValueError:
                    c = _EMPTY
                if c is not old:
                    out.append((kind, o, None))
            else:
                new = _state(o)
                for k in set(new) | set(old):
                    if k not in new or k not in old or new[k] is not old[k]:
                        out.append((kind, o, k))
        return out

    def changed(self):
        return bool([d for d in self.diff() if d[0] != "cell"])

    def restore(self):
        for kind, o, old in self.objs:
            if kind == "tensor":
                o.content = old
            elif kind == "list":
                if o.segs is not old[0] or list(list.__iter__(o)) != old[1]:
                    list.clear(o)
                    list.extend(o, old[1])
                    o.segs = old[0]
            elif kind == "dict":
                if any(k not in old or o[k] is not old[k] for k in o) or len(o) != len(old):
                    o.clear()
                    o.update(old)
            elif kind == "plist":
                if len(o) != len(old) or any(a is not b for a, b in zip(o, old)):
                    o[:] = old
            elif kind == "set":
                if o != old:
                    o.clear()
                    o.update(old)
            elif kind == "cell":
                if old is _EMPTY:
                    try:
                        del o.cell_contents
                    except ValueError:
                        pass
                else:
                    o.cell_contents = old
            else:
                _set_state(o, old)


class _Empty:
    pass


_EMPTY = _Empty()


def _state(o):
    t = type(o)
    if t is S or t is Term or not (t.__module__ or "").startswith(("thinc", "contracts", "vc.model", "__main__")):
        return None
    st = {}
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        st.update(d)
    for c in t.__mro__:
        sl = c.__dict__.get("__slots__", ())
        for s in ([sl] if isinstance(sl, str) else sl):
            try:
                st[s] = object.__getattribute__(o, s)
            except AttributeError:
                pass
    return st


def _set_state(o, st):
    cur = _state(o)
    for k, v in st.items():
        if k not in cur or cur[k] is not v:
            object.__setattr__(o, k, v)
    for k in cur:
        if k not in st:
            object.__delattr__(o, k)


# ------------------------------------------------------------------ value codec
class Codec:
    """value <-> (skeleton, terms)"""

    def __init__(self, known):
        self.known = known  # id(object) -> object existing before the iteration

    def enc(self, v, depth=0):
        if type(v) is S:
            s = v.t.sort
            return ("s", "R" if s == "R" else "I" if s in "IN" else s), [v.t]
        if isinstance(v, bool):
            return ("s", "B"), [T.TRUE if v else T.FALSE]
        if X.is_t(v):
            if id(v) in self.known:
                return ("same", id(v)), []
            return ("tensor", v.ndim, v.dtype), list(v.dims) + [v.lam()]
        if type(v) is int:
            return ("s", "I"), [T.num(v)]
        if type(v) is float:
            return ("s", "R"), [term(v)]
        if isinstance(v, real_np.generic):
            return self.enc(v.item())
        if v is None or isinstance(v, (str, bytes, type)):
            return ("const", v), []
        h = getattr(type(v), "__vc_enc__", None)
        if h is not None:
            return h(v, self)
        if id(v) in self.known:
            return ("same", id(v)), []
        if type(v) is tuple:
            parts = [self.enc(x, depth + 1) for x in v]
            return ("tuple", tuple(p[0] for p in parts)), [t for p in parts for t in p[1]]
        if isinstance(v, types.FunctionType) or isinstance(v, types.MethodType):
            return ("opaque", object()), []
        st = _state(v)
        if st is not None and depth < 4:
            ks = sorted(st)
            parts = [self.enc(st[k], depth + 1) for k in ks]
            return ("obj", type(v), tuple(ks), tuple(p[0] for p in parts)), [t for p in parts for t in p[1]]
        return ("opaque", object()), []

    def sorts(self, skel):
        k = skel[0]
        if k == "s":
            return [skel[1]]
        if k == "tensor":
            return ["I"] * skel[1] + ["O"]
        if k == "tuple":
            return [s for p in skel[1] for s in self.sorts(p)]
        if k == "obj":
            return [s for p in skel[3] for s in self.sorts(p)]
        if k == "custom":
            return list(skel[2])
        return []

    def dec(self, skel, ts):
        ts = list(ts)
        return self._dec(skel, ts)

    def _dec(self, skel, ts):
        k = skel[0]
        if k == "s":
            t = ts.pop(0)
            return wrap(t)
        if k == "const":
            return skel[1]
        if k == "same":
            return self.known[skel[1]]
        if k == "tensor":
            d = [ts.pop(0) for _ in range(skel[1])]
            return X.from_lam(ts.pop(0), [S(x) for x in d], skel[2])
        if k == "tuple":
            return tuple(self._dec(p, ts) for p in skel[1])
        if k == "obj":
            o = skel[1].__new__(skel[1])
            for name, p in zip(skel[2], skel[3]):
                object.__setattr__(o, name, self._dec(p, ts))
            return o
        if k == "elist":
            return SList()
        if k == "custom":
            n = len(skel[2])
            vals = [ts.pop(0) for _ in range(n)]
            return skel[1](vals)
        raise Unsupported("loop-carried value of unknown kind")


def joinskel(a, b):
    if a == b:
        return a
    if a[0] == "s" and b[0] == "s":
        if {a[1], b[1]} == {"I", "R"}:
            return ("s", "R")
    if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
        ps = [joinskel(x, y) for x, y in zip(a[1], b[1])]
        if all(p is not None for p in ps):
            return ("tuple", tuple(ps))
    if a[0] == b[0] == "tensor" and a[1] == b[1]:
        return a
    if a[0] == b[0] == "obj" and a[1] is b[1] and a[2] == b[2]:
        ps = [joinskel(x, y) for x, y in zip(a[3], b[3])]
        if all(p is not None for p in ps):
            return ("obj", a[1], a[2], tuple(ps))
    return None


# ------------------------------------------------------------------ the loop rule
class _Poison:
    """value of a local an iteration must overwrite before reading"""

    def _no(self, *a, **k):
        raise Unsupported("loop-carried value of unknown kind")

    __call__ = __getattr__ = __getitem__ = __bool__ = __iter__ = __add__ = __eq__ = __len__ = _no
    __hash__ = object.__hash__


POISON = _Poison()


class RunCache(dict):
    """memo of re-executed iterations (not program state)"""


class _Loc:
    """a modified location"""

    def __init__(self, kind, obj, key):
        self.kind, self.obj, self.key = kind, obj, key

    def ident(self):
        return (self.kind, id(self.obj) if self.obj is not None else None, self.key)


class LoopRun:
    def __init__(self, key, n, elem, body, get, set_, names):
        self.key, self.n, self.elem = key, n, elem
        self.body, self.get, self.set, self.names = body, get, set_, names


class NeedPeel(Exception):
    pass


def forloop(key, it, body, get, set_, names):
    for s in list(segs_of(it)):
        if s[0] == "items":
            for v in list(s[1]):
                r = body(v)
                if r is BREAK or isinstance(r, Ret):
                    return r
        else:
            r = _run_segment(key, s[1], s[2], body, get, set_, names)
            if r is BREAK or isinstance(r, Ret):
                return r
    return None


def _run_segment(key, n, elem, body, get, set_, names):
    if any(x.op == "app" and x.args[0] == "fdiv" for x in _subterms(n)):
        for k in range(3 if E.solver.entails(T.le(n, T.num(2))) else 0):
            if E.fork(T.eq(n, T.num(k))):
                # so few iterations that they are executed one by one
                for j in range(k):
                    r = body(elem(T.num(j)))
                    if r is BREAK or isinstance(r, Ret):
                        return r
                return None
    for peel in range(4):
        if peel == 0 and E.nested and _surviving(names) is not names and E.solver.entails(T.ge(n, T.ZERO)):
            try:
                return summarise(key, n, elem, body, get, set_, names)  # also right for n == 0
            except NeedPeel:
                pass
        if not E.fork(T.gt(n, T.ZERO)):
            return None
        try:
            return summarise(key, n, elem, body, get, set_, names)
        except NeedPeel:
            r = body(elem(T.ZERO))
            if r is BREAK or isinstance(r, Ret):
                return r
            n = T.sub(n, T.ONE)
            elem = (lambda f: lambda i: f(T.add(i, T.ONE)))(elem)
    raise Unsupported("loop state has no fixed shape: " + key)


def _closure_vals(fn):
    out = []
    for c in fn.__closure__ or ():
        try:
            out.append(c.cell_contents)
        except ValueError:
            pass
    return out


LOOP_DEPTH = [0]


def _own_empty(v, name, locs, body):
    """an empty list that only this local variable refers to"""
    if type(v) is not SList or v.segs is not None and v.segs or list.__len__(v):
        return False
    others = [x for k, x in locs.items() if k != name]
    cells = []
    for k, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
        if k != name:
            try:
                cells.append(c.cell_contents)
            except ValueError:
                pass
    return not any(x is v for x in _walk_values(others + cells))


def _surviving(names):
    """variables whose value survives an iteration: those of C code declared inside the loop body do not"""
    mk = [int(x[3:]) for x in names if x.startswith("_mk") and x[3:].isdigit()]
    if not mk:
        return names
    d = min(mk)
    out = []
    for x in names:
        if x.startswith("_mk"):
            continue
        p = x.rpartition("_vl")
        if p[1] and p[2].isdigit() and int(p[2]) >= d:
            continue
        out.append(x)
    return out


LIFTED = [[]]


class _Changes(list):
    """changes made by one path through a loop body, and the facts its inner loops established"""


def _after(m, live, at):
    (q,) = m.values()
    tf = at(q)
    for ident, st in live.items():
        for k, sym in enumerate(st["syms"]):
            m[sym] = tf(ident)[k]
    return m


def _told(facts):
    """facts (variables, ranges, g): g holds for all values of the variables in their ranges.  Inside another loop
    they are left for it; otherwise they become path-condition entries, instantiated at the cells a query mentions"""
    for qs, ns, g in facts:
        if E.nested:
            LIFTED[0].append((qs, ns, g))
            continue
        got = set()
        for c in _subterms(g):
            if c.op == "app" and c.args[0] == "sel" and all(sum(x is q for x in c.args[2:]) == 1 for q in qs):
                key = (c.args[1],) + tuple(c.args[2:])
                if key not in got:
                    got.add(key)
                    E.solver.pc.append(solve.forall_cells(c.args[1], qs, g, ns, pat=tuple(c.args[2:])))


def summarise(key, n, elem, body, get, set_, names, head=None):
    """closed form of the loop state by solving the recurrences of one generic iteration"""
    names = _surviving(names)
    locals0 = get()
    roots = list(locals0.values()) + _closure_vals(body) + [elem]
    snap = Snapshot(roots)
    known = {id(o): o for k, o, _ in snap.objs if k != "tensor"}
    for v in _walk_values(roots):
        known[id(v)] = v
    codec = Codec(known)
    i = T.fresh("i", "I")
    T.RANGE[i] = n
    state = {}  # ident -> dict(loc, skel, init terms, syms)
    lists = {}  # id(list) -> list object appended to
    stores = {}  # id(list) -> (list object, its length): written once per iteration, at the iteration's index, never read
    hinted = {}
    rng = [T.ge(i, T.ZERO), T.lt(i, n)]

    def snapshot_restore():
        snap.restore()
        set_(locals0)

    def install(terms_of):
        """put the loop state described by terms_of(ident)->terms into place"""
        d = {}
        for ident, st in state.items():
            loc = st["loc"]
            if st.get("opaque"):
                if loc.kind == "local":
                    d[loc.key] = POISON
                continue
            ts = terms_of(ident)
            if loc.kind == "local":
                d[loc.key] = codec.dec(st["skel"], ts)
            elif loc.kind == "tensor":
                loc.obj.content = ts[0]
            elif loc.kind == "obj":
                object.__setattr__(loc.obj, loc.key, codec.dec(st["skel"], ts))
            elif loc.kind == "dict":
                loc.obj[loc.key] = codec.dec(st["skel"], ts)
        set_(d)

    def run_once():
        snapshot_restore()
        install(lambda ident: fixed.get(ident) or state[ident]["syms"])
        for l, m in stores.values():
            l.segs = [("map", m, _unread)]
        before = get()
        snap2 = Snapshot(list(before.values()) + _closure_vals(body) + [elem])
        r = None
        exc = None
        try:
            r = body(elem(i))
        except Exception as e:
            if isinstance(e, Unsupported):
                raise
            exc = e
        after = get()
        changes = []
        for name in names:
            if name in after and (name not in before or before[name] is not after[name]):
                changes.append((_Loc("local", None, name), after[name]))
        for kind, o, k in snap2.diff():
            if kind == "cell":
                continue
            if kind == "tensor":
                changes.append((_Loc("tensor", o, None), o.content))
            elif kind == "obj":
                st = _state(o)
                changes.append((_Loc("obj", o, k), st.get(k, _EMPTY)))
            elif kind == "dict":
                changes.append((_Loc("dict", o, k), o.get(k, _EMPTY)))
            elif kind == "list":
                changes.append((_Loc("list", o, None), None))
            else:
                raise Unsupported("loop changes a %s" % kind)
        return r, exc, changes, snap2

    fixed = {}  # ident -> closed-form terms at iteration i, known from a first analysis
    pre_closed = None
    attempt = 0
    while True:
        attempt += 1
        if attempt > 14:
            raise Unsupported("loop analysis did not stabilise: " + key)
        n0 = len(E.solver.pc)
        E.solver.pc += rng
        try:
            outs = []

            def once():
                above, LIFTED[0] = LIFTED[0], []
                try:
                    r, exc, changes, snap2 = run_once()
                    enc = _Changes()
                    enc.lifted = LIFTED[0]
                finally:
                    LIFTED[0] = above
                cod = Codec(dict(known))
                for loc, val in changes:
                    if loc.kind == "list":
                        own = [q for q in state.values() if q["skel"] == ("elist",)]
                        if own and id(loc.obj) not in known:
                            if any(get().get(q["loc"].key) is loc.obj for q in own):
                                raise Unsupported("list kept across iterations")
                            continue  # the temporary list of this iteration
                        old = [x for k, o, x in snap2.objs if o is loc.obj][0]
                        st = _stored(loc.obj, old)
                        if st is not None:
                            if st[0] is not i:
                                raise Unsupported("list element written at %s in iteration %s" % (T.show(st[0]), T.show(i)))
                            if id(loc.obj) not in stores:
                                stores[id(loc.obj)] = (loc.obj, old[0][0][1])
                                raise _Again()
                            enc.append((loc, "store", [st[1]]))
                            continue
                        if id(loc.obj) in stores:
                            raise Unsupported("list changed other than by one store per iteration")
                        enc.append((loc, "append", _appended(loc.obj, old)))
                    elif loc.kind == "tensor":
                        enc.append((loc, ("content",), [val]))
                    elif val is _EMPTY:
                        raise Unsupported("loop deletes an attribute")
                    elif loc.kind == "local" and _own_empty(val, loc.key, get(), body):
                        enc.append((loc, ("elist",), []))
                    else:
                        sk, ts = cod.enc(val)
                        enc.append((loc, sk, ts))
                return r, exc, enc

            LOOP_DEPTH[0] += 1
            try:
                paths = E.subexplore(once)
            except _Again:
                continue
            finally:
                LOOP_DEPTH[0] -= 1
                snapshot_restore()
        finally:
            del E.solver.pc[n0:]
        again = False
        for pc, (r, exc, enc) in paths:
            if exc is not None or r is BREAK or isinstance(r, Ret):
                continue
            for loc, sk, ts in enc:
                ident = loc.ident()
                if sk == "append":
                    lists[id(loc.obj)] = loc.obj
                    continue
                if sk == "store":
                    continue
                if ident not in state:
                    again = True
                    ini = _initial(loc, locals0, snap)
                    if ini is _EMPTY and sk[0] == "opaque" and loc.kind == "local":
                        state[ident] = dict(loc=loc, skel=sk, init=None, syms=None, opaque=True)
                        continue
                    if ini is _EMPTY:
                        # defined only inside the loop: loop-local, no initial value
                        state[ident] = dict(loc=loc, skel=sk, init=None)
                        state[ident]["syms"] = _symfor(codec, sk, loc)
                        continue
                    isk, its = (("content",), [ini]) if loc.kind == "tensor" else codec.enc(ini)
                    if sk == ("elist",) and _own_empty(ini, loc.key, locals0, body):
                        isk, its = sk, []
                    j = sk if loc.kind == "tensor" else joinskel(isk, sk)
                    if j is None:
                        if sk[0] == "same" or isk[0] in ("const", "opaque", "same") or isk[0] != sk[0]:
                            if _overwritten_first(sk):
                                state[ident] = dict(loc=loc, skel=sk, init=None)
                                state[ident]["syms"] = None
                                state[ident]["opaque"] = True
                                continue
                            raise NeedPeel()
                        raise NeedPeel()
                    if j[0] == "opaque":
                        state[ident] = dict(loc=loc, skel=j, init=None, syms=None, opaque=True)
                        continue
                    state[ident] = dict(loc=loc, skel=j, init=its)
                    state[ident]["syms"] = _symfor(codec, j, loc)
                    if loc.kind == "local" and loc.key in INVARIANTS and len(its) == 1:
                        h = INVARIANTS[loc.key](_scope(body, locals0))
                        if h is not None:
                            hinted[(ident, 0)] = (lambda h: lambda x: term(h(wrap(x))))(h)
                            fixed[ident] = [hinted[(ident, 0)](i)]
                else:
                    st = state[ident]
                    if st.get("opaque"):
                        continue
                    if st["skel"] != sk and loc.kind != "tensor":
                        j = joinskel(st["skel"], sk)
                        if j is None:
                            raise NeedPeel()
                        if j != st["skel"]:
                            st["skel"] = j
                            st["syms"] = _symfor(codec, j, loc)
                            again = True
        # opaque locations (closures etc.) cannot be given a symbolic value: remove from state install
        if again:
            for ident, st in list(state.items()):
                if st.get("opaque"):
                    st["syms"] = None
            _install_opaque_guard(state)
            continue

        normal = [(pc, enc) for pc, (r, exc, enc) in paths if exc is None and r is None]
        early = [(pc, r, exc) for pc, (r, exc, enc) in paths if exc is not None or r is BREAK or isinstance(r, Ret)]
        for pc, (r, exc, enc) in paths:
            if exc is None and r is not None and r is not BREAK and not isinstance(r, Ret):
                raise Unsupported("loop body returned %r" % (r,))
        if not normal:
            # every iteration leaves: run the first one for real
            return body(elem(T.ZERO))

        # merged transition
        comps = {}  # (ident, k) -> new term
        live = {k: st for k, st in state.items() if not st.get("opaque")}
        for ident, st in live.items():
            for k, sym in enumerate(st["syms"]):
                val = None
                for pc, enc in reversed(normal):
                    new = fixed[ident][k] if ident in fixed else sym
                    for loc, sk, ts in enc:
                        if loc.ident() == ident:
                            new = ts[k]
                    val = new if val is None else T.ite(pc, new, val)
                comps[(ident, k)] = val
        for (ident, k), h in hinted.items():
            # the stated invariant holds before the loop and is preserved by every path through the body
            E.prove(T.eq(h(T.ZERO), live[ident]["init"][k]), key + ": invariant of %s holds on entry" % live[ident]["loc"].key)
            E.solver.pc += rng
            try:
                for pc, enc in normal:
                    m0 = len(E.solver.pc)
                    E.solver.pc.append(pc)
                    new = fixed[ident][k]
                    for loc, sk, ts in enc:
                        if loc.ident() == ident:
                            new = ts[k]
                    E.prove(T.eq(h(T.add(i, T.ONE)), new), key + ": invariant of %s is preserved" % live[ident]["loc"].key)
                    del E.solver.pc[m0:]
            finally:
                del E.solver.pc[n0:]
        if hinted and pre_closed is None:
            pre_closed = dict(hinted)
        if pre_closed is None and len(paths) > 1:
            # first analysis: closed forms of counters and accumulators that do not need the rest of the state
            part = solve_recurrences(live, comps, i, n, partial=True)
            used = set()
            for pc, _ in paths:
                used |= T.fv(pc)
            fix = {}
            for ident, st in live.items():
                if st["init"] is not None and st["syms"] and all((ident, k) in part for k in range(len(st["syms"]))):
                    if any(x in used for x in st["syms"]):
                        fix[ident] = [part[(ident, k)](i) for k in range(len(st["syms"]))]
            pre_closed = {(ident, k): part[(ident, k)] for ident in fix for k in range(len(fix[ident]))}
            if fix:
                # second analysis with these values in place: branches they decide disappear
                fixed.update(fix)
                continue
        closed = solve_recurrences({k: v for k, v in live.items()}, comps, i, n, known=pre_closed or {})
        break

    def at(x):
        """terms of every state component after x iterations"""
        def f(ident):
            st = state[ident]
            return [closed[(ident, k)](x) for k in range(len(st["syms"]))]
        return f

    def install_at(x):
        snapshot_restore()
        d = {}
        tf = at(x)
        for ident, st in state.items():
            if st.get("opaque"):
                if st["loc"].kind == "local":
                    d[st["loc"].key] = POISON
                continue
            if st["init"] is None and x is T.ZERO:
                continue
            loc = st["loc"]
            ts = tf(ident)
            if loc.kind == "local":
                d[loc.key] = codec.dec(st["skel"], ts)
            elif loc.kind == "tensor":
                loc.obj.content = ts[0]
            elif loc.kind == "obj":
                object.__setattr__(loc.obj, loc.key, codec.dec(st["skel"], ts))
            elif loc.kind == "dict":
                loc.obj[loc.key] = codec.dec(st["skel"], ts)
        set_(d)

    # early exits: one arbitrary iteration whose path leaves
    if early:
        c = E.choose(1 + len(early), "leave " + key)
        if c > 0:
            pc, r, exc = early[c - 1]
            j = T.fresh("i", "I")
            T.RANGE[j] = n
            E.solver.pc += [T.ge(j, T.ZERO), T.lt(j, n)]
            install_at(j)
            # state symbols in the path condition are replaced by the state at j
            m = {i: j}
            tf = at(j)
            for ident, st in live.items():
                for k, sym in enumerate(st["syms"]):
                    m[sym] = tf(ident)[k]
            E.assume(T.subst(pc, m))
            if E.solver.check([], 3000) == "unsat":
                raise Infeasible()
            r = body(elem(j))
            if r is None:
                raise Infeasible()  # (the path condition says that this iteration leaves)
            return r
        else:
            # all iterations took a normal path
            q = T.fresh("q", "I")
            _told(((q,), (n,), T.subst(T.not_(pc), _after({i: q}, live, at))) for pc, r, exc in early)
    inner = [(pc, f) for pc, enc in normal for f in enc.lifted]
    if inner:
        # what the loops inside a normal iteration established about all of theirs
        q = T.fresh("q", "I")
        m = _after({i: q}, live, at)
        for pc, (qs, ns, g) in inner:
            g = g if len(normal) == 1 else T.or_(T.not_(pc), g)
            _told([((q,) + qs, (n,) + tuple(T.subst(d, m) for d in ns), T.subst(g, m))])
    # appended lists
    appended, conditional = {}, {}
    for lid, lst in lists.items():
        counts = set()
        for pc, enc in normal:
            k = 0
            for loc, sk, ts in enc:
                if sk == "append" and loc.obj is lst:
                    k = len(ts)
            counts.add(k)
        if counts == {0, 1}:
            conditional[lid] = lst
            appended[lid] = (lst, 0)
            continue
        if len(counts) != 1:
            raise Unsupported("conditional append in a symbolic loop")
        appended[lid] = (lst, counts.pop())

    def filtered(lst):
        """segment of the values appended by the iterations that append"""
        val, cond = None, T.FALSE
        for pc, enc in normal:
            vs = [ts for loc, sk, ts in enc if sk == "append" and loc.obj is lst]
            if vs and len(vs[0]):
                v = vs[0][0]
                if not isinstance(v, (int, float, S)):
                    raise Unsupported("conditional append of an object")
                v = term(v)
                cond = T.or_(cond, pc)
                val = v if val is None else T.ite(pc, v, val)

        def put(t, x):
            m = {i: x}
            tf = at(x)
            for ident, st in live.items():
                for k, sym in enumerate(st["syms"]):
                    m[sym] = tf(ident)[k]
            return T.subst(t, m)

        q = T.fresh("i", "I")
        T.RANGE[q] = n
        return _kept(n, lambda x: x, lambda x: wrap(put(val, x)), put(cond, q), q)

    runs = RunCache()

    def element(lst, q, x):
        """q-th value appended to lst by iteration x"""
        if x.id not in runs:
            outer = Snapshot(roots + list(get().values()))
            cur = get()
            try:
                install_at(x)
                base = {lid: _contents(l) for lid, (l, _) in appended.items()}
                body(elem(x))
                runs[x.id] = (x, {lid: _appended(l, base[lid]) for lid, (l, _) in appended.items()})
            finally:
                outer.restore()
                set_(cur)
        return runs[x.id][1][id(lst)][q]

    for loc_obj, m in stores.values():
        if any(not any(sk == "store" and loc.obj is loc_obj for loc, sk, ts in enc) for pc, enc in normal):
            raise Unsupported("conditional store into a symbolic list")

    def stored(lst):
        """the value written at iteration x"""
        vals = []
        for pc, enc in normal:
            v = [ts[0] for loc, sk, ts in enc if sk == "store" and loc.obj is lst][0]
            if not isinstance(v, (int, float, S)):
                raise Unsupported("loop stores objects into a list")
            vals.append((pc, enc, term(v)))
        for (ident, k), h in hinted.items():
            if all(v is ([ts[k] for loc, sk, ts in enc if loc.ident() == ident] or [fixed[ident][k]])[0] for pc, enc, v in vals):
                return lambda x: wrap(h(T.add(x, T.ONE)))  # what the invariant says after the iteration
        val = None
        for pc, enc, v in reversed(vals):
            val = v if val is None else T.ite(pc, v, val)

        def f(x):
            m = {i: x}
            tf = at(x)
            for ident, st in live.items():
                for k, sym in enumerate(st["syms"]):
                    m[sym] = tf(ident)[k]
            return wrap(T.subst(val, m))

        return f

    if stores and appended:
        raise Unsupported("loop that appends and stores")
    pre = {}
    # final state
    lists_before = {lid: (lst.segs if lst.segs is not None else [("items", list(list.__iter__(lst)))]) for lid, (lst, _) in appended.items()}
    if head is not None:
        install_at(T.sub(n, T.ONE))
        E.assume(_bt(head()))
    install_at(n)
    for lst, m in stores.values():
        if not E.solver.entails(T.eq(m, n)):
            raise Unsupported("loop stores into part of a list")
        list.clear(lst)
        lst.segs = [("map", n, stored(lst))]
    # opaque locals (closures defined in the body): value of the last iteration
    opq = [st for st in state.values() if st.get("opaque")]
    if opq:
        last = T.sub(n, T.ONE)
        snap_f = Snapshot(roots + list(get().values()))
        cur = get()
        install_at(last)
        body(elem(last))
        aft = get()
        snap_f.restore()
        set_(cur)
        set_({st["loc"].key: aft[st["loc"].key] for st in opq if st["loc"].kind == "local" and st["loc"].key in aft})
        if any(st["loc"].kind != "local" for st in opq):
            raise Unsupported("opaque object stored by a symbolic loop")
    for lid, lst in conditional.items():
        seg = filtered(lst)
        list.clear(lst)
        lst.segs = [s for s in lists_before[lid] if not (s[0] == "items" and not s[1])] + [seg]
    for lid, (lst, cnt) in appended.items():
        if cnt == 0:
            continue
        if cnt != 1:
            list.clear(lst)
            lst.segs = [s for s in lists_before[lid] if not (s[0] == "items" and not s[1])] + [_group(n, cnt, lst, element)]
            continue
        list.clear(lst)
        lst.segs = [s for s in lists_before[lid] if not (s[0] == "items" and not s[1])] + [
            ("map", n, (lambda lst: lambda x: element(lst, 0, x))(lst))]
    return None


def _group(n, cnt, lst, element):
    """segment of n groups of cnt elements each (an iteration that appends cnt times)"""
    def at(x):
        for q in range(cnt - 1):
            if E.fork(T.eq(T.app("mod", x, T.num(cnt), sort="I"), T.num(q))):
                return element(lst, q, T.app("fdiv", x, T.num(cnt), sort="I"))
        return element(lst, cnt - 1, T.app("fdiv", x, T.num(cnt), sort="I"))

    return ("map", T.mul(n, T.num(cnt)), at, ("group", n, lambda x: [element(lst, q, x) for q in range(cnt)]))


def _install_opaque_guard(state):
    for ident, st in state.items():
        if st.get("opaque"):
            st["syms"] = []
            st["skel"] = ("tuple", ())


def _overwritten_first(sk):
    return sk[0] in ("opaque",)


def _walk_values(roots):
    out = []
    seen = set()
    stack = list(roots)
    while stack:
        o = stack.pop()
        if id(o) in seen or (isinstance(o, _ATOM) and type(o) is not S and not X.is_t(o)):
            continue
        if type(o) is S:
            continue
        seen.add(id(o))
        if len(seen) > 5000:
            break
        out.append(o)
        stack.extend(_children(o))
    return out


def _contents(lst):
    return (lst.segs, list(list.__iter__(lst)))


def _unread(x):
    raise Unsupported("list written by the loop is read inside it")


class _Again(Exception):
    pass


def _scope(body, locals0):
    out = {}
    for name, cell in zip(body.__code__.co_freevars, body.__closure__ or ()):
        try:
            out[name] = cell.cell_contents
        except ValueError:
            pass
    out.update(locals0)
    return out


class SymStream:
    """iterator whose k-th value is f(k)"""

    def __init__(self, f):
        self.pos = {"k": 0}
        self.f = f

    def __iter__(self):
        return self

    def __next__(self):
        k = self.pos["k"]
        self.pos["k"] = k + 1
        return self.f(k)


SymStream.__module__ = "thinc.ghost"

COLLECT = [False]  # nested generators run to the end and hand over everything they yielded


def collected(out):
    return SymIter(out.segments())


WHILE_MAX = {}
UNROLL = set()  # functions whose while loops are executed by forking on their condition
INVARIANTS = {}  # local variable -> fn(locals before the loop) -> fn(iteration) -> value at the head of that iteration


def _stored(lst, old):
    segs = old[0]
    if segs is None or lst.segs is None or len(lst.segs) != 1 or len(segs) != 1:
        return None
    s = lst.segs[0]
    if len(s) > 3 and s[3] and s[3][0] == "store" and s[3][1] is segs[0]:
        return s[3][2], s[3][3]
    return None


def _appended(lst, old):
    osegs, oitems = old
    if osegs is None and lst.segs is None:
        new = list(list.__iter__(lst))
        if len(new) >= len(oitems) and all(a is b for a, b in zip(new, oitems)):
            return new[len(oitems):]
        raise Unsupported("list changed other than by append")
    if osegs is not None and lst.segs is not None:
        a, b = list(osegs), list(lst.segs)
        k = 0
        while k < len(a) and k < len(b) and a[k] is b[k]:
            k += 1
        if k == len(a):
            out = []
            for s in b[k:]:
                if s[0] != "items":
                    raise Unsupported("extend in symbolic loop")
                out += list(s[1])
            return out
        if k == len(a) - 1 and a[k][0] == "items" and b[k][0] == "items":
            return list(b[k][1])[len(a[k][1]):]
    raise Unsupported("list changed other than by append")


def _initial(loc, locals0, snap):
    if loc.kind == "local":
        return locals0.get(loc.key, _EMPTY)
    for kind, o, old in snap.objs:
        if o is loc.obj:
            if kind == "tensor":
                return old
            if kind in ("obj", "dict"):
                return old.get(loc.key, _EMPTY)
    raise Unsupported("loop writes to an object it did not reach before")


def _symfor(codec, skel, loc):
    if loc.kind == "tensor":
        return [T.fresh("st", "O")]
    return [T.fresh("st", s) for s in codec.sorts(skel)]


RECURRENCE_HOOKS = []


def solve_recurrences(live, comps, i, n, known=(), partial=False):
    """closed(x): value after x iterations, x any term"""
    syms = {}
    init = {}
    sort = {}
    loc = {}
    for ident, st in live.items():
        for k, s in enumerate(st["syms"]):
            syms[(ident, k)] = s
            init[(ident, k)] = st["init"][k] if st["init"] is not None else None
            loc[(ident, k)] = st["loc"]
    closed = dict(known)
    un = set(comps) - set(closed)

    def sub_closed(t, x):
        m = {}
        for c in closed:
            if syms[c] in T.fv(t):
                m[syms[c]] = closed[c](x)
        return T.subst(t, m) if m else t

    progress = True
    while un and progress:
        progress = False
        for c in sorted(un, key=lambda c: syms[c].id):
            new = sub_closed(comps[c], i)
            others = {syms[d] for d in un}
            free = T.fv(new) & others
            s = syms[c]
            if new is s:
                v = init[c]
                closed[c] = (lambda v: lambda x: v)(v)
            elif s in free and s.sort == "I" and init[c] is not None and (r := _saturating(s, init[c], new, i) or _in_step(s, init[c], comps, c, syms, init, closed)):
                closed[c] = r
            elif partial and (not free or s.sort not in ("I", "R")):
                continue
            elif not free:
                closed[c] = _last(init[c], new, i)
            elif free == {s} and s.sort in ("I", "R") and not (T.fv(T.sub(new, s)) & others):
                if init[c] is None:
                    raise Unsupported("uninitialised loop variable")
                closed[c] = _accum(init[c], T.sub(new, s), i)
            elif free == {s} and s.sort == "O":
                r = _array_rec(s, init[c], new, i, n, loc[c].obj.shape if loc[c].kind == "tensor" else None)
                if r is None:
                    continue
                closed[c] = r
            elif partial:
                continue
            else:
                for h in RECURRENCE_HOOKS:
                    r = h(s, init[c], new, i, n, free)
                    if r is not None:
                        closed[c] = r
                        break
                else:
                    continue
            un.discard(c)
            progress = True
    if partial:
        return closed
    if un:
        for h in JOINT_HOOKS:
            got = h({c: (syms[c], init[c], sub_closed(comps[c], i)) for c in un}, i, n)
            for c, f in got.items():
                closed[c] = f
                un.discard(c)
    if un:
        # smallest dependency-closed set first; the rest may then follow directly
        by = {syms[c]: c for c in un}
        dep = {c: {by[v] for v in T.fv(sub_closed(comps[c], i)) if v in by} for c in un}

        def closure(c):
            out, stack = set(), [c]
            while stack:
                d = stack.pop()
                if d not in out:
                    out.add(d)
                    stack += dep[d]
            return out

        group = min((closure(c) for c in sorted(un, key=lambda c: syms[c].id)), key=len)
        order = sorted(group, key=lambda c: syms[c].id)
        news = [sub_closed(comps[c], i) for c in order]
        bs = [syms[c] for c in order] + [i]
        inits = [init[c] for c in order]
        if any(v is None for v in inits):
            # no value before the loop: whatever it holds afterwards is unspecified
            for c in [c for c in order if init[c] is None]:
                if syms[c].sort == "O":
                    raise Unsupported("uninitialised loop variable in recursion")
                f = T.fresh("undef", "O")
                closed[c] = (lambda f, so: lambda x: T.sel(f, x, sort=so))(f, syms[c].sort)
            return solve_recurrences(live, comps, i, n, known=closed)
        for k, c in enumerate(order):
            closed[c] = (lambda k: lambda x: T.rec(k, bs, inits, x, news))(k)
            un.discard(c)
        if un:
            return solve_recurrences(live, comps, i, n, known=closed)
    return closed


JOINT_HOOKS = []


def _last(v0, new, i):
    def f(x):
        if x is T.ZERO:
            return v0
        y = T.subst(new, {i: T.sub(x, T.ONE)})
        if x.op == "num":
            return y
        if v0 is None:
            return y
        if E.solver.entails(T.gt(x, T.ZERO), 2000):
            return y
        return T.ite(T.eq(x, T.ZERO), v0, y)

    return f


def _accum(v0, delta, i):
    def f(x):
        k = T.fresh("k", "I")
        T.RANGE[k] = x
        return T.add(v0, T.tsum(k, T.ZERO, x, T.subst(delta, {i: k})))

    return f


def _array_rec(s, init, new, i, n, dims=None):
    r = _array_lin(s, init, new, i, n, dims)
    return r if r is not None else _array_once(s, init, new, i, n, dims)


def _exclusive(g, i, n):
    """the 0/1 guard holds in at most one iteration"""
    from . import solve
    k2 = T.fresh("i", "I")
    n0 = len(E.solver.pc)
    E.solver.pc += [T.ge(i, T.ZERO), T.lt(i, k2), T.lt(k2, n)]
    try:
        return solve.prove_zero(T.mul(g, T.subst(g, {i: k2})), E.solver)
    finally:
        del E.solver.pc[n0:]


def _array_once(s, init, new, i, n, dims=None):
    """every cell is changed in at most one iteration, to a value computed from what it held"""
    if new.op != "lam" or init is None:
        return None
    bs = new.args[0]
    vs = [T.fresh("c", "I") for _ in bs]
    if dims is not None and len(dims) == len(vs):
        T.RANGE.update(zip(vs, dims))
    body = _under_guards(T.subst(new.args[1], dict(zip(bs, vs))), s, i, vs)
    reads = [x for x in _subterms(body) if x.op == "app" and x.args[0] == "sel" and x.args[1] is s]
    if any(tuple(x.args[2:]) != tuple(vs) for x in reads) or len({x.sort for x in reads}) != 1:
        return None
    delta = T.sub(body, reads[0])
    common = None
    for m in T.to_poly(delta):
        gs = {x for x, e in m if x.op == "iv" and i in T.fv(x) and s not in T.fv(x)}
        common = gs if common is None else common & gs
    if not common:
        return None
    if not _exclusive(T.mul(*sorted(common, key=lambda x: x.id)), i, n):
        return None
    d0 = T.subst(delta, {s: init})
    v0 = T.sel(init, *vs, sort=reads[0].sort)

    def f(x):
        k = T.fresh("k", "I")
        T.RANGE[k] = x
        return T.lam(vs, T.add(v0, T.tsum(k, T.ZERO, x, T.subst(d0, {i: k}))))

    return f


def _saturating(s, init, new, i):
    """s = min(s + c, limit)"""
    if T.fv(new) & {i}:
        return None
    for x in {x for m in T.to_poly(new) for x, _ in m if x.op == "iv" and s in T.fv(x)}:
        one, zero = T._set_iv(new, x, 1), T._set_iv(new, x, 0)
        for a, lim in ((one, zero), (zero, one)):
            c = T.sub(a, s)
            if c.op == "num" and c.args[0] > 0 and s not in T.fv(lim) and E.solver.entails(T.and_(T.eq(new, T.tmin(a, lim)), T.le(init, lim))):
                return lambda x: T.tmin(T.add(init, T.mul(c, x)), lim)
    return None


def _in_step(s, init, comps, c, syms, inits, closed):
    """s changes by as much as another number, whose value is known"""
    d = T.sub(comps[c], s)
    for e, f in closed.items():
        if e in comps and inits.get(e) is not None and syms[e].sort == "I" and comps[e] is not syms[e] and T.sub(comps[e], syms[e]) is d:
            return lambda x: T.add(init, T.sub(f(x), inits[e]))
    return None


def _subterms(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen.add(x.id)
            out.append(x)
            todo += T.children(x)
    return out


def _running(new, s, i):
    """new = [a > s] ? a : s  ->  (a, strict) with a free of s"""
    for x in {x for m in T.to_poly(new) for x, _ in m if x.op == "iv" and s in T.fv(x)}:
        c = x.args[0]
        if c.op not in ("le0", "lt0"):
            continue
        one, zero = T._set_iv(new, x, 1), T._set_iv(new, x, 0)
        for keep, a in ((one, zero), (zero, one)):
            if keep is s and s not in T.fv(a):
                # which comparison decides to take a
                take = T.not_(c) if keep is one else c
                if take is T.gt(a, s):
                    return a, True
                if take is T.ge(a, s):
                    return a, False
    return None


def _running_max(s, init, new, i, n, free):
    """m = max(m, a(i)) started at the element before the first one"""
    if init is None:
        return None
    r = _running(new, s, i)
    if r is None or r[0].sort == "O" or (T.fv(r[0]) & (free - {s})):
        return None
    a = r[0]
    if T.subst(a, {i: T.num(-1)}) is not init:
        return None

    def f(x):
        k = T.fresh("k", "I")
        T.RANGE[k] = T.add(x, T.ONE)
        return T.red("max", k, T.add(x, T.ONE), T.subst(a, {i: T.sub(k, T.ONE)}))

    return f


def _running_argmax(s, init, new, i, n, free):
    """j = i + 1 when a(i) exceeds the maximum so far, started at 0"""
    if init is not T.ZERO or free != {s}:
        return None
    for x in {x for m in T.to_poly(new) for x, _ in m if x.op == "iv"}:
        c = x.args[0]
        if c.op not in ("le0", "lt0") or s in T.fv(x):
            continue
        one, zero = T._set_iv(new, x, 1), T._set_iv(new, x, 0)
        for keep, upd in ((one, zero), (zero, one)):
            if keep is not s or upd is not T.add(i, T.ONE):
                continue
            take = T.not_(c) if keep is one else c
            for y in _subterms(c):
                if y.op == "red" and y.args[0] == "max" and y.args[2] is T.add(i, T.ONE):
                    b = y.args[1][0]
                    a = T.subst(y.args[3], {b: T.add(i, T.ONE)})  # the element met in this iteration
                    if take is not T.gt(a, y):
                        continue

                    def f(x, y=y, b=b):
                        k = T.fresh("k", "I")
                        T.RANGE[k] = T.add(x, T.ONE)
                        return T.red("argmax", k, T.add(x, T.ONE), T.subst(y.args[3], {b: k}))

                    return f
    return None


RECURRENCE_HOOKS += [_running_max, _running_argmax]


def _array_lin(s, init, new, i, n, dims=None):
    """new array = a*old + b cellwise, with a in {1, 1-[exclusive guard]}"""
    if new.op != "lam":
        return None
    bs = new.args[0]
    vs = [T.fresh("c", "I") for _ in bs]
    if dims is not None and len(dims) == len(vs):
        T.RANGE.update(zip(vs, dims))
    body = T.subst(new.args[1], dict(zip(bs, vs)))
    body = _under_guards(body, s, i, vs)
    old = T.mk("app", ("sel", s) + tuple(vs), "R")
    olds = [old, T.mk("app", ("sel", s) + tuple(vs), "I")]
    p = T.to_poly(body)
    a, b = {}, {}
    for m, c in p.items():
        hit = [(x, e) for x, e in m if x in olds]
        if hit:
            if len(hit) != 1 or hit[0][1] != 1:
                return None
            rest = tuple((x, e) for x, e in m if x not in olds)
            if any(s in T.fv(x) for x, _ in rest):
                return None
            a[rest] = a.get(rest, 0) + c
        else:
            if any(s in T.fv(x) for x, _ in m):
                return None
            b[m] = c
    a, b = T.from_poly(a), T.from_poly(b)

    def inits(v):
        return T.sel(init, *v) if init is not None else None

    if a is T.ONE:
        def f(x):
            k = T.fresh("k", "I")
            return T.lam(vs, T.add(inits(vs), T.tsum(k, T.ZERO, x, T.subst(b, {i: k}))))
        return f
    g = T.sub(T.ONE, a)
    # guard must be 0/1 and exclusive between iterations
    if not _exclusive(g, i, n) or not E.solver.entails(T.or_(T.eq(g, T.ZERO), T.eq(g, T.ONE))):
        return None

    def f(x):
        k = T.fresh("k", "I")
        G = T.tsum(k, T.ZERO, x, T.subst(g, {i: k}))
        k = T.fresh("k", "I")
        B = T.tsum(k, T.ZERO, x, T.subst(b, {i: k}))
        return T.lam(vs, T.add(T.mul(inits(vs), T.sub(T.ONE, G)), B))

    return f


def _under_guards(t, s, i, vs):
    """[q == e(i)] * f(old[e(i)])  ->  [q == e(i)] * f(old[q]): reads of the old array under an equality on the index written"""
    out = []
    ch = False
    for m, c in T.to_poly(t).items():
        fs = dict(m)
        for _ in range(12):
            again = False
            for g in list(fs):
                if g.op != "iv" or g.args[0].op != "eq0":
                    continue
                p = g.args[0].args[0]
                if i not in T.fv(p):
                    again = _reads_at(fs, g, p, s, vs)
                    if again:
                        ch = True
                        break
                    continue
                lin = T._linear_in(p, i)
                if lin is None:
                    again = _reads_at(fs, g, p, s, vs)
                    if again:
                        ch = True
                        break
                    continue
                k, rest = lin
                e = T.neg(rest) if k == 1 else rest
                if i in T.fv(e):
                    continue
                for x in list(fs):
                    if x is not g and s in T.fv(x) and i in T.fv(x):
                        y = T.subst(x, {i: e})
                        d = fs.pop(x)
                        out2 = T.power(y, d)
                        for mm, cc in T.to_poly(out2).items():
                            if len(T.to_poly(out2)) != 1 or cc != 1:
                                return t
                            for z, dz in mm:
                                fs[z] = fs.get(z, 0) + dz
                        again = ch = True
                        break
                if again:
                    break
            if not again:
                break
        out.append(T.mul(T.num(c), *[T.power(z, d) for z, d in fs.items()]))
    return T.add(*out) if ch else t


def _reads_at(fs, g, p, s, vs):
    """[v == e] * old[.., e, ..]  ->  [v == e] * old[.., v, ..]"""
    others = [h.args[0].args[0] for h in fs if h is not g and h.op == "iv" and h.args[0].op == "eq0"]
    same = set(others) | {T.neg(h) for h in others}
    for j, v in enumerate(vs):
        lin = T._linear_in(p, v) if v in T.fv(p) else None
        if lin is None or lin[0] not in (1, -1):
            continue
        e = T.neg(lin[1]) if lin[0] == 1 else lin[1]
        for x in list(fs):
            if x.op == "app" and x.args[0] == "sel" and x.args[1] is s and len(x.args) == 2 + len(vs) and (x.args[2 + j] is e or T.sub(e, x.args[2 + j]) in same):
                d = fs.pop(x)
                a = list(x.args)
                a[2 + j] = v
                y = T.mk("app", tuple(a), x.sort)
                fs[y] = fs.get(y, 0) + d
                return True
    return False


def symcond(c):
    if type(c) is S and c.t.sort == "B":
        return not (_decided(c.t))
    return False


def _decided(t):
    if t in (T.TRUE, T.FALSE):
        return True
    return E.solver.entails(t, 2000) or E.solver.entails(T.not_(t), 2000)


WHILE_HOOK = None


def whileloop(key, cond, body, get, set_, names):
    if WHILE_HOOK is not None:
        return WHILE_HOOK(key, cond, body, get, set_, names)
    if any((":" + u + ":") in key for u in UNROLL):
        m = min([v for u, v in WHILE_MAX.items() if (":" + u + ":") in key] or [16])
        for _ in range(m):
            if not E.fork(_bt(cond())):
                return None
            r = body(None)
            if r is BREAK or isinstance(r, Ret):
                return r
        if m < 16:
            E.assume(T.not_(_bt(cond())))  # (stated bound of the unit)
            return None
        raise Unsupported("while loop does not end within its bound")
    return while_counted(key, cond, body, get, set_, names)


def while_counted(key, cond, body, get, set_, names):
    """while loops governed by a linear counter: trip count solved, then the for rule"""
    # discover how the condition evolves: run one generic iteration via the for rule machinery
    N = T.fresh("N", "I")
    locals0 = get()
    snap = Snapshot(list(locals0.values()) + _closure_vals(body) + _closure_vals(cond))
    c0 = cond()
    if not E.fork(_bt(c0)):
        return None
    # probe: single iteration effect on the condition's polynomial
    c0t = _bt(c0)
    body_r = None

    def probe():
        snap.restore()
        set_(locals0)
        body(None)
        return _bt(cond())

    outs = E.subexplore(probe)
    snap.restore()
    set_(locals0)

    def as_lt(c):
        # c: p<0 / not ...  ->  p with c <=> p < 0  (ints: p<=-1)
        if c.op == "le0":
            return T.sub(c.args[0], T.ONE)
        if c.op == "not" and c.args[0].op == "le0":
            return T.neg(c.args[0].args[0])
        return None

    p0 = as_lt(c0t)
    if p0 is None:
        raise Unsupported("while condition %s" % T.show(c0t))
    step = None
    for pc, c in outs:
        p = as_lt(c)
        if p is None:
            if c in (T.TRUE, T.FALSE):
                p = None
            raise Unsupported("while condition changes form")
        d = T.sub(p, p0)
        if step is None:
            step = d
        elif step is not d:
            return while_open(key, cond, body, get, set_, names)
    if step is None or step.op != "num" or step.args[0] <= 0:
        return while_open(key, cond, body, get, set_, names)
    # p(k) = p0 + k*step < 0  <=> k < ceil(-p0/step)
    if step is T.ONE:
        trips = T.neg(p0)
    else:
        trips = T.neg(T.app("fdiv", p0, step, sort="I"))

    r = _run_segment(key, trips, lambda i: None, body, get, set_, names)
    if r is None:
        # the summary is consistent with the condition: check it on the final state
        cf = _bt(cond())
        if not E.solver.entails(T.not_(cf)):
            raise Unsupported("while trip count not confirmed")
    return r


def while_open(key, cond, body, get, set_, names):
    """while loop entered at least once whose number of iterations is not a function of the state before it: N
    iterations, the condition true at the head of each of them and false afterwards (termination is assumed)"""
    N = T.fresh("N", "I")
    E.solver.pc.append(T.ge(N, T.ONE))

    def iteration(_):
        E.solver.assume(_bt(cond()))
        return body(None)

    r = summarise(key, N, lambda i: None, iteration, get, set_, names, head=cond)
    if r is None:
        E.assume(T.not_(_bt(cond())))
    return r


# ------------------------------------------------------------------ builtins
def vlen(x):
    if type(x) is SList:
        return wrap(x.nterm()) if x.segs is not None else list.__len__(x)
    if X.is_t(x):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return wrap(x.dims[0])
    h = getattr(type(x), "__vc_len__", None)
    if h is not None:
        return h(x)
    if type(x) in _PKG_LEN or (getattr(type(x), "__module__", "") or "").startswith("thinc"):
        f = getattr(type(x), "__len__", None)
        if f is not None:
            return f(x)
    return builtins.len(x)


_PKG_LEN = set()


class _Range(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.range)

    def __call__(cls, *a):
        if any(type(x) is S for x in a):
            a = [term(x) for x in a]
            if len(a) == 1:
                lo, hi, st = T.ZERO, a[0], T.ONE
            elif len(a) == 2:
                lo, hi, st = a[0], a[1], T.ONE
            else:
                lo, hi, st = a
            if st is T.ONE:
                n = T.sub(hi, lo)
            elif st.op == "num" and st.args[0] == -1:
                n = T.sub(lo, hi)
            elif st.op == "num" and st.args[0] == 0:
                raise ValueError("range() arg 3 must not be zero")
            else:
                if not E.solver.entails(T.gt(st, T.ZERO)):
                    raise Unsupported("range step")
                n = T.neg(T.app("fdiv", T.sub(lo, hi), st, sort="I"))
            if not E.solver.entails(T.ge(n, T.ZERO)):
                if not E.fork(T.ge(n, T.ZERO)):
                    n = T.ZERO
            if n is T.ZERO:
                return SymIter([("items", [])])
            return SymIter([("map", n, lambda i: wrap(T.add(lo, T.mul(i, st))))])
        return builtins.range(*a)


class vrange(metaclass=_Range):
    pass


def _any_sym(its):
    return any(symiter(x) or isinstance(x, SymIter) or (type(x) is SList and x.segs is not None) for x in its)


def vzip(*its, strict=False):
    its = [iterable(x) for x in its]
    if not _any_sym(its):
        return builtins.zip(*its)
    ls = [as_slist(x) if not isinstance(x, itertools.count) else x for x in its]
    ns = [l.nterm() for l in ls]
    n = ns[0]
    for m in ns[1:]:
        if m is n or E.solver.entails(T.eq(m, n)):
            continue
        n = n if E.fork(T.le(n, m)) else m
    # align concrete prefixes
    out = []
    pos = 0
    if all(l.segs is None or l.segs[0][0] == "items" for l in ls):
        k = min([len(l.segs[0][1]) if l.segs is not None else list.__len__(l) for l in ls])
        if k:
            out.append(("items", [tuple(l.elem(T.num(j)) for l in ls) for j in range(k)]))
            pos = k
    rest = T.sub(n, T.num(pos))
    if rest is T.ZERO:
        return SymIter(out)
    ls2 = [l[pos:] if pos else l for l in ls]
    out.append(("map", rest, lambda i: tuple(l.elem(i) for l in ls2)))
    return SymIter(out)


def venumerate(it, start=0):
    it = iterable(it)
    if not _any_sym([it]) and not type(start) is S:
        return builtins.enumerate(it, start)
    out = []
    off = term(start)
    for s in segs_of(it):
        if s[0] == "items":
            items = list(s[1])
            out.append(("items", [(wrap(T.add(off, T.num(k))), v) for k, v in builtins.enumerate(items)]))
            off = T.add(off, T.num(len(items)))
        else:
            out.append(("map", s[1], (lambda off, f: lambda i: (wrap(T.add(off, i)), f(i)))(off, s[2])))
            off = T.add(off, s[1])
    return SymIter(out)


def vreversed(it):
    it = iterable(it)
    if _any_sym([it]):
        return rev(it)
    return builtins.reversed(it)


def vsum(it, start=0):
    it = iterable(it)
    if not _any_sym([it]):
        acc = start
        for x in it:
            acc = acc + x
        return acc
    acc = start
    for s in segs_of(it):
        if s[0] == "items":
            for x in s[1]:
                acc = acc + x
        else:
            k = T.fresh("k", "I")
            T.RANGE[k] = s[1]
            v = s[2](k)
            if X.is_t(v):
                raise Unsupported("sum of arrays")
            acc = wrap(T.add(term(acc), T.tsum(k, T.ZERO, s[1], term(v))))
    return acc


def _minmax(name, f, cmp):
    def g(*a, **kw):
        if kw.get("key") is not None or "default" in kw:
            if _any_sym(a):
                raise Unsupported(name)
            return getattr(builtins, name)(*a, **kw)
        if len(a) == 1:
            it = iterable(a[0])
            if _any_sym([it]):
                n = as_slist(it).nterm()
                if not E.fork(T.gt(n, T.ZERO)):
                    raise ValueError("%s() arg is an empty sequence" % name)
                l = as_slist(it)
                k = T.fresh("k", "I")
                T.RANGE[k] = n
                v = term(l.elem(k))
                if k not in T.fv(v):
                    return wrap(v)
                r = T.red(name, k, n, v)
                return wrap(r)
            a = list(it)
            if not a:
                raise ValueError("%s() arg is an empty sequence" % name)
        r = a[0]
        for x in a[1:]:
            if type(r) is S or type(x) is S:
                if isinstance(x, str) and type(x) is not S:
                    raise TypeError("unorderable")
                rt, xt = _ar(r), _ar(x)
                c = E_decide(cmp(xt, rt))
                if c is None:
                    r = wrap(f(rt, xt))
                else:
                    r = x if c else r
            else:
                r = getattr(builtins, name)(r, x)
        return r

    return g


def E_decide(c):
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return False
    return None


vmin = _minmax("min", T.tmin, T.lt)
vmax = _minmax("max", T.tmax, T.gt)


class _Int(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


def vint(x=0, *a):
    if type(x) is S:
        t = x.t
        if t.sort == "B":
            return wrap(T.iv(t))
        if T.is_int(t):
            return x
        if t.sort == "O":
            raise Unsupported("int() of opaque")
        return wrap(T.ite(T.ge(t, T.ZERO), T.app("floor", t, sort="I"), T.neg(T.app("floor", T.neg(t), sort="I"))))
    if X.is_t(x):
        return vint(S(x.__vc_term__()))
    return builtins.int(x, *a)


def vfloat(x=0.0):
    if type(x) is S:
        return x
    if X.is_t(x):
        return S(x.__vc_term__())
    return builtins.float(x)


def vbool(x=False):
    return builtins.bool(x)


def vlist(x=()):
    x = iterable(x)
    if X.is_t(x):
        return SList(segs=segs_of(x)) if symiter(x) else SList(list(x))
    if isinstance(x, SymIter) or type(x) is SList:
        return SList(segs=[("items", list(s[1])) if s[0] == "items" else s for s in segs_of(x)]) if (isinstance(x, SymIter) or x.segs is not None) else SList(x)
    return SList(x)


def vtuple(x=()):
    x = iterable(x)
    if isinstance(x, SymIter) or (type(x) is SList and x.segs is not None):
        if symiter(x):
            r = SList(x)
            return r
        return builtins.tuple(iter(x))
    return builtins.tuple(x)


def vall(it):
    it = iterable(it)
    if _any_sym([it]):
        return _quant(it, True)
    for x in it:
        if not x:
            return False
    return True


def vany(it):
    it = iterable(it)
    if _any_sym([it]):
        return _quant(it, False)
    for x in it:
        if x:
            return True
    return False


def _quant(it, univ):
    acc = []
    for s in segs_of(it):
        if s[0] == "items":
            for x in s[1]:
                acc.append(_bt(x))
        else:
            k = T.fresh("k", "I")
            T.RANGE[k] = s[1]
            n0 = len(E.solver.pc)
            E.solver.pc += [T.ge(k, T.ZERO), T.lt(k, s[1])]
            try:
                paths = E.subexplore(lambda: _bt(s[2](k)))
                c = T.or_(*[T.and_(pc, v) for pc, v in paths])
                if E.solver.entails(c):
                    c = T.TRUE
                elif E.solver.entails(T.not_(c)):
                    c = T.FALSE
            finally:
                del E.solver.pc[n0:]
            if univ:
                acc.append(T.TRUE if c is T.TRUE else T.eq(T.tsum(k, T.ZERO, s[1], T.iv(T.not_(c))), T.ZERO))
            else:
                acc.append(T.FALSE if c is T.FALSE else T.gt(T.tsum(k, T.ZERO, s[1], T.iv(c)), T.ZERO))
    return wrapb(T.and_(*acc) if univ else T.or_(*acc))


def vmap(f, *its):
    its = [iterable(x) for x in its]
    if not _any_sym(its):
        return builtins.map(f, *its)
    z = vzip(*its)
    return genexp(z, lambda t: f(*t), [])


def vabs(x):
    return builtins.abs(x)


def vset(it=()):
    it = iterable(it)
    if _any_sym([it]):
        vals = builtins.set()
        extra = []
        for s in segs_of(it):
            if s[0] == "items":
                for v in s[1]:
                    vals.add(v)
            else:
                k = T.fresh("k", "I")
                T.RANGE[k] = s[1]
                v = s[2](k)
                sk, ts = Codec({}).enc(v) if not isinstance(v, (str, real_np.dtype, type)) else (("const", v), [])
                if any(k in T.fv(t) for t in ts) or sk[0] == "opaque":
                    raise Unsupported("set of varying symbolic elements")
                if E.fork(T.gt(s[1], T.ZERO)):
                    vals.add(v)
        return vals
    return builtins.set(it)


def vnext(it, *d):
    return builtins.next(it, *d)


def visinstance(o, c):
    if isinstance(c, tuple):
        return any(visinstance(o, x) for x in c)
    if c is vrange:
        c = builtins.range
    elif c is vint:
        c = builtins.int
    elif c is vfloat:
        c = builtins.float
    elif c is vlist:
        c = builtins.list
    elif c is vtuple:
        if type(o) is SList:
            return False
        c = builtins.tuple
    elif c is vset:
        c = builtins.set
    elif c is vbool:
        c = builtins.bool
    h = getattr(type(o), "__vc_isinstance__", None)
    if h is not None:
        return h(o, c)
    return builtins.isinstance(o, c)


def vhasattr(o, name):
    return builtins.hasattr(o, name)


# ------------------------------------------------------------------ modules
class SymMath:
    def __getattr__(self, name):
        return getattr(real_math, name)

    pi = S(T.PI)

    @staticmethod
    def sqrt(x):
        if type(x) is S or isinstance(x, (int, float)):
            t = term(x)
            return wrap(T.power(t, T.F(1, 2)))
        return real_math.sqrt(x)

    @staticmethod
    def _u(name, x):
        if type(x) is S:
            return wrap(T.app(name, x.t))
        return getattr(real_math, name)(x)

    def exp(self, x): return self._u("exp", x)
    def log(self, x): return self._u("log", x)
    def tanh(self, x): return self._u("tanh", x)
    def erf(self, x): return self._u("erf", x)
    def cos(self, x): return self._u("cos", x)
    def sin(self, x): return self._u("sin", x)
    def cosh(self, x): return self._u("cosh", x)

    def ceil(self, x):
        return x.__ceil__() if type(x) is S else real_math.ceil(x)

    def floor(self, x):
        return x.__floor__() if type(x) is S else real_math.floor(x)

    def isnan(self, x):
        return False if type(x) is S else real_math.isnan(x)


def module(name):
    if name == "numpy":
        from .snp import SNP
        return SNP
    if name == "math":
        return SymMath()
    raise Unsupported(name)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(
    len=vlen, range=vrange, zip=vzip, enumerate=venumerate, reversed=vreversed, sum=vsum,
    min=vmin, max=vmax, all=vall, any=vany, map=vmap, abs=vabs, isinstance=visinstance,
)


class _TypeProxy(type):
    """int/float/list/... usable as functions and in isinstance/annotations"""


def _proxy(name, fn, real):
    return fn


# int, float, list, tuple, set are used both as types (annotations, isinstance) and as functions.
class _IntMeta(type):
    def __call__(cls, *a, **k):
        return vint(*a, **k)
    def __instancecheck__(cls, o): return builtins.isinstance(o, builtins.int)
    def __subclasscheck__(cls, o): return builtins.issubclass(o, builtins.int)


def ratio(a, b):
    v = a / b
    if v == int(v):
        return v
    return S(T.div(term(a), term(b)))
