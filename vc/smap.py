"""dictionary with arbitrary (unboundedly many) entries and possibly symbolic keys.

The contents are an uninterpreted presence predicate over keys plus, for every key that is read, one arbitrary value
(made by `value(key)`, the same for equal keys); writes are kept in a log.  Looking a key up compares it with every
key written or read so far, by case split, so the result is exact for every possible pattern of equal keys."""
from .engine import E, S, Unsupported
from . import terms as T, engine

_MISS = object()


def key_terms(k):
    if type(k) is tuple:
        out = []
        for x in k:
            out += key_terms(x)
        return out
    return [engine.term(k)]


def shape(k):
    return tuple(shape(x) for x in k) if type(k) is tuple else None


def same(a, b):
    if shape(a) != shape(b):
        return False
    cs = []
    for x, y in zip(key_terms(a), key_terms(b)):
        if x is y:
            continue
        ox, oy = x.op == "str" or x.sort == "O", y.op == "str" or y.sort == "O"
        if ox != oy:
            return False
        if x.op == "str" and y.op == "str":
            return False
        cs.append(T.eq(x, y))
    return all(E.fork(c) for c in cs) if cs else True


class SMap(dict):
    def __init__(self, name, value, present=None):
        dict.__init__(self)
        self.name, self.value, self.present = name, value, present
        self.log, self.base = [], []

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        for key, v in reversed(self.log):
            if same(k, key):
                return v
        for key, v in self.base:
            if same(k, key):
                return v
        if self.present is not None:
            p = self.present(k)
        else:
            p = E.fork(T.mk("app", ("u:has:" + self.name,) + tuple(key_terms(k)), "B"))
        v = self.value(k) if p else _MISS
        self.base.append((k, v))
        return v

    def __contains__(self, k):
        return self._find(k) is not _MISS

    def __getitem__(self, k):
        v = self._find(k)
        if v is _MISS:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self._find(k)
        return d if v is _MISS else v

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def __delitem__(self, k):
        self[k]
        self.log.append((k, _MISS))

    def pop(self, k, *d):
        v = self._find(k)
        if v is _MISS:
            if d:
                return d[0]
            raise KeyError(k)
        self.log.append((k, _MISS))
        return v

    def setdefault(self, k, d=None):
        v = self._find(k)
        if v is _MISS:
            self[k] = v = d
        return v

    def _no(self, *a, **k):
        raise Unsupported("iteration over a dictionary with arbitrarily many entries")

    __iter__ = keys = values = items = __len__ = update = copy = clear = popitem = __or__ = __ior__ = __eq__ = _no
    __hash__ = None

    def __bool__(self):
        self._no()


class FnMap(dict):
    """read-only dictionary given by arbitrary functions of the key; writing is recorded"""

    def __init__(self, name):
        dict.__init__(self)
        self.name, self.writes = name, 0

    @property
    def __class__(self):
        return dict

    def has(self, k):
        return engine.wrap(T.mk("app", ("u:has:" + self.name,) + tuple(key_terms(k)), "B"))

    def val(self, k):
        return engine.wrap(T.mk("app", ("u:val:" + self.name,) + tuple(key_terms(k)), "I"))

    def get(self, k, d=None):
        if d is None:
            return self.val(k) if self.has(k) else None
        return engine.wrap(T.ite(engine._b(self.has(k)), engine.term(self.val(k)), engine.term(d)))

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.val(k)

    def __setitem__(self, k, v):
        self.writes += 1

    def __bool__(self):
        return True

    def _no(self, *a, **k):
        raise Unsupported("iteration over an arbitrary table")

    __iter__ = keys = values = items = __len__ = update = copy = clear = popitem = __or__ = __ior__ = __eq__ = pop = setdefault = __delitem__ = _no
    __hash__ = None
