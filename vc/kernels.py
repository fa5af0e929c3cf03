"""The translated cpu_kernels.hh as callable functions."""
import os, sys
from . import cxx, native, runtime, instrument

CONTRACT = {}  # C++ name -> contract used at calls (its body is checked against the contract by its own unit)


class Kernels:
    def __init__(self, path):
        self.path = path
        tr = cxx.Translator(path)
        self.src, self.table = tr.all()
        self.failed = tr.failed
        self.ns = {"__builtins__": runtime.BUILTINS, "_vc_rt": runtime, "_nat": self, "__name__": "thinc.native.kernels"}
        exec(instrument.compile_source(self.src, path, "thinc.native.kernels"), self.ns)
        self.by_py = {py: name for name, fs in self.table.items() for py, _ in fs}

    def __getattr__(self, name):
        return getattr(native, name)

    def body(self, name, kinds):
        """function body whose pointer parameters point to the given element types"""
        for py, tys in self.table[name]:
            ptr = [t.replace("const", "").replace("*", "").strip() for t in tys if t.strip().endswith("*")]
            if ptr == list(kinds):
                return py
        return None

    def call(self, py):
        c = CONTRACT.get(self.by_py[py])
        if c is not None:
            tys = [t for n, t in self.table[self.by_py[py]] if n == py][0]
            r = c(tys)
            if r is not None:
                return r
        return self.ns[py]

    def function(self, name):
        """overload resolution by the element types of the pointers"""
        if name in self.failed or name not in self.table:
            raise native.Unsupported("native function %s: %s" % (name, self.failed.get(name, "not found")))

        def f(*args):
            kinds = [_ctype(a.t.dtype) for a in args if type(a) is native.Ptr]
            py = self.body(name, kinds)
            if py is None:
                raise native.Unsupported("no instantiation of %s for %s" % (name, kinds))
            return self.call(py)(*args)

        return f


_CT = {"float32": "float", "float64": "double", "int32": "int", "uint32": "unsigned int", "int64": "long", "uint64": "unsigned long"}


def _ctype(dt):
    return _CT[dt.name]


def vec_add(tys):
    """X[0:N] += scale * Y[0:N]"""
    def f(x, y, scale, n):
        native._axpy(n, scale, y, 1, x, 1)
    return f


CONTRACT["vec_add"] = vec_add
_cached = {}


def load(repo=None):
    repo = repo or os.environ.get("VC_REPO", "/repo")
    p = os.path.join(repo, "thinc/backends/cpu_kernels.hh")
    if p not in _cached:
        _cached[p] = Kernels(p)
    return _cached[p]
