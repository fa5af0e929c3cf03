"""NumpyOps (and the other Cython modules) as extracted from /repo's current .pyx/.pxd/.hh files."""
import os, sys, types
from . import cyx, native, kernels, runtime, instrument

# C functions taken by contract (their bodies are the subject of their own units)
OVERRIDE = {}


class Border:
    """the _nat object seen by extracted Cython code"""

    def __init__(self, decls, hdrdir):
        self.decls, self.hdrdir = decls, hdrdir

    def __getattr__(self, name):
        return getattr(native, name)

    def extern(self, name):
        hdr, exc = self.decls.extern[name]
        k = kernels.load()
        f = k.function(name)
        if exc:
            return f

        def g(*args):
            try:
                return f(*args)
            except (ValueError, IndexError) as e:
                raise native.MemoryFault("C++ exception %s leaves %s, which is declared without except +" % (type(e).__name__, name))

        return g


_cached = {}


def load(stem, repo=None, override=()):
    """namespace of the extracted module thinc/<stem>.pyx"""
    repo = repo or os.environ.get("VC_REPO", "/repo")
    key = (repo, stem, tuple(sorted(override)))
    if key in _cached:
        return _cached[key]
    path = os.path.join(repo, "thinc", stem + ".pyx")
    pkg = "thinc." + os.path.dirname(stem)
    tr = cyx.Translator(path, pkg)
    src = tr.module()
    name = "thinc." + stem.replace("/", ".")
    mod = types.ModuleType(name)
    mod.__package__ = pkg
    ns = mod.__dict__
    ns.update(__builtins__=runtime.BUILTINS, _vc_rt=runtime, _nat=Border(tr.decls, os.path.dirname(path)), __file__=path)
    for local, (m, n) in tr.cimports.items():
        ns[local] = cimported(m, n)
    old = sys.modules.get(name)
    code = instrument.compile_source(src, path, name)
    exec(code, ns)
    for f, v in override:
        ns[f] = v
    ns["_vc_source"], ns["_vc_failed"] = src, tr.failed
    _cached[key] = mod
    return mod


def cimported(mod, name):
    t = OVERRIDE.get((mod, name)) or OVERRIDE.get(name)
    if t is not None:
        return t
    short = {"logf": "log", "sqrtf": "sqrt", "expf": "exp", "tanhf": "tanh", "sinf": "sin", "cosf": "cos"}.get(name, name)
    if hasattr(native, short) and short not in ("data", "view"):
        return getattr(native, short)

    class Missing:
        def __call__(self, *a, **k):
            raise native.Unsupported("external function %s.%s" % (mod, name))

    return Missing()


def numpy_ops():
    """an instance of the extracted NumpyOps"""
    m = load("backends/numpy_ops", override=(("MurmurHash3_x86_128_uint64", native.murmur128),))
    return m.NumpyOps()
