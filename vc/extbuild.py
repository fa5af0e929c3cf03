"""Use the installed compiled extensions when their sources are the ones they were built from;
otherwise build them from the current working tree in a scratch copy."""
import glob, hashlib, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sources(repo):
    out = []
    for pat in ("thinc/**/*.pyx", "thinc/**/*.pxd", "thinc/**/*.hh", "thinc/**/*.hpp", "thinc/**/*.h", "thinc/**/*.cpp.in", "setup.py"):
        out += glob.glob(os.path.join(repo, pat), recursive=True)
    return sorted(set(out))


def digest(repo):
    h = {}
    for p in sources(repo):
        h[os.path.relpath(p, repo)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return h


MARKERS = {"thinc/backends/numpy_ops": [b"expected one gradient per sequence", b"lengths must be zero when there are no rows", b"position_encode requires an output array"],
           "thinc/layers/sparselinear": [b"Expected 1-dimensional lengths"]}


def stale(repo):
    """the installed extension does not contain the messages of the current source: it was built from an older tree"""
    for stem, marks in MARKERS.items():
        sos = glob.glob(os.path.join(repo, stem + ".*.so"))
        if not sos:
            return True
        b = open(sos[0], "rb").read()
        if any(m not in b for m in marks):
            return True
    return False


def prepare(repo, tmp, py):
    """returns (tree to import thinc from, build info or None)"""
    ref = json.load(open(os.path.join(HERE, "ext_sources.json")))
    now = digest(repo)
    if now == ref and not stale(repo):
        return repo, None
    dst = os.path.join(tmp, "tree")
    shutil.copytree(repo, dst, ignore=shutil.ignore_patterns(".git", "build", "website", "examples", "__pycache__", ".mypy_cache", ".hypothesis"), symlinks=True)
    changed = sorted(k for k in set(now) | set(ref) if now.get(k) != ref.get(k))
    for so in glob.glob(os.path.join(dst, "thinc/**/*.so"), recursive=True):
        os.unlink(so)
    for pyx in glob.glob(os.path.join(dst, "thinc/**/*.pyx"), recursive=True):
        for ext in (".cpp", ".c"):
            g = pyx[:-4] + ext
            if os.path.exists(g):
                os.unlink(g)
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.update(HOME=tmp)
    p = subprocess.run([py, "setup.py", "build_ext", "--inplace", "-j", "4"], cwd=dst, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        return dst, {"error": p.stdout[-3000:] + p.stderr[-6000:]}
    return dst, {"rebuilt": changed}
