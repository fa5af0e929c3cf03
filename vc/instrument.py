"""Mechanical extraction of the code under contract.

Modules of the package are parsed from /repo's working tree on every run and
compiled with these (and only these) changes:
  * `for`/`while` statements dispatch on whether the iterated object /
    condition is symbolic; the original loop text is kept verbatim for the
    concrete case, and becomes a closure executed by the loop rule otherwise;
  * list displays / comprehensions build the engine's list type (a `list`
    subclass);
  * `import numpy` / `import math` / `import cupy`.. inside the package bind
    the engine's modules, which hand concrete arguments to the real functions;
  * builtins that insist on machine integers (len, range, zip, int, ...) are
    the engine's versions, which hand concrete arguments to the real ones.
Everything else is the code as written, executed by CPython."""
import ast, builtins, importlib.abc, importlib.machinery, os, sys, types, hashlib

REPO = os.environ.get("VC_REPO", "/repo")


class _Names(ast.NodeVisitor):
    """names bound by statements (not descending into nested scopes)"""

    def __init__(self):
        self.stores, self.decl = [], []

    def _add(self, n):
        if n not in self.stores and not n.startswith("_vc_"):
            self.stores.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self._add(n.id)

    def visit_FunctionDef(self, n):
        self._add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self._add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus inside comprehensions ignored
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self._add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self._add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.decl += n.names

    visit_Nonlocal = visit_Global


def bound(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


class _HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_GeneratorExp = visit_FunctionDef


def has_yield(stmts):
    v = _HasYield()
    for s in stmts:
        v.visit(s)
    return v.found


class _BodyRewrite(ast.NodeTransformer):
    """continue/break/return inside a loop body that became a closure"""

    def __init__(self):
        self.loop = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):
        self.loop += 1
        self.generic_visit(n)
        self.loop -= 1
        return n

    visit_While = visit_For

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_Continue(self, n):
        if self.loop:
            return n
        return ast.copy_location(ast.parse("return None").body[0], n)

    def visit_Break(self, n):
        if self.loop:
            return n
        return ast.copy_location(ast.parse("return _vc_rt.BREAK").body[0], n)

    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        new = ast.parse("return _vc_rt.Ret(0)").body[0]
        new.value.args = [v]
        return ast.copy_location(new, n)


import copy as _copy


class _Collect(ast.NodeTransformer):
    """generator body -> function body that appends to _vc_out"""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Yield(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.parse("_vc_out.append(0)", mode="eval").body, n) if n.value is None else self._call("append", n)

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return self._call("extend", n)

    def _call(self, name, n):
        c = ast.parse("_vc_out.%s(0)" % name, mode="eval").body
        c.args = [n.value]
        return ast.copy_location(c, n)

    def visit_Return(self, n):
        return ast.copy_location(ast.parse("return _vc_rt.collected(_vc_out)").body[0], n)


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.n = 0
        self.decls = [set()]
        self.globals_decl = [set()]

    # scopes
    def _func(self, n):
        self.fn.append(n.name if hasattr(n, "name") else "<lambda>")
        v = bound(n.body)
        g = set()
        nl = set()
        for s in ast.walk(n):
            if isinstance(s, ast.Global):
                g |= set(s.names)
            if isinstance(s, ast.Nonlocal):
                nl |= set(s.names)
        self.globals_decl.append(g)
        self.generic_visit(n)
        self.globals_decl.pop()
        self.fn.pop()
        return n

    def visit_FunctionDef(self, n):
        if self.in_func() and has_yield(n.body) and not n.decorator_list:
            # nested generator: a second version that collects what it yields, used when the caller asks for it
            col = _copy.deepcopy(n)
            col.name = n.name + "__vc_col"
            t = _Collect()
            col.body = ast.parse("_vc_out = _vc_rt.mklist([])").body + [t.visit(x) for x in col.body] + ast.parse("return _vc_rt.collected(_vc_out)").body
            gen = _copy.deepcopy(n)
            gen.name = n.name + "__vc_gen"
            src = "def %s(*_vc_a, _vc_f=(%s, %s), **_vc_k):\n    return _vc_f[1 if _vc_rt.COLLECT[0] else 0](*_vc_a, **_vc_k)" % (n.name, gen.name, col.name)
            out = [self._func(gen), self._func(col)] + ast.parse(src).body
            for x in out:
                ast.copy_location(x, n)
                ast.fix_missing_locations(x)
            return out
        return self._func(n)

    def visit_ClassDef(self, n):
        self.fn.append(None)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def in_func(self):
        return bool(self.fn) and self.fn[-1] is not None

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.in_func():
            return ast.copy_location(
                ast.Call(_rt("mklist"), [ast.copy_location(ast.List(n.elts, ast.Load()), n)], []), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.in_func() or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        return self._comp(n, g, "listcomp")

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        if not self.in_func() or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        return self._comp(n, n.generators[0], "genexp")

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return n

    def _comp(self, n, g, kind):
        # (lambda it: rt.listcomp(it, lambda x: elt, lambda x: cond) if rt.symiter(it) else rt.mklist([elt for tgt in it if ..]))(ITER)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        names = []
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name) and x.id not in names:
                names.append(x.id)
        arg = "_vc_x"
        # bind target through a nested function taking one element
        inner = ast.ListComp(n.elt, [ast.comprehension(_copy.deepcopy(g.target), ast.List([ast.Name(arg, ast.Load())], ast.Load()), [], 0)])
        f = ast.Lambda(_args([arg]), ast.Subscript(inner, ast.Constant(0), ast.Load()))
        conds = []
        for c in g.ifs:
            ic = ast.ListComp(_copy.deepcopy(c), [ast.comprehension(_copy.deepcopy(g.target), ast.List([ast.Name(arg, ast.Load())], ast.Load()), [], 0)])
            conds.append(ast.Lambda(_args([arg]), ast.Subscript(ic, ast.Constant(0), ast.Load())))
        it = ast.Name("_vc_it", ast.Load())
        if kind == "listcomp":
            conc = ast.Call(_rt("mklist"), [ast.ListComp(_copy.deepcopy(n.elt), [ast.comprehension(_copy.deepcopy(g.target), it, _copy.deepcopy(g.ifs), 0)])], [])
        else:
            conc = ast.GeneratorExp(_copy.deepcopy(n.elt), [ast.comprehension(_copy.deepcopy(g.target), it, _copy.deepcopy(g.ifs), 0)])
        body = ast.IfExp(
            ast.Call(_rt("symiter"), [it], []),
            ast.Call(_rt(kind), [it, f, ast.List(conds, ast.Load())], []),
            conc,
        )
        call = ast.Call(ast.Lambda(_args(["_vc_it"]), body), [ast.Call(_rt("iterable"), [g.iter], [])], [])
        return ast.copy_location(call, n)

    def visit_BinOp(self, n):
        # a quotient of two literals keeps its exact value
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and self.in_func() and all(
                isinstance(x, ast.Constant) and type(x.value) in (int, float) and x.value for x in (n.left, n.right)):
            return ast.copy_location(ast.Call(_rt("ratio"), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.in_func() and isinstance(n.func, ast.Name) and n.func.id in ("int", "float", "list", "tuple", "set", "bool"):
            n.func = ast.copy_location(_rt("v" + n.func.id), n.func)
        return n

    def visit_For(self, n):
        orig = n
        self.generic_visit(n)
        if not self.in_func():
            return n
        self.n += 1
        k = self.n
        if has_yield(n.body):
            it = "_vc_it%d" % k
            pre = ast.parse("%s = _vc_rt.iterable(0)\nif _vc_rt.symiter(%s): _vc_rt.unsupported('symbolic loop with yield')" % (it, it)).body
            pre[0].value.args = [n.iter]
            n.iter = ast.Name(it, ast.Load())
            return [ast.copy_location(x, n) for x in pre] + [n]
        return self._loop(n, k, "for")

    def visit_While(self, n):
        self.generic_visit(n)
        if not self.in_func():
            return n
        if isinstance(n.test, ast.Constant):
            return n
        self.n += 1
        if has_yield(n.body):
            return n
        return self._loop(n, self.n, "while")

    def _loop(self, n, k, kind):
        fname = ".".join(x for x in self.fn if x)
        names = bound(n.body)
        stores = list(names.stores)
        if kind == "for":
            for x in bound([ast.Assign([_copy.deepcopy(n.target)], ast.Constant(0))]).stores:
                if x not in stores:
                    stores.append(x)
        gl = [x for x in stores if x in self.globals_decl[-1]]
        nl = [x for x in stores if x not in gl]
        decl = ""
        if gl:
            decl += "    global %s\n" % ", ".join(gl)
        if nl:
            decl += "    nonlocal %s\n" % ", ".join(nl)
        key = "%s:%s:loop%d" % (self.mod, fname, k)
        src = "def _vc_body%d(_vc_x):\n%s    pass\n" % (k, decl)
        body_fn = ast.parse(src).body[0]
        bb = [_BodyRewrite().visit(_copy.deepcopy(s)) for s in n.body]
        if kind == "for":
            assign = ast.Assign([_copy.deepcopy(n.target)], ast.Name("_vc_x", ast.Load()))
            body_fn.body[-1:] = [assign] + bb
        else:
            body_fn.body[-1:] = bb
        gets = "def _vc_get%d():\n    r = {}\n" % k
        for x in nl + gl:
            gets += "    try: r[%r] = %s\n    except NameError: pass\n" % (x, x)
        gets += "    return r\n"
        sets = "def _vc_set%d(_vc_d):\n%s    pass\n" % (k, decl)
        for x in nl + gl:
            sets += "    if %r in _vc_d: %s = _vc_d[%r]\n" % (x, x, x)
        get_fn, set_fn = ast.parse(gets).body[0], ast.parse(sets).body[0]
        helpers = [body_fn, get_fn, set_fn]
        tail = "if isinstance(_vc_r%d, _vc_rt.Ret): return _vc_r%d.value\n" % (k, k)
        orelse = _copy.deepcopy(n.orelse)
        if kind == "for":
            pre = ast.parse("_vc_it%d = _vc_rt.iterable(0)" % k).body[0]
            pre.value.args = [n.iter]
            run = ast.parse(
                "_vc_r%d = _vc_rt.forloop(%r, _vc_it%d, _vc_body%d, _vc_get%d, _vc_set%d, %r)\n"
                % (k, key, k, k, k, k, tuple(nl + gl)) + tail).body
            if orelse:
                els = ast.parse("if _vc_r%d is not _vc_rt.BREAK: pass" % k).body[0]
                els.body = orelse
                run.append(els)
            branch = ast.parse("if _vc_rt.symiter(_vc_it%d): pass\nelse: pass" % k).body[0]
            branch.body = helpers + run
            n.iter = ast.Name("_vc_it%d" % k, ast.Load())
            branch.orelse = [n]
            out = [pre, branch]
        else:
            cond_fn = ast.parse("def _vc_cond%d(): return 0" % k).body[0]
            cond_fn.body[0].value = _copy.deepcopy(n.test)
            run = ast.parse(
                "_vc_r%d = _vc_rt.whileloop(%r, _vc_cond%d, _vc_body%d, _vc_get%d, _vc_set%d, %r)\n"
                % (k, key, k, k, k, k, tuple(nl + gl)) + tail).body
            # dynamic switch at the loop head
            w = ast.parse(
                "while True:\n"
                "    _vc_c%d = 0\n"
                "    if _vc_rt.symcond(_vc_c%d):\n"
                "        pass\n"
                "    if not _vc_c%d: break\n" % (k, k, k)).body[0]
            w.body[0].value = n.test
            brk = ast.parse("while True:\n    break").body[0].body
            w.body[1].body = helpers + [cond_fn] + run + brk
            w.body += n.body
            out = [w]
            if orelse:
                raise SyntaxError("while/else not handled")
        for x in out:
            ast.copy_location(x, n)
        return out

    def visit_Import(self, n):
        out = []
        rest = []
        for a in n.names:
            if a.name in ("numpy", "math"):
                t = ast.parse("%s = _vc_rt.module(%r)" % (a.asname or a.name, a.name)).body[0]
                out.append(ast.copy_location(t, n))
            else:
                rest.append(a)
        if rest:
            out.append(ast.copy_location(ast.Import(rest), n))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module in ("numpy", "math", "itertools", "functools"):
            out = []
            rest = []
            for a in n.names:
                if n.module in ("numpy", "math"):
                    t = ast.parse("%s = _vc_rt.module(%r).%s" % (a.asname or a.name, n.module, a.name)).body[0]
                    out.append(ast.copy_location(t, n))
                else:
                    rest.append(a)
            if rest:
                out.append(ast.copy_location(ast.ImportFrom(n.module, rest, 0), n))
            return out
        return n


def _rt(name):
    return ast.Attribute(ast.Name("_vc_rt", ast.Load()), name, ast.Load())


def _args(names):
    return ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])


SOURCES = {}


def compile_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, is_pkg):
        self.path, self.name, self.is_pkg = path, name, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import runtime

        with open(self.path, "rb") as f:
            src = f.read()
        SOURCES[self.name] = hashlib.sha256(src).hexdigest()
        code = compile_source(src.decode("utf8"), self.path, self.name)
        module.__dict__["__builtins__"] = runtime.BUILTINS
        module.__dict__["_vc_rt"] = runtime
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, skip=()):
        self.skip = set(skip)

    def find_spec(self, fullname, path, target=None):
        if fullname != "thinc" and not fullname.startswith("thinc."):
            return None
        if fullname in self.skip:
            return None
        rel = fullname.replace(".", "/")
        for p, pkg in ((rel + "/__init__.py", True), (rel + ".py", False)):
            full = os.path.join(REPO, p)
            if os.path.exists(full):
                spec = importlib.machinery.ModuleSpec(
                    fullname, Loader(full, fullname, pkg), origin=full, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [os.path.dirname(full)]
                spec.has_location = True
                return spec
        return None


def install(skip=()):
    assert not any(m == "thinc" or m.startswith("thinc.") for m in sys.modules), "thinc already imported"
    sys.meta_path.insert(0, Finder(skip))
    sys.path.insert(0, REPO)
