"""Cython source -> Python source with the same control flow, from the Cython compiler's own parse tree.

What the extraction drops: static types other than those of pointers, buffers and memory views (C integers become
mathematical integers, float/double become reals), GIL annotations, decorators of the cython module and registry
decorators. What it keeps: every statement and expression, C division, buffer/memoryview argument checks (element type,
rank, contiguity), bounds checks of &view[...], fused-type specialisation (one body per member, selected by the array's
element type), pointer arithmetic, calls into cpu_kernels.hh and BLAS, and `except +` on the declared C++ functions."""
import os

CTYPES = {"float", "double", "int", "unsigned int", "long", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "bint", "char", "void"}
FLOATS = {"float", "double"}
RENAME = {"unsigned int": "uint32_t", "unsigned": "uint32_t"}


class Untranslated(Exception):
    pass


def parse(src, pxd=False):
    from Cython.Compiler.TreeFragment import parse_from_strings
    return parse_from_strings("m", src, pxds={}, level="module_pxd" if pxd else None)


def cname(n):
    return type(n).__name__


class Decls:
    """ctypedefs, fused types and extern C++ functions declared in the pxd"""

    def __init__(self, path):
        self.views, self.fused, self.extern = {}, {}, {}
        if not os.path.exists(path):
            return
        t = parse(open(path, encoding="utf8").read(), True)
        self.walk(getattr(t, "body", t), None)

    def walk(self, n, hdr):
        k = cname(n)
        if k == "StatListNode":
            for x in n.stats:
                self.walk(x, hdr)
        elif k == "CTypeDefNode":
            v = view_of(n.base_type)
            d = n.declarator
            if v is not None and cname(d) == "CNameDeclaratorNode":
                self.views[str(d.name)] = v
        elif k == "FusedTypeNode":
            self.fused[str(n.name)] = [str(t.name) for t in n.types]
        elif k == "CDefExternNode":
            self.walk(n.body, str(n.include_file))
        elif k == "CVarDefNode" and hdr:
            for d in n.declarators:
                if cname(d) == "CFuncDeclaratorNode":
                    b = d.base
                    while not hasattr(b, "name"):
                        b = b.base
                    self.extern[str(b.name)] = (hdr, bool(d.exception_check))


def basename(t):
    k = cname(t)
    if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
        return basename(t.base_type)
    if k == "CSimpleBaseTypeNode":
        if t.name is None:
            return None
        s = ".".join(list(t.module_path or []) + [str(t.name)])
        if getattr(t, "is_basic_c_type", 0):
            if t.signed == 0 and t.name == "int":
                return "unsigned int"
            if t.longness and t.name == "int":
                return "long"
        return s
    return None


def view_of(t):
    """(element type, rank, contiguous) of a memoryview or buffer type"""
    k = cname(t)
    if k in ("CConstTypeNode", "CConstOrVolatileTypeNode"):
        return view_of(t.base_type)
    if k == "MemoryViewSliceTypeNode":
        axes = t.axes
        contig = cname(axes[-1].step) != "NoneNode"
        return ("view", basename(t.base_type_node), len(axes), contig)
    if k == "TemplatedTypeNode" and basename(t.base_type_node) in ("np.ndarray", "ndarray"):
        nd, mode = 1, "strided"
        kw = t.keyword_args
        for it in (kw.key_value_pairs if kw is not None else ()):
            if str(it.key.value) == "ndim":
                nd = int(it.value.value)
            if str(it.key.value) == "mode":
                mode = str(it.value.value)
        a = t.positional_args[0]
        nm = basename(a) if cname(a) == "CSimpleBaseTypeNode" else (str(a.attribute) if cname(a) == "AttributeNode" else str(getattr(a, "name", None)))
        nm = nm.split(".")[-1]
        nm = {"float32_t": "float", "float64_t": "double"}.get(nm, nm)
        return ("buffer", nm, nd, mode == "c")
    return None


class Env:
    def __init__(self, kinds, fused, bounds):
        self.k, self.fused, self.bounds = kinds, fused, bounds


class Translator:
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg
        self.decls = Decls(path[:-3] + "pxd")
        self.tree = parse(open(path, encoding="utf8").read())
        self.out = []
        self.cdef = {}  # name of a cdef function -> node
        self.cimports = {}
        self.failed = {}
        self.boundscheck = "bounds_check=False" not in open(path, encoding="utf8").read().split("\n")[0]
        self.env = Env({}, {}, True)

    # -------------------------------------------------------- module
    def module(self, only=None):
        self.only = only
        for n in self._stats(self.tree.body):
            if cname(n) == "CFuncDefNode":
                self.cdef[self._fname(n.declarator)] = n
        lines = []
        for n in self._stats(self.tree.body):
            lines += self.top(n, 0)
        return "\n".join(lines) + "\n"

    def _stats(self, n):
        if cname(n) == "StatListNode":
            for x in n.stats:
                yield from self._stats(x)
        else:
            yield n

    def _fname(self, d):
        while cname(d) != "CFuncDeclaratorNode":
            d = d.base
        return str(d.base.name)

    def top(self, n, ind):
        k = cname(n)
        if k in ("CImportStatNode",):
            return []
        if k == "FromCImportStatNode":
            for pos, name, as_name in [(x[0], x[1], x[2]) for x in n.imported_names]:
                self.cimports[str(as_name or name)] = (str(n.module_name), str(name))
            return []
        if k == "CDefExternNode":
            for d in self._stats(n.body):
                if cname(d) == "CVarDefNode":
                    for x in d.declarators:
                        if cname(x) == "CFuncDeclaratorNode":
                            self.cimports[str(x.base.name)] = (str(n.include_file), str(x.base.name))
            return []
        if k == "DefNode":
            return self.attempt(n, str(n.name), ind)
        if k == "CFuncDefNode":
            return self.attempt(n, self._fname(n.declarator), ind)
        if k == "PyClassDefNode":
            b = n.bases
            bases = [self.e(x) for x in (b.args if b is not None and hasattr(b, "args") else [])]
            out = ["    " * ind + "class %s(%s):" % (n.name, ", ".join(bases))]
            body = []
            for x in self._stats(n.body):
                body += self.top(x, ind + 1)
            return out + (body or ["    " * (ind + 1) + "pass"])
        if k == "PassStatNode":
            return []
        return self.s(n, ind)

    def attempt(self, n, name, ind):
        try:
            return self.function(n, name, ind)
        except Untranslated as e:
            self.failed[name] = str(e)
            return ["    " * ind + "def %s(*a, **k): raise _nat.Unsupported(%r)" % (name, "native function %s: %s" % (name, e))]

    # -------------------------------------------------------- functions
    def argtype(self, a):
        """('view'|'buffer', ctype, ndim, contig) | ('fused', name) | ('ptr', ctype) | ('c', ctype) | ('nd',) | None"""
        d = a.declarator
        base = a.base_type
        nm = basename(base)
        depth = 0
        while cname(d) == "CPtrDeclaratorNode":
            depth += 1
            d = d.base
        name = getattr(d, "name", None)
        if cname(base) == "CSimpleBaseTypeNode" and (not name) and nm:
            return nm, None  # an untyped argument: the parser puts its name in the type
        if depth:
            return str(name), ("ptr", nm)
        v = view_of(base)
        if v is not None:
            return str(name), v
        if nm in self.decls.fused:
            return str(name), ("fused", nm)
        if nm in self.decls.views:
            return str(name), self.decls.views[nm]
        if nm in CTYPES:
            return str(name), ("c", nm)
        if nm in ("np.ndarray", "ndarray"):
            return str(name), ("nd",)
        return str(name), None

    def function(self, n, name, ind):
        cf = cname(n) == "CFuncDefNode"
        if cf:
            d = n.declarator
            while cname(d) != "CFuncDeclaratorNode":
                d = d.base
            args = d.args
        else:
            args = n.args
        info = []
        for a in args:
            nm, ty = self.argtype(a)
            info.append((nm, ty, a))
        fused = sorted({ty[1] for _, ty, _ in info if ty and ty[0] == "fused"})
        bounds = self.boundscheck
        for dec in getattr(n, "decorators", None) or []:
            t = self.e(dec.decorator)
            if t == "cython.boundscheck(False)":
                bounds = False
        pad = "    " * ind
        sig, pos, kwonly = [], [], False
        star = getattr(n, "star_arg", None)
        starstar = getattr(n, "starstar_arg", None)
        for nm, ty, a in info:
            if getattr(a, "kw_only", 0) and not kwonly:
                if star is None:
                    sig.append("*")
                kwonly = True
            elif star is not None and not kwonly and getattr(a, "kw_only", 0):
                pass
            s = nm
            if a.default is not None:
                s += "=" + self.e(a.default)
            sig.append(s)
        if star is not None:
            k = next((i for i, (_, _, a) in enumerate(info) if getattr(a, "kw_only", 0)), len(sig))
            sig.insert(k, "*" + str(star.name))
        if starstar is not None:
            sig.append("**" + str(starstar.name))
        if not fused:
            return self._def(pad, ind, name, sig, info, n, {}, bounds)
        out = []
        import itertools
        variants = list(itertools.product(*[self.decls.fused[f] for f in fused]))
        for v in variants:
            fm = dict(zip(fused, v))
            out += self._def(pad, ind, name + "__" + "__".join(v), sig, info, n, fm, bounds)
        out.append(pad + "def %s(%s):" % (name, ", ".join(sig)))
        call = ", ".join((nm + "=" + nm) if getattr(a, "kw_only", 0) else nm for nm, ty, a in info if nm != "self")
        for v in variants:
            fm = dict(zip(fused, v))
            conds = []
            for nm, ty, a in info:
                if ty and ty[0] == "fused":
                    _, ct, nd, _ = self.decls.views[fm[ty[1]]]
                    conds.append("_nat.matches(%s, %r, %d)" % (nm, ct, nd))
            target = name + "__" + "__".join(v)
            out.append(pad + "    if %s:" % " and ".join(conds))
            out.append(pad + "        return %s(%s)" % (("self." if info and info[0][0] == "self" else "") + target, call))
        out.append(pad + "    raise TypeError('No matching signature found')")
        return out

    def _def(self, pad, ind, name, sig, info, n, fm, bounds):
        kinds = {}
        pre = []
        for nm, ty, a in info:
            if ty is None:
                continue
            if ty[0] == "fused":
                ty = self.decls.views[fm[ty[1]]]
            kinds[nm] = ty
            if ty[0] in ("view", "buffer"):
                pre.append("%s = _nat.%s(%s, %r, %d, %r)" % (nm, ty[0], nm, ty[1], ty[2], ty[3]))
            elif ty[0] == "nd":
                pre.append("%s = _nat.ndarray(%s)" % (nm, nm))
            elif ty[0] == "c" and ty[1] in ("int", "uint32_t", "unsigned int", "int64_t", "uint64_t", "size_t", "long"):
                pre.append("%s = _nat.cint(%s, %r)" % (nm, nm, ty[1]))
        saved, self.env = self.env, Env(kinds, fm, bounds)
        try:
            self.collect(n.body)
            out = [pad + "def %s(%s):" % (name, ", ".join(sig))]
            out += [pad + "    " + p for p in pre]
            body = self.s(n.body, ind + 1)
            return out + body + ([] if body or pre else [pad + "    pass"])
        finally:
            self.env = saved

    def collect(self, n):
        """declared and inferred C types of local variables"""
        k = cname(n)
        if k == "CVarDefNode":
            for d in n.declarators:
                self.declare(n.base_type, d)
            return
        if k == "SingleAssignmentNode" and cname(n.lhs) == "NameNode" and str(n.lhs.name) not in self.env.k:
            ty = self.ty(n.rhs)
            if ty is not None and ty[0] in ("c", "ptr"):
                self.env.k[str(n.lhs.name)] = ty
        if k == "ForInStatNode" and cname(n.target) == "NameNode" and str(n.target.name) not in self.env.k:
            it = n.iterator.sequence
            if cname(it) == "SimpleCallNode" and getattr(it.function, "name", None) == "range":
                if all((self.ty(a) or ("",))[0] == "c" for a in it.args):
                    self.env.k[str(n.target.name)] = ("c", "int")
            elif (self.ty(it) or ("",))[0] in ("ptr", "view"):
                t = self.ty(it)
                self.env.k[str(n.target.name)] = ("c", t[1])
        for a in getattr(n, "child_attrs", None) or []:
            v = getattr(n, a, None)
            for x in (v if isinstance(v, list) else [v]):
                if x is not None and hasattr(x, "child_attrs"):
                    self.collect(x)

    def declare(self, base, d):
        nm = basename(base)
        depth = 0
        name = None
        dd = d
        arr = False
        while cname(dd) in ("CPtrDeclaratorNode", "CArrayDeclaratorNode"):
            depth += 1
            arr = arr or cname(dd) == "CArrayDeclaratorNode"
            dd = dd.base
        name = str(dd.name)
        v = view_of(base)
        if depth or arr:
            self.env.k[name] = ("ptr", nm)
        elif cname(base) == "TemplatedTypeNode" and v is None:
            self.env.k[name] = ("ptr", basename(base.base_type_node))
        elif v is not None:
            self.env.k[name] = v
        elif nm in self.decls.views:
            self.env.k[name] = self.decls.views[nm]
        elif nm in CTYPES:
            self.env.k[name] = ("c", nm)
        elif nm in ("np.ndarray", "ndarray"):
            self.env.k[name] = ("nd",)
        return name

    # -------------------------------------------------------- static types (C arithmetic only)
    def ty(self, n):
        k = cname(n)
        if k == "IntNode":
            return ("c", "int")
        if k == "FloatNode":
            return ("c", "double")
        if k == "NameNode":
            return self.env.k.get(str(n.name))
        if k == "TypecastNode":
            nm = basename(n.base_type)
            return ("ptr", nm) if cname(n.declarator) == "CPtrDeclaratorNode" else (("c", nm) if nm in CTYPES else None)
        if k == "AmpersandNode":
            t = self.ty(n.operand.base) if cname(n.operand) == "IndexNode" else None
            return ("ptr", t[1]) if t and t[0] in ("view", "ptr", "buffer") else None
        if k == "IndexNode":
            b = n.base
            if cname(b) == "AttributeNode" and str(b.attribute) == "shape" and (self.ty(b.obj) or ("",))[0] in ("view", "nd", "buffer"):
                return ("c", "long")
            t = self.ty(b)
            if t and t[0] in ("ptr", "view", "buffer"):
                return ("c", t[1])
            return None
        if k == "SliceIndexNode":
            return self.ty(n.base)
        if k == "AttributeNode":
            if str(n.attribute) == "size" and (self.ty(n.obj) or ("",))[0] in ("nd", "buffer"):
                return ("c", "long")
            return None
        if k in ("AddNode", "SubNode", "MulNode", "DivNode", "ModNode", "IntBinopNode"):
            a, b = self.ty(n.operand1), self.ty(n.operand2)
            if a and b and a[0] == "c" and b[0] == "c":
                for f in ("double", "float"):
                    if f in (a[1], b[1]):
                        return ("c", f)
                for f in ("uint64_t", "int64_t", "size_t", "long", "uint32_t", "unsigned int"):
                    if f in (a[1], b[1]):
                        return ("c", f)
                return ("c", "int")
            if a and a[0] == "ptr":
                return a
            return None
        if k in ("UnaryMinusNode",):
            return self.ty(n.operand)
        if k == "CondExprNode":
            return self.ty(n.true_val)
        if k == "SimpleCallNode":
            f = getattr(n.function, "name", None)
            if f == "len":
                return ("c", "long")
            if f in ("min", "max"):
                ts = [self.ty(a) for a in n.args]
                if all(t and t[0] == "c" for t in ts):
                    return ts[0]
            if f in self.cdef:
                nm = basename(self.cdef[f].base_type)
                return ("c", nm) if nm in CTYPES else None
            if f in ("sqrtf", "expf", "tanhf", "logf", "sinf", "cosf"):
                return ("c", "float")
        return None

    # -------------------------------------------------------- statements
    def s(self, n, ind):
        pad = "    " * ind
        k = cname(n)
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Untranslated("statement %s" % k)
        return m(n, ind, pad)

    def block(self, n, ind):
        b = self.s(n, ind)
        return b or ["    " * ind + "pass"]

    def s_StatListNode(self, n, ind, pad):
        out = []
        for x in n.stats:
            out += self.s(x, ind)
        return out

    def s_PassStatNode(self, n, ind, pad): return [pad + "pass"]
    def s_BreakStatNode(self, n, ind, pad): return [pad + "break"]
    def s_ContinueStatNode(self, n, ind, pad): return [pad + "continue"]

    def s_CVarDefNode(self, n, ind, pad):
        out = []
        for d in n.declarators:
            name = self.declare(n.base_type, d)
            dd = d
            while cname(dd) == "CPtrDeclaratorNode":
                dd = dd.base
            if cname(n.base_type) == "TemplatedTypeNode" and view_of(n.base_type) is None:
                a = n.base_type.positional_args
                out.append(pad + "%s = _nat.local_array(%r, %s)" % (name, basename(n.base_type.base_type_node), self.e(a[0])))
            elif cname(dd) == "CArrayDeclaratorNode":
                out.append(pad + "%s = _nat.local_array(%r, %s)" % (name, basename(n.base_type), self.e(dd.dimension)))
            elif getattr(dd, "default", None) is not None:
                out.append(pad + "%s = %s" % (name, self.conv(name, dd.default)))
        return out

    def conv(self, name, rhs):
        """the right-hand side as stored in a variable of declared type"""
        v = self.e(rhs)
        t = self.env.k.get(name)
        if t is not None and t[0] in ("view", "buffer") and self.ty(rhs) != t:
            return "_nat.%s(%s, %r, %d, %r)" % (t[0], v, t[1], t[2], t[3])
        if t is not None and t[0] == "nd":
            return "_nat.ndarray(%s)" % v
        if t is not None and t[0] == "c" and t[1] not in FLOATS:
            st = self.ty(rhs)
            if st is not None and st[0] == "c" and st[1] in FLOATS:
                return "_nat.trunc(%s)" % v
            if st is None or t[1] in ("uint32_t", "uint64_t", "unsigned int", "size_t"):
                return "_nat.cint(%s, %r)" % (v, t[1])
        return v

    def s_SingleAssignmentNode(self, n, ind, pad):
        if cname(n.rhs) == "ImportNode":
            m = n.rhs
            return [pad + "import %s as %s" % (m.module_name.value, n.lhs.name)] if not getattr(m, "level", 0) or m.level <= 0 else [pad + "from %s import %s as %s" % ("." * m.level, m.module_name.value, n.lhs.name)]
        if cname(n.lhs) == "NameNode":
            return [pad + "%s = %s" % (n.lhs.name, self.conv(str(n.lhs.name), n.rhs))]
        return [pad + "%s = %s" % (self.e(n.lhs), self.e(n.rhs))]

    def s_CascadedAssignmentNode(self, n, ind, pad):
        return [pad + " = ".join([self.e(x) for x in n.lhs_list] + [self.e(n.rhs)])]

    def s_InPlaceAssignmentNode(self, n, ind, pad):
        op = n.operator
        lt, rt = self.ty(n.lhs), self.ty(n.rhs)
        ints = lt and lt[0] == "c" and lt[1] not in FLOATS
        if ints and op in ("/", "//", "%", "&", "|", "^", "<<", ">>"):
            tmp = self.binop(op, self.e(n.lhs), self.e(n.rhs), lt, rt)
            return [pad + "%s = %s" % (self.e(n.lhs), tmp)]
        if ints and lt[1] in ("uint32_t", "uint64_t"):
            return [pad + "%s = _nat.cint(%s %s %s, %r)" % (self.e(n.lhs), self.e(n.lhs), op, self.e(n.rhs), lt[1])]
        return [pad + "%s %s= %s" % (self.e(n.lhs), op, self.e(n.rhs))]

    def s_ExprStatNode(self, n, ind, pad):
        if cname(n.expr) in ("UnicodeNode", "StringNode"):
            return []
        return [pad + self.e(n.expr)]

    def s_ReturnStatNode(self, n, ind, pad):
        return [pad + "return" + (" " + self.e(n.value) if n.value is not None else "")]

    def s_IfStatNode(self, n, ind, pad):
        out = []
        word = "if"
        for c in n.if_clauses:
            out.append(pad + "%s %s:" % (word, self.e(c.condition)))
            out += self.block(c.body, ind + 1)
            word = "elif"
        if n.else_clause is not None:
            out.append(pad + "else:")
            out += self.block(n.else_clause, ind + 1)
        return out

    def s_ForInStatNode(self, n, ind, pad):
        out = [pad + "for %s in %s:" % (self.e(n.target), self.e(n.iterator.sequence))]
        out += self.block(n.body, ind + 1)
        if n.else_clause is not None:
            out += [pad + "else:"] + self.block(n.else_clause, ind + 1)
        return out

    def s_WhileStatNode(self, n, ind, pad):
        out = [pad + "while %s:" % self.e(n.condition)] + self.block(n.body, ind + 1)
        if n.else_clause is not None:
            out += [pad + "else:"] + self.block(n.else_clause, ind + 1)
        return out

    def s_RaiseStatNode(self, n, ind, pad):
        return [pad + "raise" + (" " + self.e(n.exc_type) if n.exc_type is not None else "")]

    def s_AssertStatNode(self, n, ind, pad):
        v = getattr(n, "value", None)
        cond = getattr(n, "cond", None) or getattr(n, "condition", None)
        return [pad + "assert %s" % self.e(cond) + (", " + self.e(v) if v is not None else "")]

    def s_DelStatNode(self, n, ind, pad):
        return [pad + "del " + ", ".join(self.e(a) for a in n.args)]

    def s_GILStatNode(self, n, ind, pad):
        return self.s(n.body, ind)

    def s_DefNode(self, n, ind, pad):
        return self.function(n, str(n.name), ind)

    def s_FromImportStatNode(self, n, ind, pad):
        m = n.module
        lvl = m.level if m.level and m.level > 0 else 0
        names = ["%s as %s" % (name, t.name) for name, t in n.items]
        return [pad + "from %s%s import %s" % ("." * lvl, m.module_name.value if m.module_name is not None else "", ", ".join(names))]

    def s_TryExceptStatNode(self, n, ind, pad):
        out = [pad + "try:"] + self.block(n.body, ind + 1)
        for c in n.except_clauses:
            pat = c.pattern
            t = ""
            if pat:
                ps = [self.e(p) for p in (pat if isinstance(pat, list) else [pat])]
                t = " " + (ps[0] if len(ps) == 1 else "(%s)" % ", ".join(ps))
            if c.target is not None:
                t += " as " + self.e(c.target)
            out += [pad + "except%s:" % t] + self.block(c.body, ind + 1)
        if n.else_clause is not None:
            out += [pad + "else:"] + self.block(n.else_clause, ind + 1)
        return out

    def s_TryFinallyStatNode(self, n, ind, pad):
        return [pad + "try:"] + self.block(n.body, ind + 1) + [pad + "finally:"] + self.block(n.finally_clause, ind + 1)

    # -------------------------------------------------------- expressions
    def e(self, n):
        m = getattr(self, "e_" + cname(n), None)
        if m is None:
            raise Untranslated("expression %s" % cname(n))
        return m(n)

    def e_NameNode(self, n): return str(n.name)
    def e_NoneNode(self, n): return "None"
    def e_BoolNode(self, n): return repr(bool(n.value))
    def e_EllipsisNode(self, n): return "..."

    def e_IntNode(self, n):
        v = str(n.value).rstrip("uUlL")
        return v

    def e_FloatNode(self, n): return str(n.value)
    def e_UnicodeNode(self, n): return repr(str(n.value))
    def e_StringNode(self, n): return repr(str(n.unicode_value if n.unicode_value is not None else n.value))
    def e_IdentifierStringNode(self, n): return repr(str(n.value))
    def e_BytesNode(self, n): return repr(n.value if isinstance(n.value, bytes) else str(n.value).encode())

    def e_JoinedStrNode(self, n):
        return "''.join([%s])" % ", ".join("str(%s)" % self.e(v) for v in n.values)

    def e_FormattedValueNode(self, n):
        if n.format_spec is not None:
            raise Untranslated("format specification")
        return {"r": "repr(%s)", "s": "str(%s)"}.get(n.conversion_char, "_nat.fmt(%s)") % self.e(n.value)

    def e_AttributeNode(self, n): return "%s.%s" % (self.e(n.obj), n.attribute)

    def e_SimpleCallNode(self, n):
        f = n.function
        if cname(f) == "NameNode" and f.name in self.decls.extern:
            return "_nat.extern(%r)(%s)" % (str(f.name), ", ".join(self.e(a) for a in n.args))
        return "%s(%s)" % (self.e(f), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        args = []
        p = n.positional_args
        if cname(p) == "TupleNode":
            args += [self.e(a) for a in p.args]
        elif cname(p) == "AsTupleNode":
            args.append("*" + self.e(p.arg))
        else:
            args.append("*(%s)" % self.e(p))
        kw = n.keyword_args
        if kw is not None:
            if cname(kw) == "DictNode":
                args += ["%s=%s" % (it.key.value, self.e(it.value)) for it in kw.key_value_pairs]
            elif cname(kw) == "MergedDictNode":
                for x in kw.keyword_args:
                    if cname(x) == "DictNode":
                        args += ["%s=%s" % (it.key.value, self.e(it.value)) for it in x.key_value_pairs]
                    else:
                        args.append("**" + self.e(x))
            else:
                args.append("**" + self.e(kw))
        return "%s(%s)" % (self.e(n.function), ", ".join(args))

    def e_IndexNode(self, n): return "%s[%s]" % (self.p(n.base), self.e(n.index).strip() if cname(n.index) != "TupleNode" else ", ".join(self.e(a) for a in n.index.args))

    def e_SliceIndexNode(self, n):
        a = self.e(n.start) if n.start is not None else ""
        b = self.e(n.stop) if n.stop is not None else ""
        return "%s[%s:%s]" % (self.p(n.base), a, b)

    def e_SliceNode(self, n):
        parts = [(self.e(x) if x is not None and cname(x) != "NoneNode" else "") for x in (n.start, n.stop, n.step)]
        return ":".join(parts) if parts[2] else ":".join(parts[:2])

    def e_TupleNode(self, n):
        a = [self.e(x) for x in n.args]
        return "(%s,)" % a[0] if len(a) == 1 else "(%s)" % ", ".join(a)

    def e_ListNode(self, n): return "[%s]" % ", ".join(self.e(x) for x in n.args)
    def e_DictNode(self, n): return "{%s}" % ", ".join("%s: %s" % (self.e(it.key), self.e(it.value)) for it in n.key_value_pairs)
    def e_StarredUnpackingNode(self, n): return "*" + self.e(n.target)

    def p(self, n):
        s = self.e(n)
        return s if cname(n) in ("NameNode", "AttributeNode", "IndexNode", "SimpleCallNode", "GeneralCallNode") else "(%s)" % s

    def binop(self, op, a, b, ta, tb):
        ints = ta and tb and ta[0] == "c" and tb[0] == "c" and ta[1] not in FLOATS and tb[1] not in FLOATS
        if ints and op in ("/", "//"):
            return "_nat.cdiv(%s, %s)" % (a, b)
        if ints and op == "%":
            return "_nat.cmod(%s, %s)" % (a, b)
        if ints and op in ("&", "|", "^", "<<", ">>"):
            return "_nat.bits(%r, %s, %s)" % (op, a, b)
        if op in ("/", "//") and ta and tb and ta[0] == "c" and tb[0] == "c":
            return "(%s / %s)" % (a, "_nat.nz(%s)" % b)
        if op == "//" and ta is None:
            return "(%s // %s)" % (a, b)
        if op == "%" and not (ta and tb and ta[0] == "c" and tb[0] == "c"):
            return "_nat.pymod(%s, %s)" % (a, b)
        return "(%s %s %s)" % (a, op, b)

    def e_AddNode(self, n): return self.binop(n.operator, self.e(n.operand1), self.e(n.operand2), self.ty(n.operand1), self.ty(n.operand2))
    e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_PowNode = e_BitwiseOrNode = e_AddNode
    def e_MatMultNode(self, n): return "(%s @ %s)" % (self.e(n.operand1), self.e(n.operand2))
    def e_UnaryMinusNode(self, n): return "(-%s)" % self.e(n.operand)
    def e_UnaryPlusNode(self, n): return "(+%s)" % self.e(n.operand)
    def e_NotNode(self, n): return "(not %s)" % self.e(n.operand)
    def e_BoolBinopNode(self, n): return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_PrimaryCmpNode(self, n):
        a = n.operand1
        if cname(a) == "NameNode" and a.name in self.env.fused and n.operator in ("is", "==", "is_not", "!="):
            r = self.env.fused[str(a.name)] == str(n.operand2.name)
            return repr(r if n.operator in ("is", "==") else not r)
        s = "(%s %s %s" % (self.e(a), n.operator.replace("_", " "), self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % (c.operator.replace("_", " "), self.e(c.operand2))
            c = c.cascade
        return s + ")"

    def e_CondExprNode(self, n):
        t = self.e(n.test)
        if t in ("True", "False"):
            return self.e(n.true_val if t == "True" else n.false_val)
        return "(%s if %s else %s)" % (self.e(n.true_val), t, self.e(n.false_val))

    def e_TypecastNode(self, n):
        nm = basename(n.base_type)
        if cname(n.declarator) == "CPtrDeclaratorNode":
            op = n.operand
            if cname(op) == "AttributeNode" and str(op.attribute) == "data":
                return "_nat.data(%s, %r)" % (self.e(op.obj), nm)
            return "_nat.data(%s, %r)" % (self.e(op), nm)
        v = self.e(n.operand)
        st = self.ty(n.operand)
        if nm in CTYPES and nm not in FLOATS and nm != "bint":
            if st is not None and st[0] == "c" and st[1] in FLOATS:
                return "_nat.trunc(%s)" % v
            return "_nat.cint(%s, %r)" % (v, nm)
        return v

    def e_AmpersandNode(self, n):
        x = n.operand
        if cname(x) != "IndexNode":
            raise Untranslated("address of %s" % cname(x))
        idx = x.index
        idx = [self.e(a) for a in idx.args] if cname(idx) == "TupleNode" else [self.e(idx)]
        return "_nat.addr(%s, (%s,), %r)" % (self.e(x.base), ", ".join(idx), self.env.bounds)

    def e_SizeofTypeNode(self, n): return "_nat.sizeof(%r)" % basename(n.base_type)

    def e_SizeofVarNode(self, n):
        x = n.operand
        if cname(x) == "IndexNode":
            return "_nat.elemsize(%s)" % self.e(x.base)
        if cname(x) == "NameNode" and str(x.name) in CTYPES:
            return "_nat.sizeof(%r)" % str(x.name)
        raise Untranslated("sizeof %s" % cname(x))

    def e_GeneratorExpressionNode(self, n):
        return "(%s)" % self.comp(n.loop)

    def comp(self, loop, ):
        """loop -> 'elt for target in seq if cond'"""
        clauses = []
        x = loop
        while True:
            k = cname(x)
            if k == "ForInStatNode":
                clauses.append("for %s in %s" % (self.e(x.target), self.e(x.iterator.sequence)))
                x = x.body
            elif k == "IfStatNode":
                clauses.append("if %s" % self.e(x.if_clauses[0].condition))
                x = x.if_clauses[0].body
            elif k == "StatListNode" and len(x.stats) == 1:
                x = x.stats[0]
            elif k == "ExprStatNode" and cname(x.expr) == "YieldExprNode":
                return "%s %s" % (self.e(x.expr.arg), " ".join(clauses))
            elif k == "ComprehensionAppendNode":
                return "%s %s" % (self.e(x.expr), " ".join(clauses))
            else:
                raise Untranslated("comprehension with %s" % k)

    def e_ComprehensionNode(self, n):
        br = {"list": "[%s]", "set": "{%s}"}.get(str(getattr(n.type, "name", "list")), "[%s]")
        return br % self.comp(n.loop)

    def e_LambdaNode(self, n): raise Untranslated("lambda")
