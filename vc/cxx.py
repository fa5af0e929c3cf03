"""cpu_kernels.hh -> Python source, mechanically, from clang's syntax tree of the template instantiations.

Every statement and expression of the instantiated function bodies is carried over one to one; what is dropped: types
(integers and reals become mathematical), const/static/inline, static_assert, the text of exception messages.  Pointers
become (array, offset) pairs whose every access is checked; a construct that is not translated raises."""
import json, os, re, subprocess, tempfile

FLOATS = ("float", "double")


class NotTranslated(Exception):
    pass


def clang(src, extra=()):
    with tempfile.NamedTemporaryFile("w", suffix=".cc", delete=False) as f:
        f.write(src)
    try:
        p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang",
                            "-ast-dump-filter=vckernels"] + list(extra) + [f.name], capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    if p.returncode:
        raise NotTranslated("clang: " + p.stderr[:2000])
    s, dec, pos = p.stdout, json.JSONDecoder(), 0
    while pos < len(s):
        k = s.find("{", pos)
        if k < 0:
            break
        d, pos = dec.raw_decode(s, k)
        if d.get("kind") == "NamespaceDecl" and d.get("name") == "vckernels":
            return d
    raise NotTranslated("no namespace in clang's output")


def kids(n):
    return [x for x in n.get("inner", []) if x]


def qt(n):
    return n.get("type", {}).get("qualType", "")


def instantiations(path):
    """syntax tree of the header with every function template instantiated at float and double"""
    text = open(path).read()
    incs = "".join(re.findall(r"^\s*#\s*include\s*<[^>]*>[^\n]*\n", text, re.M))
    head = incs + "namespace vckernels {\n#include \"%s\"\n" % os.path.abspath(path)
    d = clang(head + "}\n")
    calls, k = "", 0
    for t in kids(d):
        if t["kind"] != "FunctionTemplateDecl":
            continue
        ps = [x for x in kids(t) if x["kind"] == "TemplateTypeParmDecl"]
        if any(x.get("isParameterPack") for x in ps):
            continue
        fn = [x for x in kids(t) if x["kind"] == "FunctionDecl"][0]
        args = [qt(x) for x in kids(fn) if x["kind"] == "ParmVarDecl"]
        if not any("*" in a for a in args):
            continue
        names = [x["name"] for x in ps]
        for fl in FLOATS:
            for ints in ({"I": "int"}, {"I": "unsigned int"}) if "I" in names else ({},):
                sub = {n: (fl if n in ("A", "F", "T") else ints.get(n, "int")) for n in names}
                decl = []
                for j, a in enumerate(args):
                    a = re.sub(r"\btypename\b", "typename ", a)
                    for n in names:
                        a = re.sub(r"\b%s\b" % n, sub[n], a)
                    decl.append("%s a%d" % (a, j))
                calls += "static void vc_use%d(%s) { %s<%s>(%s); }\n" % (
                    k, ", ".join(decl), t["name"], ", ".join(sub[n] for n in names), ", ".join("a%d" % j for j in range(len(args))))
                k += 1
    return clang(head + calls + "}\n")


SIZES = {"float": 4, "double": 8, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1}
EXC = {"std::out_of_range": "IndexError", "std::invalid_argument": "ValueError", "std::domain_error": "ValueError", "std::overflow_error": "OverflowError",
       "std::bad_alloc": "MemoryError", "std::range_error": "ArithmeticError", "std::underflow_error": "ArithmeticError"}


class Fn:
    """one function body"""

    def __init__(self, tr, decl):
        self.tr, self.names, self.used = tr, {}, set()
        self.loops = []
        body = [x for x in kids(decl) if x["kind"] == "CompoundStmt"]
        self.params = []
        for x in kids(decl):
            if x["kind"] == "ParmVarDecl":
                self.params.append(self.declare(x))
        self.lines = []
        self.block(body[0], 1)
        if not self.lines:
            self.lines.append("    pass")

    def declare(self, d):
        n = d.get("name") or "_p"
        if n in PYKW:
            n += "_"
        m, k = n, 1
        while m in self.used:
            k += 1
            m = "%s_%d" % (n, k)
        self.used.add(m)
        if self.loops:
            m = "%s_vl%d" % (m, len(self.loops))  # declared inside that many loops: no value survives an iteration
        self.names[d["id"]] = m
        return m

    def put(self, ind, s):
        self.lines.append("    " * ind + s)

    def block(self, n, ind):
        k = len(self.lines)
        for s in (kids(n) if n["kind"] == "CompoundStmt" else [n]):
            self.stmt(s, ind)
        if len(self.lines) == k:
            self.put(ind, "pass")

    def stmt(self, s, ind):
        k = s["kind"]
        if k == "DeclStmt":
            for v in kids(s):
                if v["kind"] == "StaticAssertDecl" or v["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl"):
                    continue
                if v["kind"] != "VarDecl":
                    raise NotTranslated(v["kind"])
                i = kids(v)
                e = self.expr(i[0]) if i else None
                if "[" in qt(v):
                    m = re.match(r"(.*) ?\[(\d+)\]$", qt(v))
                    if not m or i:
                        raise NotTranslated("array " + qt(v))
                    e = "_nat.local_array(%r, %s)" % (m.group(1).strip(), m.group(2))
                n = self.declare(v)
                if e is not None:
                    self.put(ind, "%s = %s" % (n, e))
        elif k == "CompoundStmt":
            self.block(s, ind)
        elif k == "NullStmt":
            self.put(ind, "pass")
        elif k == "IfStmt":
            c = kids(s)
            if s.get("hasInit") or s.get("hasVar"):
                raise NotTranslated("if with initialiser")
            self.put(ind, "if %s:" % self.expr(c[0]))
            self.block(c[1], ind + 1)
            if len(c) > 2:
                self.put(ind, "else:")
                self.block(c[2], ind + 1)
        elif k == "ForStmt":
            self.for_(s, ind)
        elif k == "WhileStmt":
            c = kids(s)
            self.loops.append(None)
            self.put(ind, "while %s:" % self.expr(c[0]))
            self.put(ind + 1, "_mk%d = 0" % len(self.loops))
            self.block(c[1], ind + 1)
            self.loops.pop()
        elif k == "ContinueStmt":
            inc = self.loops[-1]
            if inc:
                self.stmt(inc, ind)
            self.put(ind, "continue")
        elif k == "BreakStmt":
            self.put(ind, "break")
        elif k == "ReturnStmt":
            c = kids(s)
            self.put(ind, "return %s" % self.expr(c[0]) if c else "return None")
        elif k == "UnaryOperator" and s["opcode"] in ("++", "--"):
            self.assign(kids(s)[0], "+" if s["opcode"] == "++" else "-", "1", ind)
        elif k == "BinaryOperator" and s["opcode"] == "=":
            self.assign(kids(s)[0], None, self.expr(kids(s)[1]), ind)
        elif k == "CompoundAssignOperator":
            self.assign(kids(s)[0], s["opcode"][:-1], self.expr(kids(s)[1]), ind)
        elif k == "BinaryOperator" and s["opcode"] == ",":
            for x in kids(s):
                self.stmt(x, ind)
        elif k in ("ExprWithCleanups", "ParenExpr"):
            self.stmt(kids(s)[0], ind)
        elif k == "CXXThrowExpr":
            self.put(ind, "raise _nat.CxxError(%s)" % self.thrown(kids(s)[0]))
        else:
            self.put(ind, self.expr(s))

    def thrown(self, n):
        t = qt(n)
        return EXC.get(t, "RuntimeError")

    def assign(self, lhs, op, val, ind):
        while lhs["kind"] == "ParenExpr":
            lhs = kids(lhs)[0]
        k = lhs["kind"]
        if k == "DeclRefExpr":
            n = self.names[lhs["referencedDecl"]["id"]]
            if op is None:
                self.put(ind, "%s = %s" % (n, val))
            else:
                self.put(ind, "%s = %s" % (n, self.arith(op, n, val, qt(lhs))))
            return
        if k == "MemberExpr":
            o = "%s.%s" % (self.expr(kids(lhs)[0]), lhs["name"])
            self.put(ind, "%s = %s" % (o, val if op is None else self.arith(op, o, val, qt(lhs))))
            return
        if k == "ArraySubscriptExpr":
            b, i = (self.expr(x) for x in kids(lhs))
        elif k == "UnaryOperator" and lhs["opcode"] == "*":
            b, i = self.expr(kids(lhs)[0]), "0"
        else:
            raise NotTranslated("assignment to " + k)
        if op is not None:
            val = self.arith(op, "_nat.ld(%s, %s)" % (b, i), val, qt(lhs))
        self.put(ind, "_nat.st(%s, %s, %s)" % (b, i, val))

    def arith(self, op, a, b, ty):
        ty = ty.replace("const ", "").strip()
        if op == "/":
            return ("(%s / _nat.nz(%s))" if ty in FLOATS else "_nat.cdiv(%s, %s)") % (a, b)
        if op == "%":
            return "_nat.cmod(%s, %s)" % (a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            return "_nat.bits(%r, %s, %s)" % (op, a, b)
        if op in ("+", "-", "*"):
            return "(%s %s %s)" % (a, op, b)
        raise NotTranslated("operator " + op)

    def assigned(self, n, out):
        """ids of variables assigned somewhere below n"""
        k = n.get("kind")
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&") or k == "CompoundAssignOperator" or k == "BinaryOperator" and n.get("opcode") == "=":
            t = kids(n)[0]
            while t["kind"] in ("ParenExpr", "MemberExpr"):
                t = kids(t)[0]
            if t["kind"] == "DeclRefExpr":
                out.add(t["referencedDecl"]["id"])
        for c in kids(n):
            self.assigned(c, out)
        return out

    def refs(self, n, out, deref):
        if n.get("kind") == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
        if n.get("kind") in ("ArraySubscriptExpr", "MemberExpr", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") or n.get("kind") == "UnaryOperator" and n.get("opcode") == "*":
            deref.append(n)
        for c in kids(n):
            self.refs(c, out, deref)
        return out

    def for_(self, s, ind):
        init, _, cond, inc, body = (s["inner"] + [None] * 5)[:5]
        init, cond, inc = init or None, cond or None, inc or None
        init = init if init and init.get("kind") else None
        cond = cond if cond and cond.get("kind") else None
        inc = inc if inc and inc.get("kind") else None
        v = None
        if init and init["kind"] == "DeclStmt" and len(kids(init)) == 1 and cond and inc:
            d = kids(init)[0]
            ok = d["kind"] == "VarDecl" and kids(d) and cond["kind"] == "BinaryOperator" and cond["opcode"] in ("<", "!=")
            if ok:
                l, r = kids(cond)
                while l["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    l = kids(l)[0]
                i = inc
                t = kids(i)[0] if kids(i) else None
                ok = (l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == d["id"] and i["kind"] == "UnaryOperator" and i["opcode"] == "++"
                      and t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] == d["id"] and cond["opcode"] == "<")
            if ok:
                mod = self.assigned(body, set())
                deref = []
                used = self.refs(r, set(), deref)
                if d["id"] not in mod and not (used & mod) and d["id"] not in used:
                    lo, hi = self.expr(kids(d)[0]), self.expr(r)
                    self.loops.append(None)
                    v = self.declare(d)
                    self.put(ind, "for %s in _nat.crange(%s, %s):" % (v, lo, hi))
                    self.put(ind + 1, "_mk%d = 0" % len(self.loops))
                    self.block(body, ind + 1)
                    self.loops.pop()
                    if deref:  # the bound is read from memory: the body must leave it alone
                        h = "_vc_hi%d" % len(self.lines)
                        for j in range(len(self.lines) - 1, -1, -1):
                            if self.lines[j].startswith("    " * ind + "for %s in _nat.crange(" % v):
                                self.lines[j] = "    " * ind + "for %s in _nat.crange(%s, %s):" % (v, lo, h)
                                self.lines.insert(j, "    " * ind + "%s = %s" % (h, hi))
                                break
                        self.put(ind + 1, "_nat.same(%s, %s)" % (h, hi))
                    return
        if init:
            self.stmt(init, ind)
        self.put(ind, "while %s:" % (self.expr(cond) if cond else "True"))
        self.loops.append(inc)
        self.put(ind + 1, "_mk%d = 0" % len(self.loops))
        self.block(body, ind + 1)
        self.loops.pop()
        if inc:
            self.stmt(inc, ind + 1)

    def expr(self, n):
        k = n["kind"]
        c = kids(n)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            return self.expr(c[0])
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            e = self.expr(c[0])
            ck = n.get("castKind")
            if ck == "FloatingToIntegral":
                return "_nat.trunc(%s)" % e
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                return "(%s != 0)" % e
            if ck == "IntegralCast" and "unsigned" in qt(n) or ck == "IntegralCast" and qt(n) in ("size_t", "unsigned long"):
                return e if re.fullmatch(r"\d+", e) else "_nat.unsigned(%s)" % e
            if ck in ("LValueToRValue", "NoOp", "IntegralCast", "IntegralToFloating", "FloatingCast", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast",
                      "ConstructorConversion", "NullToPointer"):
                return e
            raise NotTranslated("cast " + str(ck))
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["id"] in self.names:
                return self.names[r["id"]]
            if r["kind"] == "FunctionDecl":
                return self.tr.function(r, n)
            raise NotTranslated("reference to %s %s" % (r["kind"], r.get("name")))
        if k == "IntegerLiteral":
            return n["value"]
        if k == "FloatingLiteral":
            return "_nat.real(%r)" % n["value"]
        if k == "CXXBoolLiteralExpr":
            return str(bool(n["value"]))
        if k == "ArraySubscriptExpr":
            return "_nat.ld(%s, %s)" % (self.expr(c[0]), self.expr(c[1]))
        if k == "UnaryOperator":
            o = n["opcode"]
            e = None
            if o == "&":
                t = c[0]
                while t["kind"] == "ParenExpr":
                    t = kids(t)[0]
                if t["kind"] == "ArraySubscriptExpr":
                    a, b = (self.expr(x) for x in kids(t))
                    return "(%s + %s)" % (a, b)
                raise NotTranslated("address of " + t["kind"])
            e = self.expr(c[0])
            if o == "*":
                return "_nat.ld(%s, 0)" % e
            if o == "-":
                return "(-%s)" % e
            if o == "+":
                return e
            if o == "!":
                return "(not %s)" % e
            raise NotTranslated("operator %s in an expression" % o)
        if k == "BinaryOperator":
            o = n["opcode"]
            a, b = self.expr(c[0]), self.expr(c[1])
            if o in ("<", "<=", ">", ">=", "==", "!="):
                return "(%s %s %s)" % (a, o, b)
            if o in ("&&", "||"):
                return "(%s %s %s)" % (a, "and" if o == "&&" else "or", b)
            if o in ("=", ","):
                raise NotTranslated("assignment inside an expression")
            return self.arith(o, a, b, qt(n))
        if k == "ConditionalOperator":
            return "(%s if %s else %s)" % (self.expr(c[1]), self.expr(c[0]), self.expr(c[2]))
        if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof":
            t = n.get("argType", {}).get("qualType") or qt(self.strip(c[0]))
            t = t.replace("const ", "").strip()
            if t not in SIZES:
                raise NotTranslated("sizeof " + t)
            return str(SIZES[t])
        if k == "CallExpr":
            f = self.expr(c[0])
            return "%s(%s)" % (f, ", ".join(self.expr(x) for x in c[1:] if x["kind"] != "CXXDefaultArgExpr"))
        if k == "MemberExpr":
            return "%s.%s" % (self.expr(c[0]), n["name"])
        if k == "InitListExpr":
            fs = self.tr.fields(qt(n))
            return "_nat.Struct(%s)" % ", ".join("%s=%s" % (f, self.expr(x)) for f, x in zip(fs, c))
        if k == "CXXConstructExpr" and len(c) == 1 and qt(c[0]).replace("const ", "") == qt(n).replace("const ", ""):
            return "_nat.copy(%s)" % self.expr(c[0])
        if k in ("CStyleCastExpr",):
            return self.expr(c[0])
        raise NotTranslated("expression " + k)

    @staticmethod
    def strip(n):
        while n["kind"] == "ParenExpr":
            n = kids(n)[0]
        return n


PYKW = {"in", "is", "lambda", "from", "def", "pass", "None", "True", "False", "len", "max", "min", "with", "as", "global", "print", "range", "del", "not", "and", "or", "_nat"}
STD = {"max": "_nat.cmax", "min": "_nat.cmin", "memcpy": "_nat.memcpy", "memset": "_nat.memset", "memmove": "_nat.memcpy", "tanh": "_nat.tanh", "exp": "_nat.exp", "log": "_nat.log",
       "sqrt": "_nat.sqrt", "abs": "abs", "fabs": "abs", "copy_n": "_nat.copy_n", "log1p": "_nat.log1p", "pow": "_nat.pow", "erf": "_nat.erf", "fill_n": "_nat.fill_n",
       "tanhf": "_nat.tanh", "expf": "_nat.exp", "logf": "_nat.log", "sqrtf": "_nat.sqrt"}


class Translator:
    def __init__(self, path):
        self.root = instantiations(path)
        self.decls, self.records, self.todo = {}, {}, []
        self.walk(self.root, None)
        self.out = {}  # python name -> source
        self.sig = {}  # python name -> (C++ name, parameter types)

    def walk(self, n, templ):
        for x in kids(n):
            k = x["kind"]
            if k == "FunctionTemplateDecl":
                self.walk(x, x["name"])
            elif k == "FunctionDecl":
                concrete = templ is None or any(y["kind"] == "TemplateArgument" for y in kids(x))
                if concrete and any(y["kind"] == "CompoundStmt" for y in kids(x)):
                    self.decls[x["id"]] = x
            elif k in ("ClassTemplateDecl", "NamespaceDecl"):
                self.walk(x, None)
            elif k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl"):
                fs = [y["name"] for y in kids(x) if y["kind"] == "FieldDecl"]
                args = [qt(y) for y in kids(x) if y["kind"] == "TemplateArgument"]
                self.records.setdefault(x.get("name", "") + ("<%s>" % ", ".join(args) if args else ""), fs)

    def fields(self, t):
        t = t.replace("const ", "").split("::")[-1]
        if t not in self.records:
            raise NotTranslated("record " + t)
        return self.records[t]

    @staticmethod
    def pyname(d):
        return "k" + re.sub(r"\W", "_", d.get("mangledName") or d["name"])

    def function(self, r, n):
        d = self.decls.get(r["id"])
        if d is not None:
            self.need(d)
            return "_nat.call(%r)" % self.pyname(d)
        if r["name"] in STD:
            return STD[r["name"]]
        raise NotTranslated("call of " + r["name"])

    def need(self, d):
        n = self.pyname(d)
        if n not in self.out:
            self.out[n] = None
            self.sig[n] = (d["name"], [qt(x) for x in kids(d) if x["kind"] == "ParmVarDecl"])
            f = Fn(self, d)
            self.out[n] = "def %s(%s):\n%s\n" % (n, ", ".join(f.params), "\n".join(f.lines))
        return n

    def all(self):
        """{C++ name: [(python name, parameter types)]}; a body outside the fragment is left out, its reason kept"""
        self.failed = {}
        for d in list(self.decls.values()):
            if d["name"].startswith("vc_use"):
                continue
            try:
                self.need(d)
            except NotTranslated as e:
                self.failed[d["name"]] = str(e)
        table = {}
        for n, (name, tys) in self.sig.items():
            table.setdefault(name, []).append((n, tys))
        return "\n".join(s for s in self.out.values() if s), table


if __name__ == "__main__":
    import sys
    t = Translator(sys.argv[1])
    src, table = t.all()
    print(src)
    print(table)
    print(t.failed)
