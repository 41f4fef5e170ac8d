"""Front end: clang's resolved syntax tree (JSON) of every translation unit
of /repo, lowered to a small expression IR plus a control-flow graph per
function.  Nothing of /repo is executed: the only use of the compiler is
-fsyntax-only."""
import json, os, subprocess, sys, shutil, tempfile, glob, re
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("ORT_REPO", "/repo")

# translation units that are part of the product (compats.c: portability
# replacements for libc, test.c/tests.c: configure and regression drivers).
SKIP = {"compats.c", "test.c", "tests.c", "jsmn.c", "db.c", "jsmn.h"}


def clang():
    for c in ("/usr/lib/llvm-18/bin/clang", "/usr/bin/clang-18", "clang"):
        if os.path.exists(c) or shutil.which(c):
            return c
    raise SystemExit("no clang")


class Fatal(Exception):
    pass


# ---------------------------------------------------------------- IR
class E:
    """Expression.  k: kind; the rest by kind:
       int v | str s | var name,uid,vk | mem base,field,arrow | un op,a
       bin op,a,b | asg op,a,b | call fn,args | cond a,b,c | idx a,b
       inc op,a | list args | stmtexpr body | fn name | unk"""
    __slots__ = ("k", "v", "a", "b", "c", "args", "line", "ty", "uid", "vk",
                 "file", "id", "impl")

    def __init__(self, k, line, ty="", **kw):
        self.k = k
        self.line = line
        self.ty = ty
        self.v = self.a = self.b = self.c = self.args = None
        self.uid = self.vk = self.file = self.impl = None
        self.id = 0
        for x, y in kw.items():
            setattr(self, x, y)

    def __repr__(self):
        return show(self)


def show(e):
    if e is None:
        return "_"
    k = e.k
    if k == "int":
        return str(e.v)
    if k == "str":
        return json.dumps(e.v)
    if k in ("var", "fn", "enum"):
        return str(e.v)
    if k == "mem":
        return "%s%s%s" % (show(e.a), "->" if e.c else ".", e.v)
    if k == "un":
        return "%s(%s)" % (e.v, show(e.a))
    if k in ("bin", "asg"):
        return "(%s %s %s)" % (show(e.a), e.v, show(e.b))
    if k == "call":
        return "%s(%s)" % (show(e.a), ", ".join(map(show, e.args)))
    if k == "cond":
        return "(%s ? %s : %s)" % (show(e.a), show(e.b), show(e.c))
    if k == "idx":
        return "%s[%s]" % (show(e.a), show(e.b))
    if k == "inc":
        return "%s(%s)" % (e.v, show(e.a))
    if k == "list":
        return "{%s}" % ", ".join(map(show, e.args))
    return "<%s>" % k


class Func:
    __slots__ = ("name", "file", "line", "endline", "params", "static", "body",
                 "ret", "key", "entry", "nodes", "locals", "variadic",
                 "addrtaken", "live", "vtypes", "callees")

    def __repr__(self):
        return "<%s:%s>" % (self.file, self.name)


class Node:
    """CFG node.  k: e (expr,s0) | br (expr,s0 true,s1 false)
       | sw (expr, cases [(vals, succ)], default succ) | ret (expr) | nop"""
    __slots__ = ("id", "k", "e", "succ", "cases", "line", "var")

    def __init__(self, i, k, e=None, line=0):
        self.id = i
        self.k = k
        self.e = e
        self.succ = []
        self.cases = None
        self.line = line
        self.var = None


NORETURN = {"abort", "exit", "_exit", "err", "errx", "verr", "verrx",
            "__assert_fail", "usage"}


CONSTARRAY = re.compile(r"(const [^*\[]*|.*\*\s*const\s*)\[")


class TU:
    """Lower one translation unit."""

    def __init__(self, fname, root):
        self.fname = fname
        self.tag = fname.rsplit(".", 1)[0].replace("-", "_") + "_"
        self.funcs = []
        self.enums = {}      # enum name -> [(enumerator, value)]
        self.records = {}    # record name -> [(field, type)]
        self.globals = {}    # name -> (type, init E, file, line)
        self.protos = {}     # name -> (file, line, return type, ptypes)
        self.uids = {}
        self.tables = set()
        self.nuid = 0
        self.curfile = None
        self.curline = 0
        self.eid = 0
        for d in root.get("inner", []):
            self.decl(d)

    # clang's JSON omits "file"/"line" when unchanged from the last printed
    # location, so every location has to be visited in print order.
    def loc(self, l):
        if not l:
            return None
        if "spellingLoc" in l or "expansionLoc" in l:
            self.loc(l.get("spellingLoc"))
            return self.loc(l.get("expansionLoc"))
        if "file" in l:
            self.curfile = l["file"]
        if "line" in l:
            self.curline = l["line"]
        if "offset" not in l and "line" not in l and "file" not in l:
            return None
        return (self.curfile, self.curline)

    def pos(self, n):
        p = self.loc(n.get("loc"))
        r = n.get("range")
        if r:
            b = self.loc(r.get("begin"))
            e = self.loc(r.get("end"))
            n["_end"] = e
            p = p or b
            n["_b"] = b
        n["_p"] = p
        return p

    def skip(self, n):
        """Keep the location state consistent over an ignored subtree."""
        if isinstance(n, dict):
            if "kind" in n and ("range" in n or "loc" in n):
                self.pos(n)
            for k in n.get("inner", []):
                self.skip(k)

    def mine(self, f):
        return f is not None and os.path.dirname(os.path.abspath(f)) == self.root

    root = None

    def decl(self, d):
        k = d.get("kind")
        p = self.pos(d)
        f = p[0] if p else None
        if k == "EnumDecl":
            nm = d.get("name", "")
            val = -1
            out = []
            for c in d.get("inner", []):
                self.pos(c)
                if c["kind"] != "EnumConstantDecl":
                    self.skip(c)
                    continue
                v = None
                for x in c.get("inner", []):
                    v = self.constval(x, v)
                    self.skip(x)
                val = int(v) if v is not None else val + 1
                out.append((c["name"], val))
            if f and self.inrepo(f):
                self.enums[nm or ("anon@%d" % (p[1]))] = out
        elif k == "RecordDecl":
            self.record(d)
        elif k == "FunctionDecl":
            self.func(d, f, p)
        elif k == "VarDecl":
            self.var(d, True, f, p)
        else:
            for c in d.get("inner", []):
                self.skip(c)

    def inrepo(self, f):
        return self.mine(f)

    def constval(self, x, d=None):
        if "value" in x and x["kind"] in ("ConstantExpr", "IntegerLiteral"):
            return int(x["value"])
        for y in x.get("inner", []):
            r = self.constval(y)
            if r is not None:
                return r
        return d

    def uid(self, i, name):
        if i not in self.uids:
            self.nuid += 1
            self.uids[i] = "%s#%s%d" % (name, self.tag, self.nuid)
        return self.uids[i]

    def func(self, d, f, p):
        body = None
        params = []
        for c in d.get("inner", []):
            if c["kind"] == "ParmVarDecl":
                self.pos(c)
                params.append((self.uid(c["id"], c.get("name", "_")),
                               c["type"]["qualType"], c.get("name", "_")))
                for x in c.get("inner", []):
                    self.skip(x)
            elif c["kind"] == "CompoundStmt":
                body = c
                if not self.inrepo(f):
                    self.skip(c)
            else:
                self.skip(c)
        ret = d["type"]["qualType"].split("(")[0].strip()
        if body is None or not self.inrepo(f):
            if f and self.inrepo(f):
                self.protos[d["name"]] = (os.path.basename(f), p[1], ret,
                                          [x[1] for x in params])
            return
        fn = Func()
        fn.name = d["name"]
        fn.file = os.path.basename(f)
        fn.line = p[1]
        fn.static = d.get("storageClass") == "static"
        fn.params = params
        fn.ret = ret
        fn.variadic = d.get("variadic", False)
        fn.vtypes = {u: t for u, t, n in params}
        fn.addrtaken = set()
        fn.callees = set()
        self.cf = fn
        b = Builder(self, fn)
        b.run(body)
        fn.endline = d["_end"][1] if d.get("_end") else 0
        self.funcs.append(fn)

    def record(self, d):
        nm = d.get("name", "")
        if not nm and "col" in d.get("loc", {}):
            p = d.get("_p") or self.pos(d)
            if p:
                nm = "(unnamed struct at %s:%s:%s)" % (
                    p[0], p[1], d["loc"]["col"])
        fl = []
        for c in d.get("inner", []):
            self.pos(c)
            if c["kind"] == "FieldDecl":
                fl.append((c.get("name", ""), c["type"]["qualType"]))
                for x in c.get("inner", []):
                    self.skip(x)
            elif c["kind"] == "RecordDecl":
                sub = []
                for y in c.get("inner", []):
                    self.pos(y)
                    if y["kind"] == "FieldDecl":
                        sub.append((y.get("name", ""),
                                    y["type"]["qualType"]))
                    for x in y.get("inner", []):
                        self.skip(x)
                fl.append(("<anon>", sub))
            elif c["kind"] == "EnumDecl":
                self.skip(c)
            else:
                for x in c.get("inner", []):
                    self.skip(x)
        if fl and nm:
            self.records[nm] = fl

    def var(self, d, isglobal, f, p):
        init = None
        for c in d.get("inner", []):
            if init is None and "kind" in c and c["kind"].endswith(
                    ("Expr", "Operator", "Literal", "Cleanups")):
                if isglobal and not self.inrepo(f):
                    self.skip(c)
                else:
                    init = self.expr(c)
            else:
                self.skip(c)
        ty = d["type"]["qualType"]
        if isglobal and f and self.inrepo(f):
            if init is not None or d["name"] not in self.globals:
                self.globals[d["name"]] = (ty, init, os.path.basename(f),
                                           p[1] if p else 0)
        return init, ty

    # ------------------------------------------------------ expressions
    def expr(self, n):
        e = self._expr(n)
        e.file = self.fname
        self.eid += 1
        e.id = self.eid
        return e

    def _expr(self, n):
        k = n.get("kind")
        p = self.pos(n)
        # calls through macros: report the expansion line
        line = (n.get("_b") or p or (None, self.curline))[1]
        ty = n.get("type", {}).get("qualType", "")
        inn = n.get("inner", [])
        if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr",
                 "ConstantExpr", "ExprWithCleanups"):
            e = None
            for c in inn:
                if c.get("kind", "").endswith(("Expr", "Operator", "Literal")):
                    e = self.expr(c)
                else:
                    self.skip(c)
            if e is None:
                return E("unk", line, ty)
            if k == "ConstantExpr" and "value" in n and e.k != "enum":
                e2 = E("int", line, ty, v=int(n["value"]))
                return e2
            ck = n.get("castKind")
            if ck == "NullToPointer":
                return E("int", line, ty, v=0)
            if ck == "ToVoid":
                return E("un", line, "void", v="(void)", a=e)
            if k == "CStyleCastExpr" and ck in ("BitCast", "IntegralCast"):
                e.ty = ty
            return e
        if k == "IntegerLiteral":
            return E("int", line, ty, v=int(n["value"]))
        if k == "CharacterLiteral":
            return E("int", line, ty, v=int(n["value"]))
        if k == "FloatingLiteral":
            return E("unk", line, ty, v=n.get("value"))
        if k == "StringLiteral":
            v = n["value"]
            try:
                s = json.loads(v)
            except Exception:
                s = cunescape(v)
            return E("str", line, ty, v=s)
        if k == "PredefinedExpr":
            for c in inn:
                self.skip(c)
            return E("str", line, ty, v="__func__")
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            rk = r["kind"]
            if rk == "EnumConstantDecl":
                return E("enum", line, r.get("type", {}).get("qualType", ty),
                         v=r["name"])
            if rk == "FunctionDecl":
                return E("fn", line, ty, v=r["name"])
            vk = "param" if rk == "ParmVarDecl" else \
                ("local" if r["id"] in self.uids else "global")
            if vk == "param" and r["id"] not in self.uids:
                vk = "global"
            if vk == "global":
                return E("var", line, ty, v=r["name"], uid=r["name"], vk=vk)
            u = self.uid(r["id"], r["name"])
            return E("var", line, ty, v=r["name"], uid=u,
                     vk="global" if u in self.tables else vk)
        if k == "MemberExpr":
            b = self.expr(inn[0])
            nm = n["name"]
            arrow = n.get("isArrow", False)
            if nm == "":
                # anonymous union/struct member: transparent
                if arrow:
                    return E("un", line, ty, v="*", a=b)
                return b
            return E("mem", line, ty, v=nm, a=b, c=arrow)
        if k == "ArraySubscriptExpr":
            a = self.expr(inn[0])
            b = self.expr(inn[1])
            return E("idx", line, ty, a=a, b=b)
        if k == "UnaryOperator":
            op = n["opcode"]
            a = self.expr(inn[0])
            if op in ("++", "--"):
                return E("inc", line, ty, v=("post" if n.get("isPostfix")
                                             else "pre") + op, a=a)
            if op == "__extension__":
                return a
            return E("un", line, ty, v=op, a=a)
        if k == "BinaryOperator":
            op = n["opcode"]
            a = self.expr(inn[0])
            b = self.expr(inn[1])
            if op == "=":
                return E("asg", line, ty, v="=", a=a, b=b)
            if op == "&" and a.k == "idx" and b.k == "enum" and \
                    b.v.startswith("_IS") and "__ctype_b_loc" in show(a.a):
                # glibc's expansion of isspace() and friends
                fe = E("fn", line, "int (int)", v="is" + b.v[3:])
                fe.file = self.fname
                return E("call", line, "int", a=fe, args=[a.b])
            return E("bin", line, ty, v=op, a=a, b=b)
        if k == "CompoundAssignOperator":
            a = self.expr(inn[0])
            b = self.expr(inn[1])
            return E("asg", line, ty, v=n["opcode"], a=a, b=b)
        if k in ("ConditionalOperator",):
            a = self.expr(inn[0])
            b = self.expr(inn[1])
            c = self.expr(inn[2])
            return E("cond", line, ty, a=a, b=b, c=c)
        if k == "CallExpr":
            a = self.expr(inn[0])
            args = [self.expr(c) for c in inn[1:]]
            return E("call", line, ty, a=a, args=args)
        if k == "InitListExpr":
            args = [self.expr(c) for c in
                    (inn if inn else n.get("array_filler", []))
                    if c.get("kind") != "ImplicitValueInitExpr"] \
                if inn else []
            if not inn and "array_filler" in n:
                args = []
                for c in n["array_filler"]:
                    if c.get("kind") == "ImplicitValueInitExpr":
                        self.skip(c)
                        continue
                    args.append(self.expr(c))
            return E("list", line, ty, args=args)
        if k == "StmtExpr":
            return E("stmtexpr", line, ty, v=self.stmtexpr(n))
        if k == "UnaryExprOrTypeTraitExpr":
            for c in inn:
                self.skip(c)
            at = n.get("argType", {}).get("qualType", "")
            if not at and inn:
                at = inn[0].get("type", {}).get("qualType", "")
            return E("sizeof", line, ty, v=at)
        if k == "ImplicitValueInitExpr":
            return E("int", line, ty, v=0)
        if k == "CompoundLiteralExpr":
            e = None
            for c in inn:
                if c.get("kind", "").endswith(("Expr", "Literal")):
                    e = self.expr(c)
                else:
                    self.skip(c)
            return e or E("unk", line, ty)
        for c in inn:
            self.skip(c)
        return E("unk", line, ty, v=k)

    def stmtexpr(self, n):
        # lowered by the builder when it appears as a statement (assert);
        # contents are kept raw for it.
        return n.get("inner", [])


def cunescape(v):
    v = v.strip()
    if v.startswith(("u8", "L")):
        v = v[v.index('"'):]
    v = v[1:-1]
    out = []
    i = 0
    m = {"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\", "0": "\0",
         "a": "\a", "b": "\b", "f": "\f", "v": "\v", "'": "'", "?": "?"}
    while i < len(v):
        c = v[i]
        if c == "\\" and i + 1 < len(v):
            n = v[i + 1]
            if n in "01234567":
                j = i + 1
                while j < len(v) and j < i + 4 and v[j] in "01234567":
                    j += 1
                out.append(chr(int(v[i + 1:j], 8)))
                i = j
                continue
            if n == "x":
                j = i + 2
                while j < len(v) and v[j] in "0123456789abcdefABCDEF":
                    j += 1
                out.append(chr(int(v[i + 2:j], 16) & 0xff))
                i = j
                continue
            out.append(m.get(n, n))
            i += 2
            continue
        out.append(c)
        i += 1
    return "".join(out)


class Builder:
    """Statement lowering to a CFG."""

    def __init__(self, tu, fn):
        self.tu = tu
        self.fn = fn
        self.nodes = []
        self.labels = {}
        self.gotos = []

    def new(self, k, e=None, line=0):
        n = Node(len(self.nodes), k, e, line)
        self.nodes.append(n)
        return n

    def run(self, body):
        fn = self.fn
        ent = self.new("nop")
        outs = self.stmt(body, [(ent, 0)], None, None)
        if outs:
            r = self.new("ret", None, fn.line)
            self.link(outs, r)
            r.line = (body.get("_end") or (None, 0))[1]
        for n, lab in self.gotos:
            if lab not in self.labels:
                raise Fatal("label %s in %s" % (lab, fn.name))
            n.succ = [self.labels[lab]]
        fn.entry = ent
        fn.nodes = self.nodes
        # resolve succ lists to ids
        for n in self.nodes:
            n.succ = [s.id if s is not None else None for s in n.succ]
            if n.cases is not None:
                n.cases = [(v, s.id) for v, s in n.cases]
        self.prune()

    def prune(self):
        for n in self.nodes:
            n.succ = [s for s in n.succ] if n.succ else []

    # "outs" are dangling edges: (node, index into succ)
    def link(self, outs, n):
        for o, i in outs:
            while len(o.succ) <= i:
                o.succ.append(None)
            o.succ[i] = n

    def seq(self, outs, k, e, line):
        n = self.new(k, e, line)
        self.link(outs, n)
        return n

    def cond(self, e, outs):
        """Branch on e: returns (true outs, false outs)."""
        while e.k == "call" and e.a.k == "fn" and \
                e.a.v == "__builtin_expect" and e.args:
            e = e.args[0]
        if e.k == "un" and e.v == "!":
            t, f = self.cond(e.a, outs)
            return f, t
        if e.k == "bin" and e.v == "&&":
            t, f = self.cond(e.a, outs)
            t2, f2 = self.cond(e.b, t)
            return t2, f + f2
        if e.k == "bin" and e.v == "||":
            t, f = self.cond(e.a, outs)
            t2, f2 = self.cond(e.b, f)
            return t + t2, f2
        if e.k == "bin" and e.v == ",":
            n = self.seq(outs, "e", e.a, e.line)
            return self.cond(e.b, [(n, 0)])
        if e.k == "int":
            if e.v:
                return outs, []
            return [], outs
        n = self.seq(outs, "br", e, e.line)
        n.succ = [None, None]
        return [(n, 0)], [(n, 1)]

    def exprstmt(self, e, outs):
        """Evaluate e for effect; returns outs."""
        while e.k == "un" and e.v in ("(void)",):
            e = e.a
        if e.k == "bin" and e.v == ",":
            outs = self.exprstmt(e.a, outs)
            return self.exprstmt(e.b, outs)
        if e.k == "stmtexpr":
            for c in e.v:
                outs = self.stmt(c, outs, None, None)
            return outs
        if e.k == "cond":
            t, f = self.cond(e.a, outs)
            return self.exprstmt(e.b, t) + self.exprstmt(e.c, f)
        if e.k == "bin" and e.v in ("&&", "||"):
            t, f = self.cond(e, outs)
            return t + f
        if e.k in ("int", "sizeof"):
            return outs
        n = self.seq(outs, "e", e, e.line)
        if e.k == "call" and e.a.k == "fn" and e.a.v in NORETURN:
            return []
        return [(n, 0)]

    def stmt(self, s, outs, brk, cont):
        tu = self.tu
        k = s.get("kind")
        if k is None:
            return outs
        if k.endswith(("Expr", "Operator", "Literal")):
            return self.exprstmt(tu.expr(s), outs)
        p = tu.pos(s)
        line = (s.get("_b") or p or (None, tu.curline))[1]
        inn = s.get("inner", [])
        if k == "CompoundStmt":
            for c in inn:
                outs = self.stmt(c, outs, brk, cont)
            return outs
        if k == "DeclStmt":
            for d in inn:
                tu.pos(d)
                if d["kind"] != "VarDecl":
                    if d["kind"] == "RecordDecl":
                        tu.record(d)
                    else:
                        for c in d.get("inner", []):
                            tu.skip(c)
                    continue
                u = tu.uid(d["id"], d["name"])
                isstatic = d.get("storageClass") == "static"
                init, ty = tu.var(d, False, None, None)
                self.fn.vtypes[u] = ty
                if CONSTARRAY.match(ty) and init is not None:
                    # a table: as good as a constant of the file
                    isstatic = True
                    tu.tables.add(u)
                if isstatic:
                    tu.globals[u] = (ty, init, tu.fname, line)
                v = E("var", line, ty, v=d["name"], uid=u,
                      vk="global" if isstatic else "local")
                v.file = tu.fname
                if init is not None and not isstatic:
                    e = E("asg", line, ty, v="=init", a=v, b=init)
                    e.file = tu.fname
                    tu.eid += 1
                    e.id = tu.eid
                    outs = [(self.seq(outs, "e", e, line), 0)]
                elif not isstatic:
                    n = self.seq(outs, "decl", v, line)
                    outs = [(n, 0)]
            return outs
        if k == "NullStmt":
            return outs
        if k == "IfStmt":
            c = tu.expr(inn[0])
            t, f = self.cond(c, outs)
            to = self.stmt(inn[1], t, brk, cont)
            if s.get("hasElse"):
                f = self.stmt(inn[2], f, brk, cont)
            return to + f
        if k == "WhileStmt":
            head = self.seq(outs, "nop", None, line)
            c = tu.expr(inn[0])
            t, f = self.cond(c, [(head, 0)])
            b, cc = [], []
            o = self.stmt(inn[1], t, b, cc)
            self.link(o + cc, head)
            return f + b
        if k == "DoStmt":
            head = self.seq(outs, "nop", None, line)
            b, cc = [], []
            o = self.stmt(inn[0], [(head, 0)], b, cc)
            ch = self.seq(o + cc, "nop", None, line)
            c = tu.expr(inn[1])
            t, f = self.cond(c, [(ch, 0)])
            self.link(t, head)
            return f + b
        if k == "ForStmt":
            # inner: init, condvar, cond, inc, body (empty dicts if absent)
            init, _, c, inc, body = inn
            if init:
                outs = self.stmt(init, outs, None, None)
            head = self.seq(outs, "nop", None, line)
            if c:
                t, f = self.cond(tu.expr(c), [(head, 0)])
            else:
                t, f = [(head, 0)], []
            # locations are printed inc before body
            ie = tu.expr(inc) if inc else None
            b, cc = [], []
            o = self.stmt(body, t, b, cc)
            o = o + cc
            if ie is not None:
                o = self.exprstmt(ie, o)
            self.link(o, head)
            return f + b
        if k == "SwitchStmt":
            c = tu.expr(inn[0])
            n = self.seq(outs, "sw", c, line)
            n.cases = []
            n.succ = []
            sw = {"node": n, "default": False}
            b = []
            self.swstack = getattr(self, "swstack", [])
            self.swstack.append(sw)
            o = self.stmt(inn[1], [], b, cont)
            self.swstack.pop()
            res = o + b
            if not sw["default"]:
                # implicit default edge: succ[0]
                res = res + [(n, 0)]
            return res
        if k in ("CaseStmt", "DefaultStmt"):
            sw = self.swstack[-1]
            tgt = self.seq(outs, "nop", None, line)
            if k == "CaseStmt":
                v = tu.expr(inn[0])
                rest = inn[1:]
                val = v.v
                sw["node"].cases.append(([val], tgt))
            else:
                rest = inn
                sw["default"] = True
                sw["node"].succ = [tgt]
            o = [(tgt, 0)]
            for c in rest:
                o = self.stmt(c, o, brk, cont)
            return o
        if k == "BreakStmt":
            n = self.seq(outs, "nop", None, line)
            brk.append((n, 0))
            return []
        if k == "ContinueStmt":
            n = self.seq(outs, "nop", None, line)
            cont.append((n, 0))
            return []
        if k == "GotoStmt":
            n = self.seq(outs, "nop", None, line)
            self.gotos.append((n, s["targetLabelDeclId"]))
            return []
        if k == "LabelStmt":
            n = self.seq(outs, "nop", None, line)
            self.labels[s["declId"]] = n
            o = [(n, 0)]
            for c in inn:
                o = self.stmt(c, o, brk, cont)
            return o
        if k == "ReturnStmt":
            e = tu.expr(inn[0]) if inn else None
            self.seq(outs, "ret", e, line)
            return []
        if k == "AttributedStmt":
            for c in inn:
                if c.get("kind", "").endswith("Attr"):
                    tu.skip(c)
                else:
                    outs = self.stmt(c, outs, brk, cont)
            return outs
        raise Fatal("statement %s at %s:%s" % (k, tu.fname, line))


# ------------------------------------------------------------- program
def parse_tu(arg):
    path, inc = arg
    cmd = [clang(), "-w", "-Xclang", "-ast-dump=json", "-fsyntax-only",
           "-I" + inc, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return ("error", os.path.basename(path), r.stderr.decode()[-2000:])
    root = json.loads(r.stdout)
    sys.setrecursionlimit(20000)
    TU.root = os.path.abspath(inc)
    try:
        tu = TU(os.path.basename(path), root)
    except Fatal as x:
        return ("error", os.path.basename(path), str(x))
    return ("ok", os.path.basename(path), tu.funcs, tu.enums, tu.records,
            tu.globals, tu.protos)


class Program:
    def __init__(self):
        self.funcs = {}      # key -> Func
        self.byname = {}     # name -> [Func]
        self.enums = {}
        self.enumof = {}     # enumerator -> (enum name, value)
        self.records = {}
        self.globals = {}    # (file,name) and name -> (ty, init, file, line)
        self.protos = {}
        self.files = []
        self.macros = {}

    def macro(self, name):
        if name in self.macros:
            return self.macros[name]
        if name in self.enumof:
            return self.enumof[name][1]
        raise Fatal("constant %s is gone" % name)

    def resolve(self, name, file):
        """Callee by name as seen from file."""
        l = self.byname.get(name)
        if not l:
            return None
        for f in l:
            if f.static and f.file == file:
                return f
        for f in l:
            if not f.static:
                return f
        return None

    def mods(self, f):
        """Names of the fields written by f or what it calls ("*": written
        through a bare pointer or array)."""
        if not hasattr(self, "_mods"):
            own = {}
            for g in self.funcs.values():
                w = set()
                for n in g.nodes:
                    for x in walk(n.e):
                        if x.k in ("asg", "inc"):
                            y = x.a
                            while y.k == "idx":
                                y = y.a
                            w.add(y.v if y.k == "mem" else "*")
                        elif x.k == "un" and x.v == "&":
                            y = x.a
                            while y.k == "idx":
                                y = y.a
                            w.add(y.v if y.k == "mem" else "*")
                own[g.key] = w
            ch = True
            while ch:
                ch = False
                for g in self.funcs.values():
                    w = own[g.key]
                    n0 = len(w)
                    for c in g.callees:
                        h = self.resolve(c, g.file)
                        if h is not None:
                            w |= own[h.key]
                    ch = ch or len(w) != n0
            self._mods = own
        return self._mods[f.key]

    def globalvar(self, name, file):
        return self.globals.get((file, name)) or self.globals.get(name)

    def func(self, name, file=None):
        l = [f for f in self.byname.get(name, [])
             if file is None or f.file == file]
        if not l:
            raise Fatal("anchor vanished: function %s" % name)
        return l[0]


def walk(e):
    """All sub-expressions, preorder."""
    st = [e]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        if x.args:
            st.extend(reversed(x.args))
        for y in (x.c, x.b, x.a):
            if isinstance(y, E):
                st.append(y)


def load(tus=None, repo=None):
    repo = repo or REPO
    tmp = None
    if not os.path.exists(os.path.join(repo, "config.h")):
        # config.h is generated (git-ignored): produce it in a copy
        tmp = tempfile.mkdtemp(prefix="ortfe")
        for f in os.listdir(repo):
            p = os.path.join(repo, f)
            if os.path.isfile(p):
                shutil.copy(p, tmp)
        subprocess.run(["./configure"], cwd=tmp, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        repo = tmp
        if not os.path.exists(os.path.join(repo, "config.h")):
            raise Fatal("cannot produce config.h")
    try:
        if not os.path.exists(os.path.join(repo, "ort-paths.h")):
            tmp2 = tempfile.mkdtemp(prefix="ortfe")
            for f in os.listdir(repo):
                p = os.path.join(repo, f)
                if os.path.isfile(p):
                    shutil.copy(p, tmp2)
            with open(os.path.join(tmp2, "ort-paths.h"), "w") as fp:
                fp.write('#define SHAREDIR "/usr/local/share/openradtool"\n')
            if tmp:
                shutil.rmtree(tmp)
            tmp = repo = tmp2
        srcs = sorted(os.path.basename(x)
                      for x in glob.glob(os.path.join(repo, "*.c")))
        srcs = [s for s in srcs if s not in SKIP]
        if tus is not None:
            srcs = [s for s in srcs if s in tus]
        with ProcessPoolExecutor(max_workers=8) as ex:
            # largest first
            srcs.sort(key=lambda s: -os.path.getsize(os.path.join(repo, s)))
            res = list(ex.map(parse_tu, [(os.path.join(repo, s), repo)
                                         for s in srcs]))
    finally:
        if tmp:
            shutil.rmtree(tmp)
    pr = Program()
    for r in res:
        if r[0] == "error":
            raise Fatal("cannot analyse %s: %s" % (r[1], r[2]))
        _, fn, funcs, enums, records, globs, protos = r
        pr.files.append(fn)
        for f in funcs:
            f.key = (f.file, f.name)
            if f.key in pr.funcs:
                continue
            pr.funcs[f.key] = f
            pr.byname.setdefault(f.name, []).append(f)
        for k, v in enums.items():
            pr.enums[k] = v
            for n, val in v:
                pr.enumof[n] = (k, val)
        pr.records.update(records)
        for k, v in globs.items():
            pr.globals[(fn, k)] = v
            if v[1] is not None or k not in pr.globals:
                if k not in pr.globals or pr.globals[k][1] is None:
                    pr.globals[k] = v
        pr.protos.update(protos)
    pr.files.sort()
    for h in sorted(glob.glob(os.path.join(REPO, "*.h"))):
        for m in re.finditer(r"^#\s*define\s+(\w+)\s+\(?(0x[0-9a-fA-F]+|\d+)"
                             r"[uUlL]*\)?\s*(?:/\*.*)?$",
                             open(h, errors="replace").read(), re.M):
            pr.macros.setdefault(m.group(1), int(m.group(2), 0))
    finish(pr)
    return pr


def finish(pr):
    for f in pr.funcs.values():
        for n in f.nodes:
            if n.e is None:
                continue
            for x in walk(n.e):
                if x.k == "un" and x.v == "&":
                    y = x.a
                    while y.k == "mem" and not y.c or y.k == "idx":
                        y = y.a
                    if y.k == "var":
                        f.addrtaken.add(y.uid)
                if x.k == "call" and x.a.k == "fn":
                    f.callees.add(x.a.v)
                elif x.k == "fn":
                    f.callees.add(x.v)
        liveness(f)


def uses_defs(n):
    """Scalar locals read / definitely written by a node."""
    u, d = set(), set()
    if n.e is None:
        return u, d

    def go(e, store=False):
        if e is None:
            return
        if e.k == "var":
            if not store:
                u.add(e.uid)
            return
        if e.k == "asg":
            go(e.b)
            if e.a.k == "var":
                if e.v not in ("=", "=init"):
                    u.add(e.a.uid)
                else:
                    d.add(e.a.uid)
            else:
                go(e.a)
            return
        for y in (e.a, e.b, e.c):
            if isinstance(y, E):
                go(y)
        for y in e.args or ():
            go(y)
    if n.k == "decl":
        d.add(n.e.uid)
    else:
        go(n.e)
    return u, d


def liveness(f):
    N = f.nodes
    ud = [uses_defs(n) for n in N]
    succ = [[s for s in n.succ if s is not None] +
            [s for _, s in (n.cases or [])] for n in N]
    live_in = [frozenset()] * len(N)
    pred = [[] for _ in N]
    for i, ss in enumerate(succ):
        for s in ss:
            pred[s].append(i)
    wl = list(range(len(N)))
    while wl:
        i = wl.pop()
        out = frozenset().union(*[live_in[s] for s in succ[i]]) \
            if succ[i] else frozenset()
        u, d = ud[i]
        # a definition inside a short-circuit expression may not execute
        li = frozenset(u) | (out - frozenset(d))
        if li != live_in[i]:
            live_in[i] = li
            wl.extend(pred[i])
    f.live = live_in
