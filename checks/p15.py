"""P15: what generated operations bind to their statements, and how they read
rows."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import p13, p14
from p13 import GENS, T
from common import *
from gen import *
from par import pmap
from emit import render
from codeproj import Code

B = p14.B
TYPES = [t for t in p14.TYPES if t != "STRUCT"]
BITS = ("BIT", "BITFIELD")
TEXTS = ("TEXT", "PASSWORD", "EMAIL")
KINDS = {"SEARCH": ("sq", "get", "BY_SEARCH_1", "BySearch1"),
         "LIST": ("sq", "list", "BY_SEARCH_1", "BySearch1"),
         "ITERATE": ("sq", "iterate", "BY_SEARCH_1", "BySearch1"),
         "COUNT": ("sq", "count", "BY_SEARCH_1", "BySearch1"),
         "UPDATE": ("uq", "update", "UPDATE_1", "Update1"),
         "DELETE": ("dq", "delete", "DELETE_1", "Delete1"),
         "INSERT": (None, "insert", "INSERT", "Insert")}
UNARY = ("NOTNULL", "ISNULL")


_scans = {}


def counting(fn):
    """Columns and arguments are counted, the characters of texts not."""
    r = _scans.get(fn.key)
    if r is None:
        r = _scans[fn.key] = 3 if any(
            x.k == "idx" and x.ty.replace("const ", "").strip() == "char" and
            x.b.k != "int" for n in fn.nodes if n.e is not None
            for x in front.walk(n.e)) else 12
    return r


class Arg:
    """One argument: the field it is for, and what is done with it."""
    def __init__(self, x, t, null, how, st="foo", path=None):
        self.x, self.t, self.null, self.how = x, t, null, how
        self.st = st
        self.path = path or "f" + x


def copies(fn):
    """A function that formats its arguments, then copies the characters."""
    if not fn.variadic or len(fn.params) < 2 or \
            "FILE" not in fn.params[0][1] or "char" not in fn.params[-1][1]:
        return False
    called = {x.a.v for n in fn.nodes if n.e is not None
              for x in front.walk(n.e) if x.k == "call" and x.a.k == "fn"}
    return bool(called & {"vasprintf", "vsnprintf"})


def copied(m):
    """Its text is taken as written: layout is not judged."""
    base = m.enter

    def enter(ai, fn, args, st):
        if not copies(fn):
            return base(ai, fn, args, st)
        fmt = args[len(fn.params) - 1]
        rest = [m.spelled(v, st) for v in args[len(fn.params):]]
        if fmt is None or not all(isinstance(x, tuple) and x[0] == "s"
                                  for x in fmt):
            raise Fatal("format of " + fn.name)
        texts = {t + "\n" for x in fmt for t in render(x[1], rest)}
        return m.written(ai, None, sorted(texts), st, args[0]) + [(st, ZERO)]
    m.enter = enter


def config(prog, lang, kind, fs, terms, mods=()):
    """fs: (name, type, null); terms: (name, operator), a name of "*x" is
    field x of the structure that field s refers to; mods: (name, kind)."""
    m = p14.config(prog, None, lang, [f + (True,) for f in fs])
    if lang == "C":
        m.flags("C.args", ["ORT_LANG_C_DB_SQLBOX"])
        copied(m)
    m.flags(T, ["STRCT_HAS_QUEUE", "STRCT_HAS_ITERATOR"])
    m.shapes[T + ".sq"] = ""
    m.shapes[B + ".fq"] = "zp"
    p14.field(m, B, "p", "PASSWORD", [])

    # whatever else a field is does not matter
    more = [prog.macro(x) for x in ("FIELD_UNIQUE", "FIELD_NOEXPORT")]
    for k, v in list(m.vals.items()):
        if k[1] == "flags" and ".fq{" in k[0] and \
                not set(v) & {prog.macro("FIELD_ROWID")}:
            m.vals[k] = frozenset(b | x | y for b in v for x in (0, more[0])
                                  for y in (0, more[1]))

    def fld(x):
        return B + ".fq{%s}" % x[1:] if x[0] == "*" else T + ".fq{%s}" % x
    if kind == "INSERT":
        m.val(T, "ins", T + ".ins")
        m.otype[T + ".ins"] = "insert"
        m.val(T + ".ins", "rolemap", None)
        return m
    l = KINDS[kind][0]
    m.shapes[T + "." + l] = "ab"
    for op in "ab":
        o = T + ".%s{%s}" % (l, op)
        m.otype[o] = "search" if l == "sq" else "update"
        m.val(o, "parent", T)
        m.vals[(o, "name")] = frozenset([("s", "op" + op)])
        m.val(o, "doc", None)
        m.val(o, "rolemap", None)
        last = op == "b"
        if l == "sq":
            m.val(o, "type", "STYPE_" + kind)
            m.val(o, "limit", 0)
            m.val(o, "offset", 0)
            for k in ("dst", "aggr", "group"):
                m.val(o, k, None)
            m.shapes[o + ".ordq"] = ""
            q = ".sntq"
        else:
            m.val(o, "type", "UP_MODIFY" if l == "uq" else "UP_DELETE")
            m.val(o, "flags", 0)
            ms = mods if last else mods[:1]
            m.shapes[o + ".mrq"] = "123456789"[:len(ms)]
            for i, (x, k) in zip("123456789", ms):
                r = o + ".mrq{%s}" % i
                m.otype[r] = "uref"
                m.val(r, "field", fld(x))
                m.val(r, "mod", "MODTYPE_" + k)
            q = ".crq"
        ts = terms if last else ()
        m.shapes[o + q] = "123456789"[:len(ts)]
        for i, (x, k) in zip("123456789", ts):
            r = o + q + "{%s}" % i
            m.otype[r] = "sent" if l == "sq" else "uref"
            m.val(r, "field", fld(x))
            m.val(r, "op", "OPTYPE_" + k)
            if l != "sq":
                continue
            n = "f" + x if x[0] != "*" else "fs.f" + x[1:]
            m.vals[(r, "fname")] = frozenset([("s", n)])
            m.vals[(r, "uname")] = frozenset([("s", "u" + x[-1])])
            if x[0] == "*":
                m.vals[(r, "name")] = frozenset([("s", "fs")])
                m.val(r, "alias", T + ".aq{s}")
            else:
                m.val(r, "name", None)
                m.val(r, "alias", None)
    return m


def arguments(kind, fs, terms, mods):
    """The arguments of an operation, in their order."""
    ty = {x: (t, n) for x, t, n in fs}
    out = []
    if kind == "INSERT":
        return [Arg(x, t, n, "hash" if t == "PASSWORD" else "value")
                for x, t, n in fs if x != "r" and t != "STRUCT"]
    for x, k in mods:
        t, n = ty[x]
        out.append(Arg(x, t, n, "hash" if t == "PASSWORD" and k != "STRSET"
                       else "value"))
    for x, k in terms:
        if k in UNARY:
            continue
        st, p = "foo", None
        if x[0] == "*":
            t, n, st, p = "PASSWORD" if x == "*p" else "INT", False, "bar", \
                "fs.f" + x[1:]
        else:
            t, n = ty[x]
        how = "term"
        if t == "PASSWORD" and k not in ("STREQ", "STRNEQ"):
            how = "same" if k == "EQUAL" else "other"
        out.append(Arg(x[-1], t, n, how, st, p))
    return out


def anyorder(xs):
    return "(" + "|".join("".join(p) for p in itertools.permutations(xs)) + \
        ")"


def c_(kind, args):
    l, verb, label, _ = KINDS[kind]
    out = r".*db_foo_%s%s\(struct ort\*ctx" % (verb, "_opb" if l else "")
    if kind == "ITERATE":
        out += r",foo_cb cb,void\*arg"
    bound = []
    hashes = []
    checks = []
    for i, a in enumerate(args):
        v = "v%d" % (i + 1)
        # values may be given as pointers: those of terms never are
        p = a.null and a.how in ("value", "hash")
        if a.t == "BLOB":
            out += r",size_t %s_sz,const void" % v + r"\*" * (1 + p) + v
        elif a.t in TEXTS:
            out += r",const char" + r"\*" * (1 + p) + v
        else:
            out += r",[^,()*]*" + (r"\*" if p else " ") + v
        if a.how in ("same", "other"):
            checks.append((a, v))
            continue
        k = r"parms\[%d\]\." % len(bound)
        d = (r"\*" if p else "") + v
        if a.how == "hash":
            hashes.append((v, p))
            val = k + "sparm=hash%d;" % len(hashes)
        elif a.t in p14.NUMS:
            val = k + r"iparm=(\(time_t\))?ORT_GETV_%s_f%s\(%s\);" % (
                a.st, a.x, d)
        else:
            val = k + "%s=%s;" % ({"ENUM": "iparm", "REAL": "fparm",
                                   "BLOB": "bparm"}.get(a.t, "sparm"), d)
        typ = {"REAL": "FLOAT", "BLOB": "BLOB"}.get(
            a.t, "STRING" if a.t in TEXTS else "INT")
        parts = [val, k + "type=SQLBOX_PARM_%s;" % typ]
        if a.t == "BLOB":
            parts.append(k + "sz=%s_sz;" % v)
        b = anyorder(parts)
        if p:
            b = r"if\(%s==NULL\)\{?%stype=SQLBOX_PARM_NULL;\}?else\{%s\}" % (
                v, k, b)
        bound.append(b)
    out += r"\)\{"
    n = len(bound)
    if n:
        out += r"[^\[]*struct sqlbox_parm parms\[%d\];" % n
    for i in range(len(hashes)):
        out += r"char hash%d\[64\];" % (i + 1)
    for i, (v, p) in enumerate(hashes):
        out += (r"if\(%s!=NULL\)" % v if p else "") + \
            r'crypt_newhash\(%s%s,"blowfish,a",hash%d,sizeof\(hash%d\)\);' % (
                r"\*" if p else "", v, i + 1, i + 1)
    if n:
        out += r"memset\(parms,0,sizeof\(parms\)\);[^\[]*" + "".join(bound)
    out += r"[^\[]*STMT_foo_%s,%d,%s," % (label, n, "parms" if n else "NULL")
    if kind in ("INSERT", "UPDATE", "DELETE", "COUNT"):
        return [out + ".*"]
    out += r".*db_foo_fill_r\(ctx,&?p,res,NULL\);(db_foo_reffind\(ctx,&?p\);)?"
    for j, (a, v) in enumerate(checks):
        path = (r"p\." if kind == "ITERATE" else "p->") + a.path.replace(
            ".", r"\.")
        has = path.rsplit("f", 1)
        has = has[0] + "has_f" + has[1]
        cond = r"%s==NULL\|\|" % v + (r"!%s\|\|" % has if a.null else "") + \
            r"crypt_checkpass\(%s,%s\)==" % (v, path) + (
                "-1" if a.how == "same" else "0")
        if kind == "SEARCH":
            # the row may be gone already
            g = r"if\(p!=NULL&&\(%s\)\)" % cond
            out += r"(%s|%s)" % (g, ("else " if j else "") +
                                 r"if\(%s\)" % cond)
            out += r"\{db_foo_free\(p\);p=NULL;\}"
        elif kind == "LIST":
            out += r"if\(%s\)\{db_foo_free\(p\);(p=NULL;)?continue;\}" % cond
        else:
            out += r"if\(%s\)\{db_foo_unfill_r\(&p\);continue;\}" % cond
    out += {"SEARCH": r"\}if\(res==NULL\)exit\(EXIT_FAILURE\);",
            "LIST": r"TAILQ_INSERT_TAIL\(q,p,_entries\);\}",
            "ITERATE": r"\(\*cb\)\(&p,arg\);db_foo_unfill_r\(&p\);\}"}[kind]
    return [out + ".*"]


def js(kind, args):
    l, verb, label, _ = KINDS[kind]
    ps = []
    binds = ""
    checks = ""
    for i, a in enumerate(args):
        v = "v%d" % (i + 1)
        ps.append(v + r":[^,|()]*" + (r"\|null" if a.null else ""))
        push = r"parms\.push\(%s\);"
        if a.how in ("same", "other"):
            o = r"obj\." + a.path.replace(".", r"\.")
            checks += r"if\(" + (r"%s===null\|\|%s===null\|\|" % (v, o)
                                 if a.null else "") + \
                ("!" if a.how == "same" else "") + \
                r"bcrypt\.compareSync\(%s,%s\)\)" % (v, o) + \
                ("return null;" if kind == "SEARCH" else "continue;")
            continue
        if a.how == "hash":
            x = r"bcrypt\.hashSync\(%s,this\.#o\.args\.bcrypt_cost\)" % v
        elif a.t in BITS:
            x = r"BigInt\.asIntN\(64,%s\)" % v
        else:
            binds += push % v
            continue
        binds += push % x if not a.null else r"(%s|if\(%s===null\)%selse %s)" \
            % (push % (r"%s===null\?null:%s" % (v, x)), v, push % "null",
               push % x)
    if kind == "ITERATE":
        ps.append(r"cb:\(res:ortns\.foo\)=>void")
    out = r".*db_foo_%s%s\(%s\):[^{]*\{const parms:any\[\]=\[\];[^{}]*" \
        r"STMT_foo_%s\)\);" % (verb, "_opb" if l else "", ",".join(ps), label)
    if l == "sq":
        out += r"stmt\.raw\(true\);"
    out += binds
    fill = r"const obj:ortns\.fooData=this\.db_foo_fill\(\{row:<any(\[\])?>" \
        r"%s,pos:0\}\);(this\.db_foo_reffind\(this\.#o,obj\);)?"
    new = r"new ortns\.foo\(this\.#role,obj\)"
    out += {"SEARCH": r"const cols:any=stmt\.get\(parms\);"
            r"if\(typeof cols==='undefined'\)return null;" + fill % "cols" +
            checks + "return " + new + r";\}",
            "LIST": r"const rows:any\[\]=stmt\.all\(parms\);"
            r"const objs:ortns\.foo\[\]=\[\];let i:number;"
            r"for\(i=0;i<rows\.length;i\+\+\)\{" + fill % r"rows\[i\]" +
            checks + r"objs\.push\(%s\);\}return objs;\}" % new,
            "ITERATE": r"for\(const cols of stmt\.iterate\(parms\)\)\{" +
            fill % "cols" + checks + r"cb\(%s\);\}\}" % new,
            "COUNT": r"const cols:any=stmt\.get\(parms\);",
            "INSERT": r"try\{info=stmt\.run\(parms\);\}",
            "UPDATE": r"try\{info=stmt\.run\(parms\);\}",
            "DELETE": r"stmt\.run\(parms\);\}"}[kind]
    return [out + ".*"]


def rust(kind, args):
    l, verb, _, label = KINDS[kind]
    ps = r"\(&self"
    if kind == "ITERATE":
        ps += r",cb:fn\(res:objs::Foo\)"
    hashes = ""
    binds = ""
    checks = ""
    h = 0
    for i, a in enumerate(args):
        v = "v%d" % (i + 1)
        ps += "," + v + ":" + (r"Option<[^,()]*>" if a.null
                               else r"[^,()O][^,()]*")
        if a.how in ("same", "other"):
            o = r"obj\." + a.path.replace(".", r"\.")
            n = "!" if a.how == "same" else ""
            if a.null:
                c = r"%s\.is_none\(\)\|\|%s\.is_none\(\)\|\|%sverify\(%s\." \
                    r"unwrap\(\),%s\.as_ref\(\)\.unwrap\(\)\)" % (v, o, n, v,
                                                                  o)
            else:
                c = r"%sverify\(%s,&%s\)" % (n, v, o)
            checks += (r"if%s%s\.unwrap\(\)\{" % (
                " " if c[0] in "vb" else "", c)) + (
                r"return Ok\(None\);" if kind == "SEARCH" else "continue;") \
                + r"\}"
            continue
        if a.how == "hash":
            h += 1
            x = r"hash\(%s,self\.args\.bcrypt_cost\)\.unwrap\(\)"
            hashes += "let hash%d=" % h + (
                r"match %s\{Some\(i\)=>Some\(%s\),(_|None)=>None,?\}" % (
                    v, x % "i")
                if a.null else x % v) + ";"
            binds += "hash%d," % h
        elif a.t == "ENUM":
            x = r"ToPrimitive::to_i64\(&%s\)\.unwrap\(\)"
            binds += r"match %s\{Some\(x\)=>Some\(%s\),(_|None)=>None,?\}," % (
                v, x % "x") if a.null else x % v + ","
        else:
            binds += v + ","
    out = r".*pub fn db_foo_%s%s%s,?\)->Result<.*stmt::Ortstmt::Foo%s\);" % (
        verb, "_opb" if l else "", ps, label)
    out = out.replace("Result<.*", r"Result<[^{]*\{[^{}]*")
    out += hashes + r"let mut stmt=self\.conn\.prepare\(&sql\)\?;"
    fill = r"let mut i=0;let (mut )?obj=self\.db_foo_fill\(&row,&mut i\)\?;" \
        r"(self\.db_foo_reffind\(&mut obj\)\??;)?"
    run = r"let mut rows=stmt\.query\(params!\[%s\]\)\?;" % binds
    new = r"objs::Foo\{data:obj,\}"
    out += {"SEARCH": run + r"if let Some\(row\)=rows\.next\(\)\?\{" + fill +
            checks + r"return Ok\(Some\(%s\)\);\}Ok\(None\)\}" % new,
            "LIST": run + r"let mut vec=Vec::new\(\);while let Some\(row\)="
            r"rows\.next\(\)\?\{" + fill + checks +
            r"vec\.push\(%s\);\}Ok\(vec\)\}" % new,
            "ITERATE": run + r"while let Some\(row\)=rows\.next\(\)\?\{" +
            fill + checks + r"cb\(%s\);\}Ok\(\(\)\)\}" % new,
            "COUNT": run + r"if let Some\(row\)=rows\.next\(\)\?\{",
            "INSERT": r"match stmt\.insert\(params!\[%s\]\)\{" % binds,
            "UPDATE": r"match stmt\.execute\(params!\[%s\]\)\{" % binds,
            "DELETE": r"match stmt\.execute\(params!\[%s\]\)\{" % binds}[kind]
    return [out + ".*"]


def fill(lang, fs):
    """Reading a row.  In C, the functions are there if they are needed."""
    cols = [f for f in fs if f[1] != "STRUCT"]
    subs = [f for f in fs if f[1] == "STRUCT"]
    if lang == "C":
        out = r".*db_foo_fill\(struct ort\*ctx,struct foo\*p,const struct " \
            r"sqlbox_parmset\*set,size_t\*pos\)\{[^}]*" + (
                r"int64_t tmpint;[^}]*" if any(
                    t in p14.NUMS + ["ENUM"] for x, t, n in cols) else "") + \
            r"memset\(p,0,sizeof\(\*p\)\);"
        col = r"&set->ps\[\(\*pos\)\+\+\]"
        for x, t, null in fs:
            if t == "STRUCT":
                out += (r"(p->has_f%s=0;)?" % x) if null else ""
                continue
            f = "p->f" + x
            bad = r"==-1\)exit\(EXIT_FAILURE\);"
            if t in p14.NUMS or t == "ENUM":
                c = r"if\(sqlbox_parm_int\(%s,&tmpint\)" % col + bad + (
                    r"%s=\(enum en\)tmpint;" % f if t == "ENUM" else
                    r"ORT_SET_foo_f%s\(p,(\(time_t\))?tmpint\);" % x)
            elif t == "REAL":
                c = r"if\(sqlbox_parm_float\(%s,&%s\)" % (col, f) + bad
            elif t == "BLOB":
                c = r"if\(sqlbox_parm_blob_alloc\(%s,&%s,&%s_sz\)" % (
                    col, f, f) + bad
            else:
                c = r"if\(sqlbox_parm_string_alloc\(%s,&%s,NULL\)" % (
                    col, f) + bad
            if null:
                c = r"p->has_f%s=set->ps\[\*pos\]\.type!=SQLBOX_PARM_NULL;" \
                    r"if\(p->has_f%s\)\{%s\}else\{?\(\*pos\)\+\+;\}?" % (
                        x, x, c)
            out += c
        nested = r".*db_foo_fill_r\(struct ort\*ctx,struct foo\*p,const " \
            r"struct sqlbox_parmset\*res,size_t\*pos\)\{[^{}]*" \
            r"db_foo_fill\(ctx,p,res,pos\);" + "".join(
                r"db_bar_fill_r\(ctx,&p->f%s,res,pos\);" % x
                for x, t, null in subs if not null) + r"\}.*"
        return [(r".*db_foo_fill\(struct ort\*[^{}]*\)\{.*", out + r"\}.*"),
                (r".*db_foo_fill_r\(struct ort\*[^{}]*\)\{.*", nested)]
    if lang == "JS":
        out = r".*db_foo_fill\(data:\{row:any\[\],pos:number\}\):ortns\." \
            r"fooData\{const obj:ortns\.fooData=\{"
        k = 0
        for x, t, null in fs:
            out += "'f%s':" % x
            if t == "STRUCT":
                out += ("null" if null else r"<ortns\.barData>\{\}") + ","
                continue
            d = r"data\.row\[data\.pos\+%d\]" % k
            k += 1
            n = r"\|null" if null else ""
            if t == "ENUM":
                out += r"<ortns\.en%s>" % n + (
                    r"\(%s===null\?null:%s\.toString\(\)\)" % (d, d)
                    if null else d + r"\.toString\(\)")
            else:
                out += "<%s%s>" % ({"REAL": "number", "BLOB": "Buffer"}.get(
                    t, "string" if t in TEXTS else "bigint"), n) + d
            out += ","
        out += r"\};data\.pos\+=%d;" % k + "".join(
            r"obj\.f%s=this\.db_bar_fill\(data\);" % x
            for x, t, null in subs if not null)
        return [out + r"return obj;\}.*"]
    out = r".*fn db_foo_fill\(&self,row:&Row,i:&mut usize\)->Result<data::" \
        r"Foo>\{let ncol:usize=\*i;\*i\+=%d;" % len(cols)
    k = n = 0
    build = ""
    for x, t, null in fs:
        build += "f%s:" % x
        if t == "STRUCT":
            if null:
                build += "None,"
            else:
                out += r"let obj%d=self\.db_bar_fill\(row,i\)\?;" % n
                build += "obj%d," % n
                n += 1
            continue
        get = r"row\.get\(ncol\+%d\)\?" % k
        if t == "ENUM":
            out += "let obj%d=%s;" % (n, get)
            e = r"FromPrimitive::from_i64\(%s\)\.ok_or\(rusqlite::Error::" \
                r"IntegralValueOutOfRange\(ncol\+%d,%s\)\)\?"
            o = "obj%d" % n
            build += r"match %s\{Some\(x\)=>Some\(%s\),None=>None,\}," % (
                o, e % ("x", k, "x")) if null else e % (o, k, o) + ","
            n += 1
        else:
            build += get + ","
        k += 1
    return [out + r"Ok\(data::Foo\{%s\}\)\}.*" % build]


SPEC = {"JS": js, "RUST": rust, "C": c_}


def scenarios():
    r = ("r", "INT", False)
    n = ("n", "TEXT", False)
    p = ("p", "PASSWORD", False)
    q = ("q", "PASSWORD", True)
    s = ("s", "STRUCT", False)
    E, SE = "EQUAL", "STREQ"
    for lang in GENS:
        for t in TYPES:
            for null in (False, True):
                x = ("x", t, null)
                fs = (r, x, n, p, s)
                op = SE if t == "PASSWORD" else E
                for k in ("SEARCH", "LIST", "ITERATE", "COUNT"):
                    yield lang, k, fs, (("x", op), ("n", E)), ()
                    yield lang, k, fs, (("n", "ISNULL"), ("r", "GT"),
                                        ("x", op)), ()
                yield lang, "DELETE", fs, (("x", op), ("n", E)), ()
                yield lang, "DELETE", fs, (("n", "NOTNULL"), ("r", "LE"),
                                           ("x", op)), ()
                yield lang, "UPDATE", fs, (("x", op), ("n", E)), (
                    ("n", "SET"), ("x", "SET"))
                yield lang, "UPDATE", fs, (("n", "ISNULL"), ("x", op),
                                           ("r", E)), (
                    ("x", "SET"), ("n", "SET"))
                yield lang, "INSERT", fs, (), ()
                yield lang, "INSERT", (x, r, q, n), (), ()
                yield lang, "INSERT", (s, p, x, q), (), ()
                yield lang, "FILL", fs, (), ()
                yield lang, "FILL", (x,), (), ()
                yield lang, "FILL", (x, s, r), (), ()
                yield lang, "FILL", (s, r, x, ("y", t, not null)), (), ()
                yield lang, "FILL", (r, ("s", "STRUCT", True), x, n), (), ()
        fs = (r, n, p, q, s)
        for k in ("SEARCH", "LIST", "ITERATE"):
            for ts in ((("p", E),), (("p", "NEQUAL"),), (("q", E),),
                       (("q", "NEQUAL"),), (("*p", E),),
                       (("p", E), ("n", E)), (("n", E), ("p", E)),
                       (("p", E), ("q", E), ("r", E)),
                       (("n", "NOTNULL"), ("p", "NEQUAL"), ("n", "LIKE")),
                       (("p", "ISNULL"), ("q", E), ("*z", E)),
                       (("p", SE), ("q", E)), (("q", E), ("p", "STRNEQ")),
                       (("r", E), ("*p", E), ("p", "NEQUAL"), ("n", "GE"))):
                yield lang, k, fs, ts, ()
        for k in ("SEARCH", "LIST", "ITERATE", "COUNT"):
            yield lang, k, fs, (), ()
            yield lang, k, fs, (("n", "ISNULL"),), ()
            yield lang, k, fs, (("*z", E), ("q", SE), ("n", E)), ()
        for ms in ((("p", "SET"),), (("p", "STRSET"),), (("q", "SET"),),
                   (("q", "STRSET"),), (("p", "STRSET"), ("q", "SET")),
                   (("q", "SET"), ("p", "SET"), ("n", "SET")),
                   (("n", "CONCAT"), ("p", "SET"), ("q", "STRSET"))):
            yield lang, "UPDATE", fs, (), ms
            yield lang, "UPDATE", fs, (("r", E), ("p", SE)), ms
            yield lang, "UPDATE", fs, (("q", "NOTNULL"), ("q", "STRNEQ")), ms
        yield lang, "DELETE", fs, (), ()
        yield lang, "DELETE", fs, (("q", "ISNULL"),), ()


def body(c):
    prog = front.load()
    todo = list(scenarios())
    want = os.environ.get("P15")
    if want:
        todo = [t for t in todo if want in "%s %s %s %s %s" % t]

    def one(x):
        lang, kind, fs, terms, mods = x
        m = config(prog, lang, "SEARCH" if kind == "FILL" else kind, fs,
                   terms, mods)
        must = fill(lang, fs) if kind == "FILL" else SPEC[lang](
            kind, arguments(kind, fs, terms, mods))
        must = [p if isinstance(p, tuple) else (".*", p) for p in must]
        ms = [(p, Code(lang, Lang(p))) for y in must for p in y]
        m.machines = ms
        m.inclimit = counting
        fn = prog.func(GENS[lang][0])
        if fn is None:
            raise Fatal(GENS[lang][0] + " is gone")
        bad = set()
        seen = set()
        n = 0
        for st, v in m.runfn(fn, [ptr("C.args"), ptr("C"), None]):
            if v == ZERO:
                continue
            n += 1
            r = [k.accepts(m.state(st, i)) for i, (p, k) in enumerate(ms)]
            for i, (p, q) in enumerate(must):
                if r[2 * i] and r[2 * i + 1]:
                    seen.add(i)
                elif r[2 * i]:
                    bad.add("missing: " + q)
        bad |= {"missing: " + q for i, (p, q) in enumerate(must)
                if i not in seen}
        if n == 0:
            bad.add("no path succeeds")
        return x, sorted(bad), n, sorted(m.ai.funcs_analysed)

    funcs = set()
    res = pmap(one, todo)
    for (lang, kind, fs, terms, mods), bad, k, fns in res:
        funcs |= set(fns)
        ty = {x: t.lower() + (" null" if n else "") for x, t, n in fs}
        what = "%s, fields %s" % (
            "reading a row" if kind == "FILL" else kind.lower(),
            ", ".join(ty[x] for x, t, n in fs))
        if mods:
            what += ", setting " + ", ".join(
                "%s (%s)" % (ty[x], k.lower()) for x, k in mods)
        if terms:
            what += ", where " + ", ".join(
                "%s %s" % (ty.get(x, "nested " + x[1:]), k.lower())
                for x, k in terms)
        c.obligation(not bad, sample={"scenario": what, "language": lang})
        if bad:
            c.violate("bind|%s|%s" % (what, lang),
                      "%s: %s interface: %s: %s" % (
                          GENS[lang][0], lang, what, bad[0][:700]))
    if not want:
        c.floor("scenarios", len(res), 1400)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "in every generated interface, an operation binds to the placeholders "
        "of its statement exactly its own arguments in order, null as NULL "
        "and passwords that are set hashed; rows are read column by column, "
        "and given only if they pass the password checks",
        "Dataflow over the whole generators on symbolic configurations; the "
        "text of each successful path, without comments and layout, is "
        "tracked through automata for the whole function of the operation.")


if __name__ == "__main__":
    main("P15", body)
