"""P14: what the export functions of generated interfaces write of a row."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import p13
from p13 import GENS, T, TREES, closure, perms
from common import *
from gen import *
from par import pmap
from codeproj import Code

B = "C.sq{t}"
TYPES = ["BIT", "DATE", "EPOCH", "INT", "REAL", "BLOB", "TEXT", "PASSWORD",
         "EMAIL", "STRUCT", "ENUM", "BITFIELD"]
NUMS = ["BIT", "DATE", "EPOCH", "INT", "BITFIELD"]


def strct(m, o, name):
    m.otype[o] = "strct"
    m.vals[(o, "name")] = frozenset([("s", name)])
    m.val(o, "cfg", "C")
    m.val(o, "doc", None)
    for l in ("sq", "uq", "dq", "aq", "nq", "rq"):
        m.shapes[o + "." + l] = ""
    m.val(o, "ins", None)
    m.flags(o, [])


def field(m, so, x, t, flags):
    o = so + ".fq{%s}" % x
    m.otype[o] = "field"
    m.vals[(o, "name")] = frozenset([("s", "f" + x)])
    m.val(o, "type", "FTYPE_" + t)
    m.val(o, "parent", so)
    m.flags(o, flags)
    for k in ("ref", "enm", "bitf", "doc", "rolemap"):
        m.val(o, k, None)
    m.shapes[o + ".fvq"] = ""
    return o


def roles(m, o, rs, paths):
    m.val(o, "rolemap", o + ".rolemap")
    m.otype[o + ".rolemap"] = "rolemap"
    ids = "123456"[:len(rs)]
    m.shapes[o + ".rolemap.rq"] = ids
    for i, r in zip(ids, rs):
        q = o + ".rolemap.rq{%s}" % i
        m.otype[q] = "rref"
        m.val(q, "role", paths[r])


def config(prog, tree, lang, fs):
    """fs: (name, type, null, visibility), where visibility is True, False or
    roles it is hidden from."""
    m, paths = p13.config(prog, tree, lang)
    if lang == "C":
        m.flags("C.args", ["ORT_LANG_C_DB_SQLBOX", "ORT_LANG_C_JSON_KCGI"])
        m.val("C.args", "ext_b64_ntop", None)
    if lang == "JS":
        m.flags("C.args", ["ORT_LANG_NODEJS_DB", "ORT_LANG_NODEJS_CORE"])
    m.shapes["C.sq"] = "ts"
    m.shapes[T + ".fq"] = "".join(f[0] for f in fs)
    strct(m, B, "bar")
    m.shapes[B + ".fq"] = "z"
    field(m, B, "z", "INT", ["FIELD_ROWID"])
    m.flags(T, ["STRCT_HAS_QUEUE", "STRCT_HAS_ITERATOR"])
    m.shapes[T + ".aq"] = "".join(f[0] for f in fs if f[1] == "STRUCT")
    for f in fs:
        o = T + ".aq{%s}" % f[0]
        m.otype[o] = "alias"
        m.vals[(o, "name")] = frozenset([("s", "f" + f[0])])
        m.vals[(o, "alias")] = frozenset([("s", "_" + f[0])])
    # a query, for what is done with its rows
    m.shapes[T + ".sq"] = "abc"
    for x, k in zip("abc", ("SEARCH", "LIST", "ITERATE")):
        o = T + ".sq{%s}" % x
        m.otype[o] = "search"
        m.val(o, "parent", T)
        m.vals[(o, "name")] = frozenset([("s", "op" + x)])
        m.val(o, "type", "STYPE_" + k)
        for q in ("doc", "dst", "aggr", "group", "rolemap"):
            m.val(o, q, None)
        for q in ("limit", "offset"):
            m.val(o, q, 0)
        for q in ("sntq", "ordq"):
            m.shapes[o + "." + q] = ""
    for x, t, null, vis in fs:
        fl = ["FIELD_NULL"] if null and t != "STRUCT" else []
        if x == "r":
            fl.append("FIELD_ROWID")
        if vis is False:
            fl.append("FIELD_NOEXPORT")
        o = field(m, T, x, t, fl)
        if isinstance(vis, tuple):
            roles(m, o, vis, paths)
        if t == "ENUM":
            m.val(o, "enm", "C.eq{e}")
            m.otype["C.eq{e}"] = "enm"
            m.vals[("C.eq{e}", "name")] = frozenset([("s", "en")])
        if t == "BITFIELD":
            m.val(o, "bitf", "C.bq{b}")
            m.otype["C.bq{b}"] = "bitf"
            m.vals[("C.bq{b}", "name")] = frozenset([("s", "bf")])
        if t == "STRUCT":
            r = o + ".ref"
            m.val(o, "ref", r)
            m.otype[r] = "ref"
            m.val(r, "parent", o)
            m.val(r, "target", B + ".fq{z}")
            # through a column that is not in the list, to be alone
            s = T + ".fq{k%s}" % x
            m.otype[s] = "field"
            m.vals[(s, "name")] = frozenset([("s", "k" + x)])
            m.val(s, "type", "FTYPE_INT")
            m.val(s, "parent", T)
            m.flags(s, ["FIELD_NULL"] if null else [])
            m.val(r, "source", s)
    return m


def js(tree, fs):
    out = r".*function db_export_foo\(role:string,obj:fooData\):any\{" \
        r"const res:any=\{\};?"
    for x, t, null, vis in fs:
        if vis is False or t == "PASSWORD":
            continue
        o = r"obj\['f%s'\]" % x
        v = o + r"\.toString\(\)" if t in NUMS + ["REAL"] else \
            o + r"\.toString\('base64'\)" if t == "BLOB" else \
            r"db_export_bar\(role,%s\)" % o if t == "STRUCT" else o
        if null and v != o:
            v = r"\(%s===null\)\?null:" % o + v
        c = r"res\['f%s'\]=%s;?" % (x, v)
        if isinstance(vis, tuple):
            ok = sorted(closure(tree, set(vis)))
            c = r"switch\(role\)\{" + (perms(
                ["case ?'%s':" % y for y in ok]) + "break;" if ok else "") + \
                "default:" + c + r"break;\}"
        out += c
    must = [out + r"return res;\}.*",
            r".*export\(\):any\{return db_export_foo\(this\.#role,this\.obj\)"
            r";\}.*",
            r".*constructor\(role:string,obj:ortns\.fooData\)"
            r"\{this\.#role=role;this\.obj=obj;\}.*"]
    # rows are given the role that they were read in
    who = "this.#role," if tree is not None else "'default',"
    never = [r".*new ortns\.foo\(" + p + ".*" for p in (
        "[^t]", "this[^.]", r"this\.[^#]", r"this\.#[^r]")]
    return must, never, []


def rust(tree, fs):
    sub = "role" if tree is not None else ""
    out = r".*impl Foo\{pub\(super\)fn to_json\(&self%s\)->String\{" \
        r"let mut ret=String::new\(\);" % (
            ",role:super::Ortrole" if tree is not None else "")
    first = 2
    S = lambda x: r'ret\+="' + x + '";'
    for x, t, null, vis in fs:
        if vis is False or t == "PASSWORD":
            continue
        name = r'\\"f%s\\":' % x
        cond = r'if!ret\.is_empty\(\)\{ret\+=",";\}'
        c = {2: "(%s)?" % cond + S(name),
             1: cond + S(name),
             0: "((%s|%s)%s|%s)" % (cond, S(","), S(name), S("," + name))
             }[first]
        if first:
            first = 1 if isinstance(vis, tuple) else 0
        f = r"self\.f%s" % x
        if t in NUMS + ["REAL"]:
            v = lambda y, r: r'ret\+=&format!\("\\"\{\}\\"",%s\);' % y
            how = "if let Some(x)=%s" % f
        elif t == "ENUM":
            v = lambda y, r: r'ret\+=&format!\("\\"\{\}\\"",num_traits::' \
                r'ToPrimitive::to_i64\(%s\)\.unwrap\(\)\);' % (r + y)
        elif t == "STRUCT":
            v = lambda y, r: S(r"\{") + r"ret\+=&%s\.to_json\(%s\);" % (
                y, sub) + S(r"\}")
        elif t == "BLOB":
            v = lambda y, r: S(r'\\"') + r"ret\+=&base64::encode\(%s\);" % (
                r + y) + S(r'\\"')
        else:
            v = lambda y, r: r"ret\+=&json_escape\(%s\);" % (r + y)
        if null:
            c += r"if let Some\((x\)=|ref x\)=&)%s\{" % f + v("x", "") + \
                r"\}else\{" + S("null") + r"\}"
        else:
            c += v(f, "&")
        if isinstance(vis, tuple):
            ok = sorted(closure(tree, set(vis)))
            c = r"if!\(" + (perms(
                [r"role==super::Ortrole::%s" % y.title() for y in ok],
                r"\|\|") if ok else "false") + r"\)\{" + c + r"\}"
        out += c
    must = [out + r"ret\}.*",
            r".*impl Foo\{pub fn export\(&self\)->String\{"
            r"let mut ret=String::new\(\);" + S(r"\{") +
            r"ret\+=&self\.data\.to_json\(%s\);" % (
                r"self\.role" if tree is not None else "") + S(r"\}") +
            r"ret\}.*"]
    never = []
    if tree is not None:
        never = [r".*super::Foo\{data:[^{}]*\}.*",
                 r".*[{, ]role:[^sO&].*"]
        never = [r".*objs::Foo\{" + p for p in (
            r"[^{}]*role:[^s].*", r"[^{}]*role:self\.[^r].*",
            r"[^{}r]*\}.*")]
    return must, never, []


def c_(tree, fs):
    out = r".*json_foo_data\(struct kjsonreq\*r,const struct foo\*p\)\{"
    blobs = [f for f in fs if f[1] == "BLOB" and f[3] is not False]
    for i in range(len(blobs)):
        out += r"char\*buf%d;" % (i + 1)
    if blobs:
        out += "size_t sz;"
    for i, (x, t, null, vis) in enumerate(blobs):
        b = "buf%d" % (i + 1)
        out += r"sz=\(p->f%s_sz\+2\)/3\*4\+1;%s=malloc\(sz\);" \
            r"if\(%s==NULL\)\{perror\(NULL\);exit\(EXIT_FAILURE\);\}" % (
                x, b, b) + (r"if\(p->has_f%s\)" % x if null else "") + \
            r"b64_ntop\(p->f%s,p->f%s_sz,%s,sz\);" % (x, x, b)
    k = 0
    for x, t, null, vis in fs:
        if vis is False or t == "PASSWORD":
            continue
        q = r'r,"f%s"' % x
        if t in NUMS:
            v = r"kjson_putintstrp\(%s,ORT_GET_foo_f%s\(p\)\);" % (q, x)
        elif t == "ENUM":
            v = r"kjson_putintstrp\(%s,p->f%s\);" % (q, x)
        elif t == "REAL":
            v = r"kjson_putdoublep\(%s,p->f%s\);" % (q, x)
        elif t == "STRUCT":
            v = r"kjson_objp_open\(%s\);json_bar_data\(r,&p->f%s\);" \
                r"kjson_obj_close\(r\);" % (q, x)
        elif t == "BLOB":
            k += 1
            v = r"kjson_putstringp\(%s,buf%d\);" % (q, k)
        else:
            v = r"kjson_putstringp\(%s,p->f%s\);" % (q, x)
        n = r"kjson_putnullp\(%s\);" % q
        if null and t == "STRUCT":
            v = r"if\(p->has_f%s\)\{%s\}else %s" % (x, v, n)
        elif null:
            v = r"if\(!p->has_f%s\)%selse %s" % (x, n, v)
        if isinstance(vis, tuple):
            ok = sorted(closure(tree, set(vis)))
            v = r"switch\(db_role_stored\(p->priv_store\)\)\{" + (perms(
                ["case ROLE_%s:" % y for y in ok]) if ok else "") + \
                r"break;default:" + v + r"break;\}"
        out += v
    for i in range(len(blobs)):
        out += r"free\(buf%d\);" % (i + 1)
    must = [out + r"\}.*",
            r".*json_foo_obj\(struct kjsonreq\*r,const struct foo\*p\)\{"
            r'kjson_objp_open\(r,"foo"\);json_foo_data\(r,p\);'
            r"kjson_obj_close\(r\);\}.*",
            r".*json_foo_array\(struct kjsonreq\*r,const struct foo_q\*q\)\{"
            r'struct foo\*p;kjson_arrayp_open\(r,"foo_q"\);'
            r"TAILQ_FOREACH\(p,q,_entries\)\{kjson_obj_open\(r\);"
            r"json_foo_data\(r,p\);kjson_obj_close\(r\);\}"
            r"kjson_array_close\(r\);\}.*",
            r".*json_foo_iterate\(const struct foo\*p,void\*arg\)\{"
            r"struct kjsonreq\*r=arg;kjson_obj_open\(r\);json_foo_data\(r,p\);"
            r"kjson_obj_close\(r\);\}.*"]
    both = []
    if tree is not None:
        both = [(r".*db_foo_fill\([^)]*set,[^)]*\)\{.*",
                 r".*db_foo_fill\([^)]*set,[^)]*\)\{.*"
                 r"p->priv_store->role=ctx->role;\}.*")]
        must += [r".*db_role_stored\(struct ort_store\*s\)\{return s->role;\}"
                 r".*"]
    return must, [], both


SPEC = {"JS": js, "RUST": rust, "C": c_}


def scenarios():
    r = ("r", "INT", False, True)
    n = ("n", "TEXT", True, True)
    h = ("h", "TEXT", False, ("u",))
    for lang in GENS:
        for tn in ("two levels", "none"):
            tree = TREES.get(tn)
            for t in TYPES:
                for null in (False, True):
                    vs = [True, False]
                    if tree is not None:
                        vs.append(("w", "v"))
                    for vis in vs:
                        x = ("x", t, null, vis)
                        yield lang, tn, tree, (r, x, n)
                        yield lang, tn, tree, (x, r)
                    yield lang, tn, tree, (x, ("y", t, not null, True), r)
                    if tree is not None:
                        yield lang, tn, tree, (h, ("x", t, null, True), r)
        for tn, tree in TREES.items():
            sets = [("all",), ("default",), ("default", "all")] + \
                [(y,) for y in tree]
            for s in sets:
                yield lang, tn, tree, (r, ("x", "INT", False, s), n)
                yield lang, tn, tree, (
                    ("x", "REAL", True, s), ("y", "INT", False, s), r)


def body(c):
    prog = front.load()
    todo = list(scenarios())
    want = os.environ.get("P14")
    if want:
        todo = [t for t in todo if want in "%s %s %s" % (t[0], t[1], t[3])]

    def one(x):
        lang, tn, tree, fs = x
        m = config(prog, tree, lang, fs)
        must, never, both = SPEC[lang](tree, fs)
        ms = [(p, Code(lang, Lang(p))) for p in must + never +
              [y for z in both for y in z]]
        m.machines = ms
        fn = prog.func(GENS[lang][0])
        if fn is None:
            raise Fatal(GENS[lang][0] + " is gone")
        bad = set()
        n = 0
        for st, v in m.runfn(fn, [ptr("C.args"), ptr("C"), None]):
            if v == ZERO:
                continue
            n += 1
            r = [k.accepts(m.state(st, i)) for i, (p, k) in enumerate(ms)]
            bad |= {"missing: " + p for p, a in zip(must, r) if not a}
            i = len(must)
            bad |= {"not allowed: " + p for p, a in zip(never, r[i:]) if a}
            i += len(never)
            for p, q in both:
                if r[i] and not r[i + 1]:
                    bad.add("missing: " + q)
                i += 2
        if n == 0:
            bad.add("no path succeeds")
        return x, sorted(bad), n, sorted(m.ai.funcs_analysed)

    funcs = set()
    res = pmap(one, todo)
    for (lang, tn, tree, fs), bad, k, fns in res:
        funcs |= set(fns)
        what = "roles %s, fields %s" % (tn, ", ".join(
            "%s%s%s" % (t.lower(), " null" if null else "",
                        "" if vis is True else " noexport" if vis is False
                        else " noexport to " + " and ".join(vis))
            for _, t, null, vis in fs))
        c.obligation(not bad, sample={"scenario": what, "language": lang})
        if bad:
            c.violate("export|%s|%s" % (what, lang),
                      "%s: %s interface: %s: %s" % (
                          GENS[lang][0], lang, what, bad[0][:700]))
    if not want:
        c.floor("scenarios", len(res), 400)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "in every generated interface, the function exporting a row writes "
        "each field under its name in its type's encoding, or null, but no "
        "password and no field that is not exported at all or to the role "
        "that the row was read in",
        "Dataflow over the whole generators on symbolic configurations; the "
        "text of each successful path, without comments and layout, is "
        "tracked through automata for the whole export function.")


if __name__ == "__main__":
    main("P14", body)
