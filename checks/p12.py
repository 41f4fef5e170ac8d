"""P12: the statements of the generated interfaces are the configured ones."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from gen import *
from par import pmap
from sqlproj import Statements
from codeproj import Code

LANGS = [("C", "LANG_C"), ("JS", "LANG_JS"), ("RUST", "LANG_RUST")]
T = "C.sq{t}"
U = "C.sq{u}"
OPS = {"OPTYPE_EQUAL": "=", "OPTYPE_GE": ">=", "OPTYPE_GT": ">",
       "OPTYPE_LE": "<=", "OPTYPE_LT": "<", "OPTYPE_NEQUAL": "(!=|<>)",
       "OPTYPE_LIKE": " LIKE ", "OPTYPE_AND": "&", "OPTYPE_OR": r"\|",
       "OPTYPE_STREQ": "=", "OPTYPE_STRNEQ": "(!=|<>)",
       "OPTYPE_ISNULL": "( ISNULL| IS NULL)",
       "OPTYPE_NOTNULL": "( NOTNULL| IS NOT NULL| NOT NULL)"}
UNARY = ("OPTYPE_ISNULL", "OPTYPE_NOTNULL")
STMT = "[^;]*;"
ANYL = "[^;\x02]*"


def nm(o):
    return L + o + ".name" + R


class Spec:
    """Expected statements in terms of the projected text."""
    def __init__(self, lang):
        self.lang = lang

    def cols(self, strct, alias):
        """A call for the columns of a structure under a name."""
        if self.lang == "C":
            t = r"DB_SCHEMA_%s\(%s\)"
        elif self.lang == "JS":
            t = r"ort_schema_%s\(['\"]%s['\"]\)"
        else:
            t = r"&stmt_%s\(\"%s\"\)"
        return "\x01" + t % (strct, alias) + "\x02"

    def stmt(self, text, label):
        """One statement; Rust labels it."""
        if self.lang == "RUST":
            return "\x01(Ortstmt::)" + label + r"=>\{s=String::new\(\)" + \
                "\x02" + text + "\x01;}\x02;"
        return text + ";"

    def label(self, s, what, n=None):
        if self.lang != "RUST":
            return ""
        return s + what + ("" if n is None else str(n))


def rust(o):
    """A name with a capital, as Rust enumerators have it: the first letter is
    not followed."""
    return HOLE + "[^;,\x02]*"


def setup(prog, fq="", sq="", uq="", dq="", aq=""):
    m = NameGen(prog)
    for l, sh in (("fq", fq), ("sq", sq), ("uq", uq), ("dq", dq),
                  ("aq", aq)):
        m.shapes[S + "." + l] = sh
        for x in sh:
            m.otype[S + "." + l + "{%s}" % x] = {
                "fq": "field", "sq": "search", "uq": "update",
                "dq": "update", "aq": "alias"}[l]
    for x in aq:
        m.vals[(S + ".aq{%s}" % x, "alias")] = frozenset([
            ("qs", S + ".aq{%s}.alias" % x, 0)])
    m.val(S, "ins", None)
    for x in fq:
        if x not in SUMMARY:
            o = S + ".fq{%s}" % x
            m.val(o, "type", "FTYPE_INT")
            m.flags(o, [])
            m.val(o, "ref", None)
    for x in sq:
        if x not in SUMMARY:
            query(m, x)
    return m


def query(m, x, type="STYPE_LIST", limit=0, offset=0):
    o = S + ".sq{%s}" % x
    m.val(o, "type", type)
    m.val(o, "limit", limit)
    m.val(o, "offset", offset)
    for k in ("dst", "aggr", "group", "rolemap"):
        m.val(o, k, None)
    for l in ("sntq", "ordq"):
        m.shapes[o + "." + l] = ""
    return o


def lit(m, o, name, attr="name"):
    m.vals[(o, attr)] = frozenset([("s", name)])


def body(c):
    prog = front.load()
    fn = prog.func("gen_sql_stmts")
    types = [n for n, v in prog.enums["ftype"] if not n.endswith("__MAX")]
    ops = [n for n, v in prog.enums["optype"] if not n.endswith("__MAX")]
    mods = [n for n, v in prog.enums["modtype"] if not n.endswith("__MAX")]
    for o in ops:
        if o not in OPS:
            raise Fatal("unknown operator " + o)
    todo = []       # (title, function(lang) -> (model, pattern))

    def add(title, f):
        for l, en in LANGS:
            todo.append((title, l, en, f))

    N = nm(S)

    # ------------------------------------------------ lookup by unique field
    def uniques(fl, sh):
        def f(sp):
            m = setup(prog, fq=sh)
            for x in sh:
                if x != "!":
                    if x not in SUMMARY:
                        m.flags(S + ".fq{%s}" % x, ["FIELD_UNIQUE"])
                    else:
                        m.val(S + ".fq{%s}" % x, "ref", None)
            m.flags(F, fl)
            pat = ""
            for x in sh:
                o = S + ".fq{%s}" % x
                one = sp.stmt("SELECT %s FROM %s WHERE %s\\.%s=\\?" % (
                    sp.cols(N, N), N, N, nm(o)),
                    rust(S) + "ByUnique" + rust(o))
                if x in SUMMARY:
                    pat += "(" + "[^;%s]*;" % nm(F) + ")*" \
                        if sp.lang != "RUST" else \
                        "([^;%s]*;}\x02;)*" % nm(F)
                elif x != "!" or set(fl) & {"FIELD_UNIQUE", "FIELD_ROWID"}:
                    pat += one
            return m, pat
        return f
    for fl in ([], ["FIELD_ROWID"], ["FIELD_UNIQUE"], ["FIELD_NULL"],
               ["FIELD_UNIQUE", "FIELD_NULL"],
               ["FIELD_UNIQUE", "FIELD_NOEXPORT"], ["FIELD_HASDEF"]):
        for sh in ("!", "a!b"):
            add("lookup by a field with %s%s" % (
                " ".join(fl) or "no flags",
                ", between unique ones" if sh == "a!b" else ""),
                uniques(fl, sh))

    # --------------------------------------------------------------- columns
    def nested(null1, null2, which):
        """S{a -> T{b -> U}}, with another reference c -> U in S."""
        def f(sp):
            m = setup(prog, fq="iajc", sq="!" if which != "unique" else "",
                      aq="xyz")
            m.shapes[T + ".fq"] = "kb"
            m.shapes[U + ".fq"] = "l"
            m.otype[T] = m.otype[U] = "strct"
            for o in (T + ".fq{k}", T + ".fq{b}", U + ".fq{l}"):
                m.otype[o] = "field"
                m.val(o, "type", "FTYPE_INT")
                m.flags(o, [])
                m.val(o, "ref", None)
            lit(m, S, "sa")
            lit(m, T, "ta")
            lit(m, U, "ua")
            for o, n in ((S + ".fq{i}", "fi"), (S + ".fq{a}", "fa"),
                         (S + ".fq{j}", "fj"), (S + ".fq{c}", "fc"),
                         (T + ".fq{k}", "tk"), (T + ".fq{b}", "tb"),
                         (U + ".fq{l}", "ul")):
                lit(m, o, n)

            def refer(fd, src, tgt):
                m.val(fd, "type", "FTYPE_STRUCT")
                r = fd + ".ref"
                m.otype[r] = "ref"
                m.val(fd, "ref", r)
                m.val(r, "source", src)
                m.val(r, "target", tgt)
            m.flags(S + ".fq{i}", ["FIELD_NULL"] if null1 else [])
            m.flags(T + ".fq{k}", ["FIELD_NULL"] if null2 else [])
            refer(S + ".fq{a}", S + ".fq{i}", T + ".fq{k}")
            refer(T + ".fq{b}", T + ".fq{k}", U + ".fq{l}")
            refer(S + ".fq{c}", S + ".fq{j}", U + ".fq{l}")
            for x, n, a in (("x", "fa", "_x"), ("y", "fa.tb", "_y"),
                            ("z", "fc", "_z")):
                o = S + ".aq{%s}" % x
                lit(m, o, n)
                lit(m, o, a, "alias")
            cols = [sp.cols("sa", "sa")]
            joins = ""
            if not null1:
                cols.append(sp.cols("ta", "_x"))
                joins += r" INNER JOIN ta AS _x ON _x\.tk=sa\.fi"
                if not null2:
                    cols.append(sp.cols("ua", "_y"))
                    joins += r" INNER JOIN ua AS _y ON _y\.ul=_x\.tk"
            cols.append(sp.cols("ua", "_z"))
            joins += r" INNER JOIN ua AS _z ON _z\.ul=sa\.fj"
            cs = ",".join(cols)
            if which == "unique":
                m.flags(S + ".fq{j}", ["FIELD_ROWID"])
                return m, sp.stmt(
                    "SELECT " + cs + " FROM sa" + joins +
                    r" WHERE sa\.fj=\?", ANYL + "ByUnique" + ANYL)
            q = S + ".sq{!}"
            what = "SELECT " + cs
            where = ""
            if which == "where":
                m.shapes[q + ".sntq"] = "1"
                s = q + ".sntq{1}"
                m.otype[s] = "sent"
                m.val(s, "field", T + ".fq{k}")
                m.val(s, "op", "OPTYPE_LT")
                m.val(s, "alias", S + ".aq{x}")
                where = r" WHERE _x\.tk<\?"
            if which.startswith("distinct"):
                d = q + ".dst"
                m.otype[d] = "dstnct"
                m.val(q, "dst", d)
                if which == "distinct":
                    lit(m, d, ".", "fname")
                    m.val(d, "strct", S)
                    what = "SELECT DISTINCT " + cs
                elif which == "distinct.fa":
                    lit(m, d, "fa", "fname")
                    m.val(d, "strct", T)
                    what = "SELECT DISTINCT " + ",".join(
                        [sp.cols("ta", "_x")] +
                        ([] if null2 else [sp.cols("ua", "_y")]))
                else:
                    lit(m, d, "fa.tb", "fname")
                    m.val(d, "strct", U)
                    what = "SELECT DISTINCT " + sp.cols("ua", "_y")
            if which == "count":
                m.val(q, "type", "STYPE_COUNT")
                what = r"SELECT COUNT\(\*\)"
            if which.startswith("group"):
                for k, rec in (("aggr", "aggr"), ("group", "group")):
                    m.otype[q + "." + k] = rec
                    m.val(q, k, q + "." + k)
                own = which == "group"
                m.val(q + ".aggr", "op", "AGGR_MAXROW")
                m.val(q + ".group", "field",
                      S + ".fq{i}" if own else T + ".fq{k}")
                m.val(q + ".aggr", "field",
                      S + ".fq{j}" if own else T + ".fq{b}")
                m.val(q + ".group", "alias",
                      None if own else S + ".aq{x}")
                m.val(q + ".aggr", "alias",
                      None if own else S + ".aq{x}")
                t, a, g, x = ("sa", "sa", "fi", "fj") if own else \
                    ("ta", "_x", "tk", "tb")
                joins += r" LEFT OUTER JOIN %s [Aa][Ss] _custom ON %s\.%s=" \
                    r"_custom\.%s AND %s\.%s<_custom\.%s" % (
                        t, a, g, g, a, x, x)
                where = r" WHERE _custom\.%s IS ?NULL" % g
            return m, sp.stmt(what + " ?FROM sa" + joins + where,
                              ANYL + "BySearch0")
        return f
    for which in ("unique", "plain", "where", "distinct", "distinct.fa",
                  "distinct.fa.tb", "count", "group", "group.fa"):
        for null1 in (False, True):
            for null2 in (False, True):
                if which in ("where", "group.fa") and null1 or \
                        which.startswith("distinct.") and null1 or \
                        which == "distinct.fa.tb" and null2:
                    continue    # refused when linking
                add("nested structures%s%s, %s" % (
                    ", the first null" if null1 else "",
                    ", the second null" if null2 else "", which),
                    nested(null1, null2, which))

    # --------------------------------------------------------------- queries
    def queries(what, stype, limit, offset, sents, ords, agg, dst):
        """sents: list of (type, op, alias?); ords: list of (op, alias?)"""
        def f(sp):
            m = setup(prog, fq="!pq", sq="!", aq="x")
            q = query(m, "!", stype, limit, offset)
            fs = ["!", "p", "q"]
            where = []
            if agg:
                m.otype[q + ".aggr"] = "aggr"
                m.otype[q + ".group"] = "group"
                m.val(q, "aggr", q + ".aggr")
                m.val(q, "group", q + ".group")
                m.val(q + ".aggr", "op", agg)
                m.val(q + ".group", "field", S + ".fq{q}")
                m.val(q + ".aggr", "field", S + ".fq{p}")
                m.val(q + ".group", "alias", None)
                m.val(q + ".aggr", "alias", None)
                where.append(r"_custom\.%s IS ?NULL" % nm(S + ".fq{q}"))
            if dst:
                m.otype[q + ".dst"] = "dstnct"
                m.val(q, "dst", q + ".dst")
                lit(m, q + ".dst", ".", "fname")
                m.val(q + ".dst", "strct", S)
            A = L + S + ".aq{x}.alias" + R
            m.shapes[q + ".sntq"] = "123"[:len(sents)]
            for i, (t, op, al) in enumerate(sents):
                o = q + ".sntq{%d}" % (i + 1)
                fd = S + ".fq{%s}" % fs[i]
                m.otype[o] = "sent"
                m.val(o, "field", fd)
                m.val(fd, "type", t)
                m.val(o, "op", op)
                m.val(o, "alias", S + ".aq{x}" if al else None)
                if t == "FTYPE_PASSWORD" and op not in UNARY + (
                        "OPTYPE_STREQ", "OPTYPE_STRNEQ"):
                    continue
                where.append((A if al else N) + r"\." + nm(fd) + OPS[op] +
                             ("" if op in UNARY else r"\?"))
            order = []
            m.shapes[q + ".ordq"] = "123"[:len(ords)]
            for i, (op, al) in enumerate(ords):
                o = q + ".ordq{%d}" % (i + 1)
                m.otype[o] = "ord"
                m.val(o, "field", S + ".fq{%s}" % fs[i])
                m.val(o, "op", op)
                m.val(o, "alias", S + ".aq{x}" if al else None)
                order.append((A if al else N) + r"\." +
                             nm(S + ".fq{%s}" % fs[i]) +
                             (" DESC" if op == "ORDTYPE_DESC" else "( ASC)?"))
            cols = sp.cols(N, N)
            if stype == "STYPE_COUNT":
                pat = r"SELECT COUNT\((DISTINCT %s|%s)\)" % (
                    cols if dst else "[]x]y", "[]x]y" if dst else r"\*")
            else:
                pat = "SELECT " + ("DISTINCT " if dst else "") + cols
            pat += " ?FROM " + N
            if agg:
                cmpop = "<" if agg == "AGGR_MAXROW" else ">"
                g, x = nm(S + ".fq{q}"), nm(S + ".fq{p}")
                pat += r" LEFT OUTER JOIN %s [Aa][Ss] _custom ON %s\.%s=" \
                    r"_custom\.%s AND %s\.%s%s_custom\.%s" % (
                        N, N, g, g, N, x, cmpop, x)
            if where:
                pat += " WHERE " + " AND ".join(where)
            if order:
                pat += " ORDER BY " + ",".join(order)
            if stype != "STYPE_SEARCH":
                if limit:
                    pat += " LIMIT %d" % limit
                elif offset:
                    pat += " LIMIT ?-1"
                if offset:
                    pat += " OFFSET %d" % offset
            return m, sp.stmt(pat, rust(S) + "BySearch0")
        return what, f

    def addq(*a):
        add(*queries(*a))
    stypes = [n for n, v in prog.enums["stype"] if not n.endswith("__MAX")]
    for t in stypes:
        for lim, off in ((0, 0), (5, 0), (5, 3), (0, 3)):
            for k, (sents, ords, agg, dst) in enumerate((
                    ([], [], None, False),
                    ([("FTYPE_INT", "OPTYPE_EQUAL", False)], [], None, False),
                    ([], [("ORDTYPE_ASC", False)], None, False),
                    ([("FTYPE_TEXT", "OPTYPE_LIKE", True)],
                     [("ORDTYPE_DESC", True), ("ORDTYPE_ASC", False)],
                     "AGGR_MINROW", False),
                    ([], [], "AGGR_MAXROW", False),
                    ([], [], None, True),
                    ([("FTYPE_INT", "OPTYPE_NOTNULL", False)], [], None,
                     True))):
                addq("query of type %s, limit %d, offset %d, clauses %d" % (
                    t, lim, off, k), t, lim, off, sents, ords, agg, dst)
    for op in ops:
        for t in ("FTYPE_INT", "FTYPE_TEXT", "FTYPE_PASSWORD"):
            for al in (False, True):
                addq("search for %s %s%s" % (t, op, " in a structure" if al
                                             else ""),
                     "STYPE_LIST", 0, 0, [(t, op, al)], [], None, False)
    some = [("FTYPE_INT", "OPTYPE_GE", False), ("FTYPE_TEXT",
            "OPTYPE_ISNULL", True), ("FTYPE_PASSWORD", "OPTYPE_EQUAL", False),
            ("FTYPE_PASSWORD", "OPTYPE_STREQ", False)]
    for n in (2, 3):
        for sents in itertools.product(some, repeat=n):
            for agg in (None, "AGGR_MAXROW"):
                if n == 3 and agg and sents[0] == sents[1]:
                    continue
                addq("search for %s%s" % (
                    ", ".join("%s %s" % x[:2] for x in sents),
                    ", grouped" if agg else ""),
                    "STYPE_LIST", 0, 0, list(sents), [], agg, False)
    for ords in itertools.product((("ORDTYPE_ASC", False),
                                   ("ORDTYPE_DESC", True)), repeat=3):
        addq("order by %s" % (ords,), "STYPE_ITERATE", 0, 0, [], list(ords),
             None, False)

    # --------------------------------------------------------------- inserts
    def insert(what, fields):
        def f(sp):
            sh = "!pqr"[:len(fields)]
            m = setup(prog, fq=sh)
            m.val(S, "ins", S + ".ins")
            m.otype[S + ".ins"] = "insert"
            names = []
            for x, (t, fl) in zip(sh, fields):
                o = S + ".fq{%s}" % x
                m.val(o, "type", t)
                m.flags(o, fl)
                if t == "FTYPE_STRUCT":
                    m.val(o, "ref", o + ".ref")
                    m.val(o + ".ref", "source", "C.sq{t}.fq{s}")
                    m.flags("C.sq{t}.fq{s}", ["FIELD_NULL"])
                elif "FIELD_ROWID" not in fl:
                    names.append(nm(o))
            pat = "INSERT INTO " + N + (
                r"\(%s\)VALUES\(%s\)" % (",".join(names),
                                         ",".join([r"\?"] * len(names)))
                if names else " DEFAULT VALUES")
            pat = sp.stmt(pat, rust(S) + "Insert")
            un = ""
            for x, (t, fl) in zip(sh, fields):
                if {"FIELD_ROWID", "FIELD_UNIQUE"} & set(fl):
                    un += "[^;]*;}\x02;" if sp.lang == "RUST" else STMT
            return m, un + pat
        add(what, f)
    for t in types:
        for fl in ([], ["FIELD_NULL"], ["FIELD_UNIQUE"], ["FIELD_HASDEF"],
                   ["FIELD_NOEXPORT"], ["FIELD_ROWID"]):
            if t == "FTYPE_STRUCT" and fl not in ([], ["FIELD_NOEXPORT"]) or \
                    t != "FTYPE_INT" and fl == ["FIELD_ROWID"]:
                continue
            insert("insert of a %s with %s" % (t, fl), [(t, fl)])
            insert("insert of a number and a %s with %s" % (t, fl),
                   [("FTYPE_INT", []), (t, fl)])
    kinds = [("FTYPE_TEXT", []), ("FTYPE_INT", ["FIELD_ROWID"]),
             ("FTYPE_STRUCT", []), ("FTYPE_INT", ["FIELD_NULL"])]
    for n in (3, 4):
        for fs in itertools.product(kinds, repeat=n):
            if fs.count(kinds[1]) > 1 or fs.count(kinds[2]) > 1:
                continue
            insert("insert of %s" % ", ".join(
                t + " " + " ".join(fl) for t, fl in fs), list(fs))
    insert("insert without fields", [])

    # ---------------------------------------------------- updates and deletes
    def update(what, mrq, crq, delete=False):
        def f(sp):
            m = setup(prog, fq="!pq", uq="" if delete else "!",
                      dq="!" if delete else "")
            u = S + (".dq{!}" if delete else ".uq{!}")
            m.val(u, "type", "UP_DELETE" if delete else "UP_MODIFY")
            sets = []
            conds = []
            m.shapes[u + ".mrq"] = "123"[:len(mrq)]
            m.shapes[u + ".crq"] = "456"[:len(crq)]
            for i, (t, mod, null) in enumerate(mrq):
                o = u + ".mrq{%s}" % "123"[i]
                fd = S + ".fq{%s}" % "!pq"[i]
                m.otype[o] = "uref"
                m.val(o, "field", fd)
                m.val(o, "mod", mod)
                m.val(fd, "type", t)
                m.flags(fd, ["FIELD_NULL"] if null else [])
                x = nm(fd)
                sets.append(x + "=" + {
                    "MODTYPE_SET": r"\?", "MODTYPE_STRSET": r"\?",
                    "MODTYPE_INC": x + r"\+\?", "MODTYPE_DEC": x + r"-\?",
                    "MODTYPE_CONCAT":
                    (r"(COALESCE|IFNULL)\(%s,(''|\"\")\)" % x if null else x)
                    + r"\|\|\?"}[mod])
            for i, (t, op) in enumerate(crq):
                o = u + ".crq{%s}" % "456"[i]
                fd = S + ".fq{%s}" % "!pq"[(i + len(mrq)) % 3]
                m.otype[o] = "uref"
                m.val(o, "field", fd)
                m.val(o, "op", op)
                if len(mrq) + i < 3:
                    m.val(fd, "type", t)
                conds.append(nm(fd) + OPS[op] +
                             ("" if op in UNARY else r"\?"))
            pat = ("DELETE FROM " + N if delete else
                   "UPDATE " + N + " SET " + ",".join(sets)) + (
                " WHERE " + " AND ".join(conds) if conds else "")
            return m, sp.stmt(pat, rust(S) + (
                "Delete0" if delete else "Update0"))
        add(what, f)
    for mod in mods:
        if mod == "MODTYPE_SET":
            ts = ["FTYPE_INT", "FTYPE_TEXT", "FTYPE_BLOB", "FTYPE_PASSWORD",
                  "FTYPE_ENUM"]
        elif mod == "MODTYPE_STRSET":
            ts = ["FTYPE_PASSWORD"]
        elif mod == "MODTYPE_CONCAT":
            ts = ["FTYPE_TEXT", "FTYPE_BLOB"]
        else:
            ts = ["FTYPE_INT", "FTYPE_REAL"]
        for t in ts:
            for null in (False, True):
                update("update of a %s by %s%s" % (
                    t, mod, ", null" if null else ""), [(t, mod, null)], [])
                update("update of two fields, then a %s by %s%s" % (
                    t, mod, ", null" if null else ""),
                    [("FTYPE_INT", "MODTYPE_SET", False),
                     ("FTYPE_TEXT", "MODTYPE_CONCAT", True),
                     (t, mod, null)], [("FTYPE_INT", "OPTYPE_EQUAL")])
    for op in ops:
        for t in ("FTYPE_INT", "FTYPE_TEXT"):
            update("update with %s %s" % (t, op),
                   [("FTYPE_INT", "MODTYPE_SET", False)], [(t, op)])
            update("delete with %s %s" % (t, op), [], [(t, op)], True)
    update("delete without constraints", [], [], True)
    for cs in itertools.product((("FTYPE_INT", "OPTYPE_GT"),
                                 ("FTYPE_TEXT", "OPTYPE_NOTNULL")),
                                repeat=3):
        update("delete with %s" % (cs,), [], list(cs), True)
        for n in (1, 2):
            update("update with %s, %d fields" % (cs[:4 - n], n),
                   [("FTYPE_INT", "MODTYPE_INC", False)] * n,
                   list(cs[:4 - n]))

    # ------------------------------------------------ order, and the two lists
    def two(ins):
        m_ = lambda: setup(prog, fq="abc", sq="de", uq="fg", dq="hi")

        def prep(m):
            for x in "ac":
                m.flags(S + ".fq{%s}" % x, ["FIELD_UNIQUE"])
            if ins:
                m.val(S, "ins", S + ".ins")
            for x, fd in (("d", "b"), ("e", "c")):
                q = query(m, x)
                m.shapes[q + ".sntq"] = "1"
                o = q + ".sntq{1}"
                m.otype[o] = "sent"
                m.val(o, "field", S + ".fq{%s}" % fd)
                m.val(o, "op", "OPTYPE_EQUAL")
                m.val(o, "alias", None)
            for x, fd in (("uq{f}", "a"), ("uq{g}", "b"), ("dq{h}", "a"),
                          ("dq{i}", "b")):
                u = S + "." + x
                m.shapes[u + ".mrq"] = "1" if x[0] == "u" else ""
                m.shapes[u + ".crq"] = "" if x[0] == "u" else "2"
                for o in (u + ".mrq{1}", u + ".crq{2}"):
                    m.otype[o] = "uref"
                    m.val(o, "field", S + ".fq{%s}" % fd)
                    m.val(o, "op", "OPTYPE_EQUAL")
                    m.val(o, "mod", "MODTYPE_SET")
            return m

        def stmts(sp):
            fl = lambda x: nm(S + ".fq{%s}" % x)
            sel = "SELECT %s FROM %s WHERE %s\\." % (sp.cols(N, N), N, N)
            out = ""
            for x in "ac":
                out += sp.stmt(sel + fl(x) + r"=\?", rust(S) + "ByUnique" + ANYL)
            for i, x in enumerate("bc"):
                out += sp.stmt(sel + fl(x) + r"=\?",
                               rust(S) + "BySearch%d" % i)
            if ins:
                out += sp.stmt("INSERT INTO " + N + r"\([^;]*\)",
                               rust(S) + "Insert")
            for i, x in enumerate("ab"):
                out += sp.stmt("UPDATE " + N + " SET " + fl(x) + r"=\?",
                               rust(S) + "Update%d" % i)
            for i, x in enumerate("ab"):
                out += sp.stmt("DELETE FROM " + N + " WHERE " + fl(x) +
                               r"=\?", rust(S) + "Delete%d" % i)
            return prep(m_()), out

        def enums(sp):
            out = ""
            lab = []
            for x in "ac":
                lab.append(rust(S) + "ByUnique[^;,]*" if sp.lang == "RUST" else
                           "STMT_%s_BY_UNIQUE_%s" % (
                               N, nm(S + ".fq{%s}" % x)))
            for i in range(2):
                lab.append(rust(S) + "BySearch%d" % i if sp.lang == "RUST"
                           else "STMT_%s_BY_SEARCH_%d" % (N, i))
            if ins:
                lab.append(rust(S) + "Insert" if sp.lang == "RUST" else
                           "STMT_%s_INSERT" % N)
            for k in ("Update", "Delete"):
                for i in range(2):
                    lab.append(rust(S) + k + "%d" % i if sp.lang == "RUST"
                               else "STMT_%s_%s_%d" % (N, k.upper(), i))
            return prep(m_()), "".join(r"\s*" + x + r"," for x in lab) + \
                r"\s*"
        return stmts, enums
    for ins in (False, True):
        a, b = two(ins)
        add("two statements of every kind%s" % (
            " and an insert" if ins else ""), a)
        add("enumeration of two statements of every kind%s" % (
            " and an insert" if ins else ""), b)

    # ------------------------------------------- in the generators themselves
    def whole(lang, n, order):
        m = NameGen(prog)
        subst(m)
        m.shapes["C.sq"] = "ab"[:n]
        ids = "ab"[:n]
        for x in ids:
            s = "C.sq{%s}" % x
            m.otype[s] = "strct"
            for l in ("sq", "uq", "dq", "aq", "nq", "rq"):
                m.shapes[s + "." + l] = ""
            m.shapes[s + ".fq"] = "i"
            o = s + ".fq{i}"
            m.otype[o] = "field"
            m.val(o, "type", "FTYPE_INT")
            m.val(o, "parent", s)
            m.flags(o, [])
            m.val(o, "ref", None)
            m.val(o, "enm", None)
            m.val(o, "bitf", None)
            m.val(s, "ins", None)
            m.flags(s, [])
        for l in ("eq", "bq", "rq", "arq"):
            m.shapes["C." + l] = ""
        m.flags("C", [])
        perms = list(itertools.permutations(ids))
        E = lambda xs: "".join("\x03E%s\x04" % x for x in xs)
        D = lambda xs: "".join("\x03S%s\x04" % x for x in xs)
        any_ = "[^\x03]*"
        if lang == "RUST":
            alt = lambda f: "(" + "|".join(f(x) for x in perms) + ")"
            pat = any_ + r"enum Ortstmt\{" + alt(E) + r"\}" + any_ + \
                r"match [A-Za-z_]+\{" + alt(D) + r"\}" + any_
        elif lang == "C":
            pat = any_ + "(" + "|".join(
                r"enum stmt\{" + E(x) + r"STMT__MAX,?\};" + any_ +
                r"stmts\[(STMT__MAX)?\]=\{" + D(x) + r"\};"
                for x in perms) + ")" + any_
        else:
            pat = any_ + "(" + "|".join(
                r"enum ortstmt\{" + E(x) + r"\}" + any_ +
                r"ortstmts: ?readonly string\[\]=\[" + D(x) + r"\]"
                for x in perms) + ")" + any_
        return m, pat

    def subst(m):
        base = m.enter

        def enter(ai, func, args, st):
            k = {"gen_sql_enums": "E", "gen_sql_stmts": "S"}.get(func.name)
            if k is None:
                return base(ai, func, args, st)
            for (u, ty, n), v in zip(func.params, args):
                if "struct strct" in ty:
                    (a,) = v
                    if a[2] != "" or not m.isworld(a[1]):
                        raise Fatal("argument of " + func.name)
                    t = "\x03%s%s\x04" % (k, a[1].split("{")[-1][:-1])
                    return [(m.emit(ai, None, t, st, None), ONE)]
            raise Fatal("no structure for " + func.name)
        m.enter = enter

    gens = {"C": ("ort_lang_c_source", "ORT_LANG_C_DB_SQLBOX"),
            "JS": ("ort_lang_nodejs", "ORT_LANG_NODEJS_DB"),
            "RUST": ("ort_lang_rust", None)}
    for l in gens:
        for n in (1, 2):
            todo.append(("whole generator, %d structures" % n, l, None,
                         lambda sp, l=l, n=n: whole(l, n, None)))

    want = os.environ.get("P12")
    if want:
        todo = [t for t in todo if want in t[0] + " " + t[1]]

    def one(x):
        title, lang, en, f = x
        sp = Spec(lang)
        m, pat = f(sp)
        inner = Lang(pat)
        enum = title.startswith("enumeration")
        mach = inner if enum else Statements(lang, inner)
        g = prog.func("gen_sql_enums") if enum else fn
        args = [None, None, ptr(S), m.enum("langt", en)] if en else []
        if not en:
            gname, flag = gens[lang]
            mach = Code(lang, inner)
            g = prog.func(gname)
            args = [ptr("C.args"), ptr("C"), None]
            m.otype["C.args"] = gname.replace("_source", "")
            if flag:
                m.flags("C.args", [flag])
                m.val("C.args", "header", None)
                m.val("C.args", "includes", 0)
        m.machines = [("sql", mach)]
        bad = set()
        n = 0
        for st, v in m.runfn(g, args):
            if v == ZERO:
                continue
            n += 1
            q = m.state(st, 0)
            if not mach.accepts(q):
                bad.add("where " + m.where(0) if q == 0 else "incomplete")
        if n == 0:
            bad.add("no path succeeds")
        return title, lang, sorted(bad)[:2], n, sorted(m.ai.funcs_analysed), \
            m.nulls

    res = pmap(one, todo)
    funcs = set()
    n = 0
    for title, lang, bad, k, fs, nulls in res:
        n += k
        funcs |= set(fs)
        c.obligation(not bad, sample={"scenario": title, "language": lang})
        for b in bad:
            c.violate("stmt|%s|%s" % (title, lang),
                      "lang.c: for %s, the %s statements are not as required: "
                      "%s" % (title, lang, b))
        for f, fmt in nulls:
            c.violate("null|" + fmt, "%s: a null string is printed with %r" %
                      (f, fmt))
    if not want:
        c.floor("scenarios", len(res), 900)
        c.floor("paths", n, 900)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "every successful path of gen_sql_stmts and gen_sql_enums writes, in "
        "each target language, well-formed expressions denoting text in the "
        "regular language prescribed for the configured statements",
        "Dataflow over the statement generators on symbolic structures; the "
        "text written along each path is read as source of the target "
        "language and the SQL it denotes tracked through an automaton.")


if __name__ == "__main__":
    main("P12", body)
