"""P08: the SQL schema has the tables, columns, keys and indexes of the
configuration."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from gen import *
from par import pmap

SQLTYPE = {"FTYPE_BIT": "INTEGER", "FTYPE_DATE": "INTEGER",
           "FTYPE_EPOCH": "INTEGER", "FTYPE_INT": "INTEGER",
           "FTYPE_REAL": "REAL", "FTYPE_BLOB": "BLOB", "FTYPE_TEXT": "TEXT",
           "FTYPE_PASSWORD": "TEXT", "FTYPE_EMAIL": "TEXT",
           "FTYPE_ENUM": "INTEGER", "FTYPE_BITFIELD": "INTEGER"}
ACTION = {"UPACT_RESTRICT": "RESTRICT", "UPACT_NULLIFY": "SET NULL",
          "UPACT_CASCADE": "CASCADE", "UPACT_DEFAULT": "SET DEFAULT"}
FLAGSETS = [list(x) for n in range(5) for x in itertools.combinations(
    ("FIELD_ROWID", "FIELD_NULL", "FIELD_UNIQUE", "FIELD_NOEXPORT",
     "FIELD_HASDEF"), n) if not {"FIELD_ROWID", "FIELD_NULL"} <= set(x)]
ANY = "[^;]*"
NAME = L + F + ".name" + R
TABLE = L + S + ".name" + R
NOF = "[^;" + NAME + "]*"       # within a statement, not naming the field
OUT = "[^" + NAME + "]*"        # anything not naming the field
CMT = r"(--[^\n]*\n\s*)*"


def table(col, fkey=""):
    """A whole schema with the focus structure's table; the focus field only
    where said."""
    return OUT + r"\bCREATE TABLE " + TABLE + r" \(\s*" + \
        (CMT + "(" + NOF + r",\s*)?" + CMT + col + r"(\s*,\s*" + NOF + ")?" +
         (r",\s*" + fkey + "(" + NOF + ")?" if fkey else "")
         if col else NOF) + r"\s*\);" + OUT


TABLE0 = r"CREATE TABLE " + TABLE + r" \("


def spec_field(t, flags, ref, actdel, actup):
    """Pattern of the whole output for a focus field."""
    if t == "FTYPE_STRUCT":
        return OUT + TABLE0 + NOF + r"\s*\);" + OUT
    col = NAME + " " + SQLTYPE[t]
    if "FIELD_ROWID" in flags:
        col += " PRIMARY KEY"
    elif "FIELD_NULL" not in flags:
        col += " NOT NULL"
    body = CMT + "(" + NOF + r",\s*" + CMT + ")?" + col
    rest = r"(\s*,\s*" + NOF + ")?"
    if ref:
        fk = r",\s*FOREIGN KEY\(" + NAME + r"\) REFERENCES " + L + \
            "C.sq{>}.name" + R + r"\(" + L + "C.sq{>}.fq{t}.name" + R + r"\)"
        # the order of the two clauses is free
        d = " ON DELETE " + ACTION[actdel] if actdel in ACTION else ""
        u = " ON UPDATE " + ACTION[actup] if actup in ACTION else ""
        fk += "(" + d + u + "|" + u + d + ")"
        body += rest + fk
    idx = OUT
    if "FIELD_UNIQUE" in flags:
        idx = OUT + "CREATE UNIQUE INDEX unique_" + TABLE + "__" + NAME + \
            " ON " + TABLE + r"\(" + NAME + r"\);" + OUT
    return OUT + TABLE0 + r"\s*" + body + rest + r"\s*\);" + idx


def setup(m):
    m.shapes["C.sq{>}.fq"] = "<t>"
    m.otype["C.sq{>}"] = "strct"
    m.otype["C.sq{>}.fq{t}"] = "field"
    m.otype[F + ".ref"] = "ref"
    return m


def body(c):
    prog = front.load()
    fn = prog.func("ort_lang_sql")
    types = [n for n, v in prog.enums["ftype"] if not n.endswith("__MAX")]
    acts = [n for n, v in prog.enums["upact"] if not n.endswith("__MAX")]
    for t in types:
        if t not in SQLTYPE and t != "FTYPE_STRUCT":
            raise Fatal("unknown field type " + t)
    todo = []
    for t in types:
        for fl in FLAGSETS:
            if t == "FTYPE_STRUCT" and set(fl) - {"FIELD_NOEXPORT"}:
                continue
            if "FIELD_ROWID" in fl and t != "FTYPE_INT":
                continue
            todo.append((t, fl, t == "FTYPE_STRUCT", "UPACT_NONE",
                         "UPACT_NONE"))
    for t in ("FTYPE_INT", "FTYPE_TEXT"):
        for d in acts:
            for u in acts:
                for fl in ([], ["FIELD_NULL"]):
                    todo.append((t, fl, True, d, u))
    uniq = ["a", "ab", "<a>", "ab>"]

    def field(sc):
        t, fl, ref, d, u = sc
        m = setup(Gen(prog))
        m.val(F, "type", t)
        m.flags(F, fl)
        m.val(F, "actdel", d)
        m.val(F, "actup", u)
        if ref:
            m.val(F, "ref", F + ".ref")
            m.val(F + ".ref", "source", F)
            m.val(F + ".ref", "target", "C.sq{>}.fq{t}")
        else:
            m.val(F, "ref", None)
        lang = Lang(spec_field(*sc))
        m.machines = [("schema", lang)]
        return judge(m, lang, "field of type %s%s%s" % (
            t, " with " + ", ".join(fl) if fl else "",
            ", reference with %s on delete and %s on update" % (d, u)
            if ref else ""))

    def judge(m, lang, what):
        bad = set()
        n = 0
        for st, v in m.runfn(fn, [None, ptr("C"), None]):
            if v == ZERO:
                continue
            n += 1
            if not lang.accepts(m.state(st, 0)):
                bad.add(what + (": not as required where " + m.where(0)
                                if m.state(st, 0) == 0 else ": incomplete"))
        if n == 0:
            bad.add(what)
        return what, sorted(bad), n, sorted(m.ai.funcs_analysed), m.nulls

    def unique(sh):
        m = setup(Gen(prog))
        U = S + ".nq{!}"
        m.otype[U] = "unique"
        m.shapes[S + ".nq"] = "<!>"
        m.shapes[U + ".nq"] = sh
        names = []
        for i, x in enumerate(sh):
            r = U + ".nq{%s}" % x
            m.otype[r] = "nref"
            m.val(r, "field", S + ".fq{%s}" % "!pq"[i])
            names.append(L + S + ".fq{%s}.name" % "!pq"[i] + R)
        m.shapes[S + ".fq"] = "<!pq>"
        for x in "!pq":
            o = S + ".fq{%s}" % x
            m.otype[o] = "field"
            m.flags(o, [])
            m.val(o, "ref", None)
            m.val(o, "type", "FTYPE_INT")
        def rep(sep):
            out = ""
            for i, x in enumerate(sh):
                s = sep if i else ""
                if x in SUMMARY:
                    if i == 0:
                        out += "(" + names[i] + "(" + sep + names[i] + ")*" +\
                            sep + ")?"
                    else:
                        out += "(" + s + names[i] + ")*"
                else:
                    out += ("" if i and sh[0] in SUMMARY and i == 1 else s) + \
                        names[i]
            return out
        lang = Lang(OUT + "(" + NAME + OUT + ")?CREATE TABLE " + TABLE +
                    r" \(" + ANY + ";" + ".*" +
                    "CREATE UNIQUE INDEX unique_" + TABLE + "__" + rep("_") +
                    " ON " + TABLE + r"\(" + rep(", ") + r"\);" + OUT)
        m.machines = [("schema", lang)]
        return judge(m, lang, "unique statement over %s" % {
            "a": "one field", "ab": "two fields",
            "<a>": "fields around one field",
            "ab>": "two or more fields"}[sh])

    funcs = set()
    npaths = 0
    res = pmap(field, todo) + pmap(unique, uniq)
    for what, bad, n, fs, nulls in res:
        funcs |= set(fs)
        npaths += n
        c.obligation(not bad, sample={"configuration": what})
        for b in bad:
            c.violate("schema|" + b, "lang-sql.c: a path of ort_lang_sql "
                      "succeeds without writing what a configuration with a "
                      "%s requires" % b)
        for f, fmt in nulls:
            c.violate("null|" + fmt, "%s: a null string is printed with %r" %
                      (f, fmt))
    c.floor("scenarios", len(res), 100)
    c.floor("paths", npaths, 100)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "every successful path of ort_lang_sql writes text in the regular "
        "language prescribed for the field, reference or unique statement",
        "Dataflow over ort_lang_sql on a symbolic configuration; the text "
        "written along each path is tracked through an automaton.")


if __name__ == "__main__":
    main("P08", body)
