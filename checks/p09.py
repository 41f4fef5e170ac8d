"""P09: updates of SQL schemas: incompatible changes are refused before
anything is written, compatible ones give exactly the statements needed."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from gen import *
from par import pmap
from p08 import FLAGSETS, SQLTYPE, ACTION, NAME, TABLE, spec_field, setup

ANY = ".*"
# incompatible changes (ort-sqldiff(1)); those with True are allowed by -d
REFUSE = {"DIFF_DEL_ENM": True, "DIFF_DEL_EITEM": True, "DIFF_DEL_BITF": True,
          "DIFF_DEL_BITIDX": True, "DIFF_DEL_STRCT": True,
          "DIFF_DEL_FIELD": True, "DIFF_MOD_EITEM_VALUE": False,
          "DIFF_MOD_BITIDX_VALUE": False, "DIFF_MOD_FIELD_TYPE": False,
          "DIFF_MOD_FIELD_ENM": False, "DIFF_MOD_FIELD_BITF": False,
          "DIFF_MOD_FIELD_ACTIONS": False,
          "DIFF_MOD_FIELD_REFERENCE": False}
OBJ = {"ENM": ("enm", "E", "enm"), "EITEM": ("eitem", "EI", "eitem"),
       "BITF": ("bitf", "B", "bitf"), "BITIDX": ("bitidx", "BI", "bitidx"),
       "STRCT": ("strct", S, "strct"), "FIELD": ("field", F, "field"),
       "UNIQUE": ("unique", S + ".nq{!}", "unique")}
PRAGMA = r"PRAGMA foreign_keys=ON;"


class Diff(Gen):
    def __init__(self, prog, kind, shape):
        super().__init__(prog)
        self.shapes["C.q"] = shape
        self.val("C.q{!}", "type", kind)
        self.msgs = 0
        p = kind.split("_")
        mem, o, t = OBJ[p[2]]
        if p[1] == "MOD":
            i, f = "I:" + o, "F:" + o
            self.otype[i] = self.otype[f] = t
            self.val("C.q{!}", mem + "_pair.from", f)
            self.val("C.q{!}", mem + "_pair.into", i)
            if t == "field":
                for x in (i, f):
                    self.val(x, "parent", S)
        else:
            self.otype[o] = t
            self.val("C.q{!}", mem, o)

    def load(self, ai, loc, ty, st):
        if loc == ("C.q", "tqh_first"):
            return self.follow("C.q", 0, ty)
        return super().load(ai, loc, ty, st)

    def enter(self, ai, func, args, st):
        if func.name in ("ort_msg", "ort_msgv"):
            return [(st.tag("msg"), None)]
        return super().enter(ai, func, args, st)


class Main(World):
    """ort-sqldiff's main: which flag is passed, and what the result does to
    the exit status."""
    limit = 400

    def __init__(self, prog):
        super().__init__(prog)
        self.seen = set()

    def enter(self, ai, func, args, st):
        if func.name == "ort_lang_diff_sql":
            self.seen.add((st.has("d"), args[2]))
            return [(st.tag("ok"), POS), (st.tag("bad"), frozenset([0])),
                    (st.tag("bad"), NEG)]
        return None

    def call(self, ai, fn, name, e, args, st):
        if name == "ort_lang_diff_sql":
            return self.enter(ai, self.prog.func(name), args, st)
        if name == "getopt":
            out = [(st, frozenset([-1]))]
            if not st.has("d"):
                out.append((st.tag("d"), frozenset([ord("d")])))
            return out + [(st.tag("usage"), frozenset([ord("?")]))]
        if name == "fflush":
            return [(st, ZERO)]
        if name in ("ort_parse_file", "ort_parse_close"):
            return [(st, ONE), (st.tag("bad"), ZERO)]
        if name == "ort_diff":
            return [(st, POS), (st.tag("bad"), ZERO)]
        if name in ("ort_config_alloc", "calloc", "fopen"):
            return [(st, POS)]
        if name and name.startswith("ort_"):
            return [(st, None)]
        return super().call(ai, fn, name, e, args, st)


def altercol(t, flags, ref, actdel, actup):
    p = "ALTER TABLE " + TABLE + " ADD COLUMN " + NAME + " " + SQLTYPE[t]
    if "FIELD_ROWID" in flags:
        p += " PRIMARY KEY"
    elif "FIELD_NULL" not in flags:
        p += " NOT NULL"
    if ref:
        d = " ON DELETE " + ACTION[actdel] if actdel in ACTION else ""
        u = " ON UPDATE " + ACTION[actup] if actup in ACTION else ""
        p += " REFERENCES " + L + "C.sq{>}.name" + R + r"\(" + L + \
            "C.sq{>}.fq{t}.name" + R + r"\)(" + d + u + "|" + u + d + ")"
    if "FIELD_HASDEF" in flags:
        p += " DEFAULT "
        if t == "FTYPE_ENUM":
            p += L + "C.EI.value" + R
        elif t == "FTYPE_REAL":
            p += "[^';]+"
        elif SQLTYPE[t] == "INTEGER":
            p += L + F + ".def.integer" + R
        else:
            p += "'" + ANY + "'"
    p += ";"
    if "FIELD_UNIQUE" in flags:
        p += ANY + "CREATE UNIQUE INDEX unique_" + TABLE + "__" + NAME + \
            " ON " + TABLE + r"\(" + NAME + r"\);"
    return p


def body(c):
    prog = front.load()
    fn = prog.func("ort_lang_diff_sql")
    mains = [f for f in prog.funcs.values()
             if f.name == "main" and "ort_lang_diff_sql" in f.callees]
    if fn is None or len(mains) != 1 or len(fn.params) != 5:
        raise Fatal("ort_lang_diff_sql or its program is gone")
    kinds = [n for n, v in prog.enums["difftype"] if not n.endswith("__MAX")]
    for k in REFUSE:
        if k not in kinds:
            raise Fatal("no difference " + k)
    types = [n for n, v in prog.enums["ftype"] if not n.endswith("__MAX")]
    acts = [n for n, v in prog.enums["upact"] if not n.endswith("__MAX")]

    def run(m, d):
        return m.runfn(fn, [None, ptr("C.q"), frozenset([d]), None,
                            ptr("MQ")])

    todo = []
    # (A) refused
    for k, ok in sorted(REFUSE.items()):
        for t in types if k == "DIFF_DEL_FIELD" else [None]:
            if t == "FTYPE_STRUCT":
                continue
            todo.append(("refuse", k, 0, t))
        if not ok:
            todo.append(("refuse", k, 1, None))
    # (B) carried out
    for t in types:
        if t == "FTYPE_STRUCT":
            todo.append(("nothing", "DIFF_ADD_FIELD", 0, t))
            todo.append(("nothing", "DIFF_DEL_FIELD", 0, t))
            todo.append(("nothing", "DIFF_DEL_FIELD", 1, t))
            continue
        for fl in FLAGSETS:
            if "FIELD_ROWID" in fl and t != "FTYPE_INT":
                continue
            if "FIELD_HASDEF" in fl and t in ("FTYPE_BLOB",
                                              "FTYPE_PASSWORD"):
                continue
            todo.append(("add", t, 0, (fl, False, acts[0], acts[0])))
    for a in acts:
        for b in acts:
            for fl in ([], ["FIELD_NULL", "FIELD_HASDEF"]):
                todo.append(("add", "FTYPE_INT", 0, (fl, True, a, b)))
    for d in (0, 1):
        todo.append(("strct", "DIFF_ADD_STRCT", d, None))
        todo.append(("unique", "DIFF_ADD_UNIQUE", d, None))
        todo.append(("unique", "DIFF_DEL_UNIQUE", d, None))
        sets = [x for n in range(6) for x in itertools.combinations(
            ("FIELD_ROWID", "FIELD_NULL", "FIELD_UNIQUE", "FIELD_NOEXPORT",
             "FIELD_HASDEF"), n)]
        for x in sets:
            for y in sets:
                if x == y or d and len(set(x) ^ set(y)) > 1:
                    continue
                ch = set(x) ^ set(y)
                todo.append((
                    "refuse" if ch & {"FIELD_ROWID", "FIELD_NULL"} else
                    "flags" if "FIELD_UNIQUE" in ch else "nothing",
                    "DIFF_MOD_FIELD_FLAGS", d, (" ".join(x), " ".join(y))))
        todo.append(("nothing", "DIFF_MOD_FIELD_REFERENCE", d, None))
    for t in types:
        if t != "FTYPE_STRUCT":
            todo.append(("dropfield", "DIFF_DEL_FIELD", 1, (t, [])))
    todo.append(("dropfield", "DIFF_DEL_FIELD", 1,
                 ("FTYPE_INT", ["FIELD_UNIQUE"])))
    todo.append(("dropstrct", "DIFF_DEL_STRCT", 1, None))
    for k in kinds:
        p = k.split("_")
        if k in REFUSE and not REFUSE[k] or k in (
                "DIFF_MOD_FIELD_FLAGS", "DIFF_ADD_FIELD", "DIFF_DEL_FIELD",
                "DIFF_ADD_STRCT", "DIFF_DEL_STRCT", "DIFF_ADD_UNIQUE",
                "DIFF_DEL_UNIQUE"):
            continue
        for d in (0, 1):
            if k in REFUSE and not d:
                continue
            todo.append(("other", k, d, None))

    def one(sc):
        how, k, d, x = sc
        bad, fs, n, nulls = set(), set(), 0, []
        kk = "DIFF_ADD_FIELD" if how == "add" else k
        what = "%s record%s%s" % (
            kk, " (%s)" % (k if how == "add" else "") if how == "add" else "",
            " with -d" if d else "")
        if x is not None and how != "add":
            what += " %s" % (x,)
        elif how == "add":
            what += " flags %s%s" % (x[0], " referencing, %s, %s" % x[2:]
                                     if x[1] else "")
        # the type, default and action are looked up for the field alone: the
        # company of other differences is tried with some of them
        alone = how == "add" and (x[0] if k != "FTYPE_INT" or
                                  len(x[0]) > 2 else
                                  x[1] and x[2] != x[3])
        alone = alone or kk == "DIFF_MOD_FIELD_FLAGS" and \
            len(" ".join(x).split()) > 2
        for shape in ("!",) if alone else ("<!>", "!"):
            if how in ("other",):
                m = setup(Gen(prog))
                m.__class__ = Diff
                m.shapes["C.q"] = shape
                m.val("C.q{!}", "type", k)
            else:
                m = setup(Diff(prog, kk, shape))
            fo = F if kk.split("_")[1] != "MOD" else None
            for o in [F] + ([] if fo else ["I:" + F, "F:" + F]):
                m.otype[o] = "field"
                m.val(o, "parent", S)
                m.val(o, "type", x if isinstance(x, str) else
                      x[0] if how == "dropfield" else
                      k if how == "add" else "FTYPE_INT")
                m.flags(o, [])
                m.val(o, "ref", None)
                m.val(o, "actdel", acts[0])
                m.val(o, "actup", acts[0])
            if kk == "DIFF_MOD_FIELD_FLAGS":
                m.flags("F:" + F, x[0].split())
                m.flags("I:" + F, x[1].split())
            lang = None
            name2 = NAME
            if how == "add":
                m.flags(F, x[0])
                m.val(F, "actdel", x[2])
                m.val(F, "actup", x[3])
                if k == "FTYPE_ENUM":
                    m.otype["C.EI"] = "eitem"
                    m.val(F, "def.eitem", "C.EI")
                if x[1]:
                    m.val(F, "ref", F + ".ref")
                    m.otype[F + ".ref"] = "ref"
                    m.val(F + ".ref", "source", F)
                    m.val(F + ".ref", "target", "C.sq{>}.fq{t}")
                m.val("C.sq{>}.fq{t}", "parent", "C.sq{>}")
                lang = altercol(k, *x)
            elif how == "strct":
                m.otype[F + ".x"] = ""
                lang = "(?:" + spec_field("FTYPE_INT", [], False, acts[0],
                                          acts[0]) + ")"
            elif how == "unique":
                U = S + ".nq{!}"
                m.val(U, "parent", S)
                m.shapes[U + ".nq"] = "ab"
                nm = []
                m.shapes[S + ".fq"] = "<!pq>"
                for i, y in enumerate("ab"):
                    r = U + ".nq{%s}" % y
                    fd = S + ".fq{%s}" % "pq"[i]
                    m.otype[r], m.otype[fd] = "nref", "field"
                    m.val(r, "field", fd)
                    nm.append(L + fd + ".name" + R)
                idx = "INDEX unique_" + TABLE + "__" + "_".join(nm)
                if "ADD" in k:
                    lang = "CREATE UNIQUE " + idx + " ON " + TABLE + r"\(" + \
                        ", ".join(nm) + r"\);"
                else:
                    lang = "DROP " + idx + ";"
            elif how == "flags":
                idx = "INDEX unique_" + TABLE + "__" + name2
                if "FIELD_UNIQUE" in x[0]:
                    lang = "DROP " + idx + ";"
                else:
                    lang = "CREATE UNIQUE " + idx + " ON " + TABLE + r"\(" + \
                        name2 + r"\);"
            elif how == "dropfield":
                m.flags(F, x[1])
                lang = "-- ALTER TABLE " + TABLE + " DROP COLUMN " + NAME + \
                    ";"
                if x[1]:
                    lang = "DROP INDEX unique_" + TABLE + "__" + NAME + ";" \
                        + ANY + lang
            elif how == "dropstrct":
                lang = "DROP TABLE " + TABLE + ";"
            if kk == "DIFF_MOD_FIELD_REFERENCE" and how == "nothing":
                m.val("F:" + F, "type", "FTYPE_STRUCT")
                m.val("I:" + F, "type", "FTYPE_STRUCT")
            if how == "refuse":
                m.machines = [("", Lang(""))]
            elif how in ("nothing", "other"):
                mine = "[^" + NAME + TABLE + "]*"
                m.machines = [("", Lang("(" + PRAGMA + mine + ")?"
                                        if shape != "!" else ""))]
            else:
                m.machines = [("", Lang(PRAGMA + r"\s*" + (
                    lang if how == "strct" else
                    "(.*;\\s*)?" + lang + r"(\s.*)?")))]
            if not d:
                m.machines.append(("", Avoid("DROP TABLE")))
                m.machines.append(("", Avoid("DROP COLUMN")))
            for st, v in run(m, d):
                n += 1
                ok = v is not None and all(
                    a == "P" or isinstance(a, int) and a > 0 for a in v)
                no = v is not None and all(
                    a == "N" or isinstance(a, int) and a <= 0 for a in v)
                if not ok and not no:
                    bad.add("a result that is neither success nor failure")
                    continue
                if how == "refuse":
                    if ok:
                        bad.add("accepted")
                    elif not st.has("msg"):
                        bad.add("refused without a message")
                    if not m.machines[0][1].accepts(m.state(st, 0)):
                        bad.add("output although it is refused: " +
                                m.where(0))
                elif ok:
                    if not m.machines[0][1].accepts(m.state(st, 0)):
                        bad.add("not the statements required" + (
                            " where " + m.where(0)
                            if m.state(st, 0) == 0 else ""))
                elif shape == "!" and st.has("msg"):
                    bad.add("refused")
                if not d and (m.state(st, 1) == 0 or m.state(st, 2) == 0):
                    bad.add("tables or columns are dropped without -d: " +
                            m.where(1) + m.where(2))
            if how != "refuse" and n == 0:
                bad.add("no path")
            fs |= m.ai.funcs_analysed
            nulls += m.nulls
        return what, sorted(bad), n, sorted(fs), nulls

    funcs, npaths = set(), 0
    res = pmap(one, todo)
    for what, bad, n, fs, nulls in res:
        funcs |= set(fs)
        npaths += n
        c.obligation(not bad, sample={"difference": what})
        for b in bad:
            c.violate("update|%s|%s" % (what, b), "lang-sql.c: on a path of "
                      "ort_lang_diff_sql with a %s: %s" % (what, b))
        for f, fmt in nulls:
            c.violate("null|" + fmt, "%s: a null string is printed with %r" %
                      (f, fmt))

    mm = Main(prog)
    ai = AI(prog, mm)
    n = 0
    for st, v in ai.run(mains[0], State({}, frozenset())):
        n += 1
        if st.has("bad") or st.has("usage") or not st.has("ok"):
            if v is None or 0 in v:
                c.violate("exit|bad", "%s: main exits successfully although "
                          "the update was refused or failed" % mains[0].file)
        elif v != ZERO:
            c.violate("exit|ok", "%s: main does not exit successfully after "
                      "an update was written" % mains[0].file)
    c.obligation(n > 0)
    for isd, v in mm.seen:
        c.obligation(v is not None and (0 not in v) == isd and len(v) == 1)
        if v is None or len(v) != 1 or (0 not in v) != isd:
            c.violate("flag|%s" % isd, "%s: main permits destructive changes "
                      "%s -d" % (mains[0].file,
                                 "with and without" if v is None or
                                 len(v) > 1 else
                                 "without" if not isd else "not with"))
    c.floor("kinds of difference", len(kinds), 80)
    c.floor("scenarios", len(res), 250)
    c.floor("calls by the program", len(mm.seen), 2)
    c.floor("paths", npaths, 500)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "with a record of each kind queued, every path of ort_lang_diff_sql "
        "fails without output and with a message (incompatible), or writes "
        "text in the regular language prescribed for the record",
        "Dataflow over ort_lang_diff_sql and the program on a symbolic queue "
        "of differences; the text written along each path is tracked through "
        "automata.")


if __name__ == "__main__":
    main("P09", body)
