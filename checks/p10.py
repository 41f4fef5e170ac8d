"""P10: the canonical writer writes every declaration and attribute in the
documented syntax."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from gen import *
from par import pmap
from syntax import *

RM, Q, U, D, N = (S + x for x in (".rq{!}", ".sq{!}", ".uq{!}", ".dq{!}",
                                  ".nq{!}"))
E, B, RO = "C.eq{!}", "C.bq{!}", "C.rq{a}.subrq{!}"


def hole(x):
    return L + x + R


def seq(*toks):
    """Pattern for tokens with free white space between them."""
    out = ""
    word = False
    for t in toks:
        if t == "":
            continue
        w = t[0].isalnum() or t[0] in "([" + L
        if out and word and w:
            out += r"\s+"
        elif out:
            out += r"\s*"
        out += t
        word = not t.endswith((";", ",", ":", r"\{", r"\}", "?", "*"))
    return out


def words(t):
    a = sorted(t) if isinstance(t, (set, frozenset, tuple, list)) else [t]
    return "(" + "|".join(a) + ")"


def filler(names):
    """Anything else in a block: balanced, and not naming the focus."""
    x = "[^{}" + "".join(hole(n) for n in names) + "]"
    y = r"\{" + x + r"*\}"
    return "(" + x + r"|\{(" + x + "|" + y + r")*\})*"


COMMENT = r'comment\s+"%s"'


def clause(pre, item, post=r"\s*,\s*"):
    return item


def listed(one, others=True):
    """A comma-separated list with the focus item in it."""
    x = r"[^,;:{}]+"
    return "(" + x + r",\s*)*" + one + r"(\s*,\s*" + x + ")*"


class Write(Gen):
    def __init__(self, prog):
        super().__init__(prog)
        for o, t in ((RM, "rolemap"), (Q, "search"), (U, "update"),
                     (D, "update"), (N, "unique"), (E, "enm"), (B, "bitf"),
                     (RO, "role"), ("C.rq{a}", "role"), ("C.rq{d}", "role"),
                     ("C.rq{n}", "role")):
            self.otype[o] = t
        self.shapes["C.rq"] = "dna"
        for x, n in (("d", "default"), ("n", "none"), ("a", "all")):
            self.vals[("C.rq{%s}" % x, "name")] = frozenset([("s", n)])
        for x in "dn":
            self.shapes["C.rq{%s}.subrq" % x] = ""
        self.alone = {"field", "search", "update", "unique", "rolemap",
                      "strct", "enm", "eitem", "bitf", "bitidx", "role",
                      "label"}
        # the parts out of focus are empty (their company is tried in turn)
        for x in ("C.rq{a}.subrq", "C.eq", "C.bq", "C.sq", S + ".fq",
                  S + ".sq", S + ".uq", S + ".dq", S + ".nq", S + ".rq"):
            self.shapes[x] = ""
        self.val(S, "ins", None)
        self.val(S, "doc", None)

    def call(self, ai, fn, name, e, args, st):
        if name == "localtime":
            return [(st, POS)]
        return super().call(ai, fn, name, e, args, st)

    def full(self):
        for x in ("C.rq{a}.subrq", "C.eq", "C.bq", "C.sq", S + ".fq",
                  S + ".sq", S + ".uq", S + ".dq", S + ".nq", S + ".rq"):
            self.shapes[x] = "<>"


def instrct(stmt, names=()):
    f = filler([S + ".name"] + list(names))
    return f + seq("struct", hole(S + ".name"), r"\{") + f + r"\s" + stmt + \
        f + r"\};" + f


def inblock(kw, o, stmt, names=()):
    f = filler([o + ".name"] + list(names))
    return f + seq(words(kw), hole(o + ".name"), r"\{") + f + r"\s" + stmt + \
        f + r"\};" + f


def body(c):
    prog = front.load()
    fn = prog.func("ort_write_file")
    if fn is None:
        raise Fatal("ort_write_file is gone")
    enums = {}
    for en, table in (("ftype", FTYPE), ("upact", UPACT), ("vtype", VTYPE),
                      ("optype", OPTYPE), ("modtype", MODTYPE),
                      ("rolemapt", ROLEMAPT), ("stype", STYPE),
                      ("aggrtype", AGGR)):
        enums[en] = [n for n, v in prog.enums[en] if not n.endswith("__MAX")]
        for n in enums[en]:
            if n not in table:
                raise Fatal("unknown enumerator " + n)

    todo = []
    # fields
    for t in enums["ftype"]:
        flagsets = [()] if t == "FTYPE_STRUCT" else [
            x for n in range(6) for x in itertools.combinations(
                ("FIELD_ROWID", "FIELD_UNIQUE", "FIELD_NULL",
                 "FIELD_NOEXPORT", "FIELD_HASDEF"), n)]
        if t == "FTYPE_STRUCT":
            flagsets = [(), ("FIELD_NOEXPORT",), ("FIELD_NULL",)]
        for fl in flagsets:
            if "FIELD_HASDEF" in fl and DEFAULT.get(t) is None:
                continue
            if "FIELD_ROWID" in fl and (t != "FTYPE_INT" or
                                        "FIELD_NULL" in fl):
                continue
            todo.append(("field", t, fl, False, "UPACT_NONE", "UPACT_NONE",
                         None, False))
        for doc in (False, True):
            todo.append(("field", t, (), t == "FTYPE_STRUCT", "UPACT_NONE",
                         "UPACT_NONE", None, doc))
            for v in enums["vtype"] if t in LIMIT else ():
                todo.append(("field", t, ("FIELD_NULL",), False,
                             "UPACT_NONE", "UPACT_NONE", v, doc))
    for a in enums["upact"]:
        for b in enums["upact"]:
            todo.append(("field", "FTYPE_INT", ("FIELD_NULL", "FIELD_HASDEF"),
                         True, a, b, None, True))
    # role maps
    for t in enums["rolemapt"]:
        for named in (False, True):
            todo.append(("rolemap", t, named))
    # queries: kind and operator; every set of clauses
    for t in enums["stype"]:
        for o in enums["optype"]:
            todo.append(("search", t, o, ()))
    cl = ("name", "order", "desc", "limit", "offset", "group", "min",
          "distinct", "here", "doc")
    for n in range(6):
        for x in itertools.combinations(cl, n):
            if "offset" in x and "limit" not in x or \
                    "min" in x and "group" not in x or \
                    "here" in x and "distinct" not in x or \
                    "desc" in x and "order" not in x:
                continue
            todo.append(("search", "STYPE_LIST", "OPTYPE_EQUAL", x))
            todo.append(("search", "STYPE_LIST", None, x))
    # updates
    for n in range(3):
        for x in itertools.combinations(("name", "doc"), n):
            for mod in [None] + enums["modtype"]:
                for o in [None] + enums["optype"]:
                    if x and o not in (None, "OPTYPE_EQUAL", "OPTYPE_STREQ"):
                        continue
                    todo.append(("update", mod, o, x))
            for o in [None] + enums["optype"]:
                todo.append(("delete", None, o, x))
    for doc in (False, True):
        for ins in (False, True):
            todo.append(("strct", doc, ins))
        for lab in (0, 1, 2):
            for auto in (False, True):
                todo.append(("eitem", doc, lab, auto))
            todo.append(("bitidx", doc, lab))
            todo.append(("enm", doc, lab))
            todo.append(("bitf", doc, lab, False))
            todo.append(("bitf", doc, lab, True))
        for sub in (False, True):
            todo.append(("role", doc, sub))
    todo.append(("unique",))

    def lang(m, sc):
        """Prepares the scenario, returns the pattern."""
        k = sc[0]
        if k in ("field", "rolemap", "search", "update", "delete", "unique",
                 "strct"):
            m.shapes["C.sq"] = "<!>"
        doc = sc[-1] if k == "field" else None

        def setdoc(o, on):
            m.val(o, "doc", o + ".doc") if on else m.val(o, "doc", None)
            if on:
                del m.vals[(o, "doc")]
                m.vals[(o, "doc")] = frozenset([("qs", o + ".doc", 0)])
            return COMMENT % hole(o + ".doc") if on else ""

        def label(o, lst, on):
            lb = o + "." + lst + "{!}"
            m.otype[lb] = "label"
            m.shapes[o + "." + lst] = "<!>" if on else ""
            if on == 2:
                m.vals[(lb, "lang")] = frozenset([("qs", lb + ".lang", 0)])
                w = r"jslabel\s*\.\s*" + hole(lb + ".lang")
            else:
                m.val(lb, "lang", 0)
                w = "jslabel"
            # the text is copied character by character
            return r'(jslabel[^;]*\s)?' + w + \
                r'\s+"[^";]*"(\s*jslabel[^;]*)?' if on else ""

        if k == "field":
            _, t, fl, ref, a, b, v, _ = sc
            m.shapes[S + ".fq"] = "<!>"
            m.val(F, "type", t)
            m.flags(F, fl)
            m.val(F, "actdel", a)
            m.val(F, "actup", b)
            m.val(F, "enm", E if t == "FTYPE_ENUM" else None)
            m.val(F, "bitf", B if t == "FTYPE_BITFIELD" else None)
            toks = ["field", hole(F + ".name")]
            if ref:
                m.val(F, "ref", "C.ref")
                m.otype["C.ref"] = "ref"
                for x in ("source", "target"):
                    m.otype["C." + x[0]] = "field"
                    m.val("C.ref", x, "C." + x[0])
                    m.otype["C.p" + x[0]] = "strct"
                    m.val("C." + x[0], "parent", "C.p" + x[0])
                if t != "FTYPE_STRUCT":
                    toks += [":", hole("C.pt.name") + r"\s*\.\s*" +
                             hole("C.t.name")]
            else:
                m.val(F, "ref", None)
            toks.append(words(FTYPE[t]))
            if t == "FTYPE_ENUM":
                toks.append(hole(E + ".name"))
            if t == "FTYPE_BITFIELD":
                toks.append(hole(B + ".name"))
            if t == "FTYPE_STRUCT" and ref:
                toks.append(hole("C.s.name"))
            for f in ("ROWID", "UNIQUE", "NULL", "NOEXPORT"):
                if "FIELD_" + f in fl:
                    toks.append(f.lower())
            if "FIELD_HASDEF" in fl:
                toks.append("default")
                d = DEFAULT[t]
                if d == "eitem":
                    m.otype["C.ei"] = "eitem"
                    m.val(F, "def.eitem", "C.ei")
                    toks.append(hole("C.ei.name"))
                elif d == "integer":
                    toks.append(hole(F + ".def.integer"))
                elif d == "string":
                    toks.append('("' + hole(F + ".def.string") + '")')
                elif d == "date":
                    h = "[" + hole("?") + "0-9" + "]+"
                    toks.append("(" + h + "-" + h + "-" + h + ")")
                else:
                    toks.append("([^;\\s\"]+)")
            if v:
                fv = F + ".fvq{!}"
                m.otype[fv] = "fvalid"
                m.shapes[F + ".fvq"] = "<!>"
                m.val(fv, "type", v)
                val = hole(fv + ".d.value." + LIMIT[t]) \
                    if LIMIT[t] != "decimal" else "[^;\\s\"]+"
                one = r"limit\s+" + VTYPE[v] + r"\s+" + val
                other = r"(limit\s+[a-z]+\s+[^;\s]+\s+)*"
                other2 = r"(\s+limit\s+[a-z]+\s+[^;\s]+)*"
                toks.append("(" + other + one + other2 + ")")
            else:
                m.shapes[F + ".fvq"] = ""
            for kw, x in (("actdel", a), ("actup", b)):
                if x != "UPACT_NONE":
                    toks += [kw, UPACT[x]]
            toks += [setdoc(F, doc), ";"]
            return instrct(seq(*toks), [F + ".name"])
        if k == "rolemap":
            _, t, named = sc
            m.shapes[S + ".rq"] = "<!>"
            rr = RM + ".rq{!}"
            m.shapes[RM + ".rq"] = "<!>"
            m.otype[rr] = "rref"
            m.val(RM, "type", t)
            role = "C.role"
            m.otype[role] = "role"
            m.val(rr, "role", role)
            mem = {"s": "search", "u": "update", "f": "field"}
            ref = ROLEREF.get(t)
            toks = ["roles", listed(hole(role + ".name")), r"\{",
                    ROLEMAPT[t]]
            for x in mem:
                m.val(RM, x, None)
            if ref and named:
                o = "C.of"
                m.otype[o] = mem[ref]
                m.val(RM, ref, o)
                m.vals[(o, "name")] = frozenset([("qs", o + ".name", 0)])
                toks.append(hole(o + ".name"))
            toks += [";", r"\}", ";"]
            return instrct(seq(*toks))
        if k == "search":
            _, t, op, x = sc
            m.shapes[S + ".sq"] = "<!>"
            m.val(Q, "type", t)
            toks = [STYPE[t]]
            if op:
                m.shapes[Q + ".sntq"] = "<!>"
                o = Q + ".sntq{!}"
                m.otype[o] = "sent"
                m.val(o, "op", op)
                opt = r"(\s+" + OPTYPE[op] + ")"
                if op == "OPTYPE_EQUAL":
                    opt += "?"
                toks.append(listed(hole(o + ".fname") + opt))
            else:
                m.shapes[Q + ".sntq"] = ""
            if x:
                toks.append(":")
            m.vals[(Q, "name")] = frozenset(
                [("qs", Q + ".name", 0)]) if "name" in x else ZERO
            if "name" in x:
                toks += ["name", hole(Q + ".name")]
            m.shapes[Q + ".ordq"] = "<!>" if "order" in x else ""
            if "order" in x:
                o = Q + ".ordq{!}"
                m.otype[o] = "ord"
                m.val(o, "op", "ORDTYPE_DESC" if "desc" in x
                      else "ORDTYPE_ASC")
                toks += ["order", "(" + listed(hole(o + ".fname") + (
                    r"\s+desc" if "desc" in x else r"(\s+asc)?")) + ")"]
            m.vals[(Q, "limit")] = POS if "limit" in x else ZERO
            m.vals[(Q, "offset")] = POS if "offset" in x else ZERO
            if "limit" in x:
                m.vals[(Q, "limit")] = frozenset([7])
                m.vals[(Q, "offset")] = frozenset([9]) if "offset" in x \
                    else ZERO
                toks += ["limit", "7"]
                if "offset" in x:
                    toks += [",", "9"]
            for attr in ("group", "aggr", "dst"):
                m.val(Q, attr, None)
            if "group" in x:
                m.otype["C.gr"], m.otype["C.ag"] = "group", "aggr"
                m.val(Q, "group", "C.gr")
                m.val(Q, "aggr", "C.ag")
                m.val("C.ag", "op", "AGGR_MINROW" if "min" in x
                      else "AGGR_MAXROW")
                g = seq("grouprow", hole("C.gr.fname"))
                a = seq(AGGR["AGGR_MINROW" if "min" in x else "AGGR_MAXROW"],
                        hole("C.ag.fname"))
                toks.append("(" + g + r"\s+" + a + "|" + a + r"\s+" + g + ")")
            if "distinct" in x:
                m.otype["C.ds"] = "dstnct"
                m.val(Q, "dst", "C.ds")
                if "here" in x:
                    m.val("C.ds", "fname", None)
                else:
                    m.vals[("C.ds", "fname")] = frozenset(
                        [("qs", "C.ds.fname", 0)])
                toks += ["distinct", r"(\.)" if "here" in x
                         else hole("C.ds.fname")]
            toks += [setdoc(Q, "doc" in x), ";"]
            return instrct(seq(*toks), [Q + ".name"])
        if k in ("update", "delete"):
            _, mod, op, x = sc
            o = U if k == "update" else D
            m.shapes[S + (".uq" if k == "update" else ".dq")] = "<!>"
            m.val(o, "type", "UP_MODIFY" if k == "update" else "UP_DELETE")
            m.flags(o, [] if mod else ["UPDATE_ALL"])
            toks = [k]
            if k == "delete":
                m.flags(o, [])
                m.shapes[o + ".mrq"] = ""
            else:
                m.shapes[o + ".mrq"] = "<!>"
                r = o + ".mrq{!}"
                m.otype[r] = "uref"
                m.otype["C.mf"] = "field"
                m.val(r, "field", "C.mf")
                if mod:
                    m.val(r, "mod", mod)
                    w = r"(\s+" + MODTYPE[mod] + ")" + (
                        "?" if mod == "MODTYPE_SET" else "")
                    toks.append(listed(hole("C.mf.name") + w))
                else:
                    m.val(r, "mod", "MODTYPE_SET")
            m.shapes[o + ".crq"] = "<!>" if op else ""
            con = ""
            if op:
                r = o + ".crq{!}"
                m.otype[r] = "uref"
                m.otype["C.cf"] = "field"
                m.val(r, "field", "C.cf")
                m.val(r, "op", op)
                w = r"(\s+" + OPTYPE[op] + ")" + (
                    "?" if op == "OPTYPE_EQUAL" else "")
                con = listed(hole("C.cf.name") + w)
            parms = []
            m.vals[(o, "name")] = frozenset(
                [("qs", o + ".name", 0)]) if "name" in x else ZERO
            if "name" in x:
                parms += ["name", hole(o + ".name")]
            if "doc" in x:
                parms.append(setdoc(o, True))
            else:
                setdoc(o, False)
            if k == "update" and (op or parms):
                toks.append(":")
            if con:
                toks.append(con)
            if parms:
                toks += [":"] + parms
            toks.append(";")
            return instrct(seq(*toks), [o + ".name"])
        if k == "unique":
            m.shapes[S + ".nq"] = "<!>"
            m.shapes[N + ".nq"] = "<!>"
            m.otype[N + ".nq{!}"] = "nref"
            m.otype["C.nf"] = "field"
            m.val(N + ".nq{!}", "field", "C.nf")
            return instrct(seq("unique", listed(hole("C.nf.name")), ";"))
        if k == "strct":
            _, doc, ins = sc
            m.full()
            m.shapes["C.sq"] = "<!>"
            d = setdoc(S, doc)
            if ins:
                m.otype[S + ".ins"] = "insert"
                m.val(S, "ins", S + ".ins")
            x = seq("insert", ";") if ins else ""
            y = seq(d, ";") if doc else ""
            f = filler([S + ".name"])
            return instrct(x + (f + r"\s" if x and y else "") + y)
        if k == "role":
            _, doc, sub = sc
            m.shapes["C.rq{a}.subrq"] = "<!>"
            kid = RO + ".subrq{!}"
            m.shapes[RO + ".subrq"] = "<!>" if sub else ""
            m.shapes[kid + ".subrq"] = ""
            m.otype[kid] = "role"
            m.val(kid, "doc", None)
            m.vals[(kid, "name")] = frozenset([("qs", kid + ".name", 0)])
            m.vals[(RO, "name")] = frozenset([("qs", RO + ".name", 0)])
            f = filler([RO + ".name"])
            x = seq("role", hole(RO + ".name"), setdoc(RO, doc))
            if sub:
                x += r"\s*\{" + f + seq("role", hole(kid + ".name"), ";") + \
                    f + r"\}\s*;"
            else:
                x += r"\s*;"
            return seq("roles", r"\{") + f + r"\s" + x + f + r"\};" + f
        if k in ("enm", "eitem"):
            o, kw, lst, oth = E, "enum", "eq", "labels_null"
        else:
            o, kw, lst, oth = B, ("bitfield", "bits"), "bq", "labels_null"
        m.shapes["C." + ("eq" if o == E else "bq")] = "<!>"
        if k in ("enm", "bitf"):
            m.shapes[o + "." + lst] = "<>"
            d = setdoc(o, sc[1])
            if o == B:
                l2 = label(o, "labels_unset", sc[2] if sc[3] else 0)
                lab = label(o, "labels_null", 0 if sc[3] else sc[2])
                w = "isunset" if sc[3] else "isnull"
                lab = lab or l2
            else:
                lab, w = label(o, "labels_null", sc[2]), "isnull"
            x = seq(w, lab, ";") if lab else ""
            y = seq(d, ";") if d else ""
            f = filler([o + ".name"])
            return inblock(kw, o, x + (f + r"\s" if x and y else "") + y)
        i = o + "." + lst + "{!}"
        m.shapes[o + "." + lst] = "<!>"
        m.otype[i] = k
        m.shapes[o + ".labels_null"] = m.shapes[o + ".labels_unset"] = ""
        m.val(o, "doc", None)
        auto = k == "eitem" and sc[3]
        if k == "eitem":
            m.flags(i, ["EITEM_AUTO"] if auto else [])
        toks = ["item", hole(i + ".name"),
                "" if auto else hole(i + ".value"),
                label(i, "labels", sc[2]), setdoc(i, sc[1]), ";"]
        f = filler([i + ".name"])
        return inblock(kw, o, seq(*toks) + (
            r"(\s*\#[^\n]*\n)?" if k == "eitem" else ""), [i + ".name"])

    def one(sc):
        m = Write(prog)
        pat = Lang(lang(m, sc))
        m.machines = [("text", pat)]
        what = " ".join(str(x) for x in sc)
        bad, n = set(), 0
        for st, v in m.runfn(fn, [None, ptr("C")]):
            if v == ZERO:
                bad.add("the writer fails")
                continue
            n += 1
            if not pat.accepts(m.state(st, 0)):
                bad.add("written otherwise" + (
                    ", where " + m.where(0) if m.state(st, 0) == 0 else ""))
        if n == 0:
            bad.add("never written")
        return what, sorted(bad), n, sorted(m.ai.funcs_analysed), m.nulls

    funcs, npaths = set(), 0
    res = pmap(one, todo)
    for what, bad, n, fs, nulls in res:
        funcs |= set(fs)
        npaths += n
        c.obligation(not bad, sample={"declaration": what})
        for b in bad:
            c.violate("write|%s|%s" % (what, b), "writer.c: on a path of "
                      "ort_write_file, the declaration (%s) is %s" %
                      (what, b))
        for f, fmt in nulls:
            c.violate("null|" + fmt, "%s: a null string is printed with %r" %
                      (f, fmt))
    c.floor("declarations", len(res), 400)
    c.floor("paths", npaths, 400)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "every successful path of ort_write_file writes each declaration, "
        "with each of its attributes, in the documented syntax",
        "Dataflow over ort_write_file on a symbolic configuration; the text "
        "written along each path is tracked through an automaton.")


if __name__ == "__main__":
    main("P10", body)
