#!/usr/bin/env python3
"""The linker: what names resolve to, and what must be refused."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from par import pmap
from absint import *
from linkmodel import *

TYPES = """BIT DATE EPOCH INT REAL BLOB TEXT PASSWORD EMAIL STRUCT ENUM
BITFIELD""".split()
R = "C.priv.rq{!}"
S, F = "C.sq{!}", "C.sq{!}.fq{!}"
T, G = "C.sq{t}", "C.sq{t}.fq{!}"


def ft(*names):
    return ["FTYPE_" + n for n in names]


def but(*names):
    return ft(*[t for t in TYPES if t not in names])


class Sc:
    """One family of configurations."""
    def __init__(self, what, expect, why=""):
        self.what, self.expect, self.why = what, expect, why
        self.shapes = {"C.sq": "<!>", S + ".fq": "<!>", "C.priv.rq": "<!>"}
        self.objs, self.vals, self.post = [], [], []
        self.v("~.*\\.fq\\{[<>^*]\\}", type=but("STRUCT"))
        self.v("~.*\\.sq\\{[<>^*]\\}\\.fq\\{.\\}", type=but("STRUCT"))

    def list(self, l, sh):
        self.shapes[l] = sh
        return self

    def o(self, o, rec, **kw):
        self.objs.append((o, rec))
        self.v(o, **kw)
        return o

    def v(self, o, **kw):
        for k, x in kw.items():
            self.vals.append((o, k.replace("__", "."), x))
        return self

    def then(self, o, path, val):
        self.post.append((o, path, val))
        return self

    def build(self, prog, alone):
        m = Link(prog)
        m.shapes = dict(self.shapes)
        if alone:
            m.shapes["C.priv.rq"] = re.sub("[<>^*]", "", m.shapes["C.priv.rq"])
        for o, rec in self.objs:
            m.otype[o] = rec
            m.declared.add(o)
        for o, p, x in self.vals:
            if callable(x):
                x = x(prog)
            m.val(o, p, x)
        return m


def name(o, rank=0):
    return ("qs", o + ".name", rank)


NOWHERE = ("qs", "nowhere", 0)


def req(sc, typ, **kw):
    return sc.v(R, type="RESOLVE_" + typ, **kw)


def flag(*names):
    def f(prog):
        v = 0
        for n in names:
            v |= prog.macro(n)
        return v
    return f


def foreign():
    out = []

    def mk(what, expect, tt="INT", st="INT", fl="FIELD_UNIQUE", tf=G,
           ts=T, rank=0):
        sc = Sc("foreign reference: " + what, expect)
        sc.list("C.sq", "<!>t>").list(T + ".fq", "<!>")
        sc.o(F + ".ref", "ref", source=F, target=None, parent=F)
        sc.v(F, type="FTYPE_" + st, flags=0, ref=F + ".ref")
        sc.v(G, type="FTYPE_" + tt, flags=flag(*fl.split()), ref=None)
        req(sc, "FIELD_FOREIGN", field_foreign__result=F + ".ref",
            field_foreign__tstrct=name(ts, rank) if ts else NOWHERE,
            field_foreign__tfield=name(tf, rank) if tf else NOWHERE)
        sc.then(F + ".ref", "target", ptr(G)).then(F + ".ref", "source",
                                                   ptr(F))
        out.append(sc)
    for t in TYPES:
        if t != "STRUCT":
            mk("of type " + t, "ok", tt=t, st=t)
    mk("to a row identifier", "ok", fl="FIELD_ROWID")
    mk("to a row identifier that is unique", "ok",
       fl="FIELD_ROWID FIELD_UNIQUE")
    mk("by names in another letter case", "ok", rank="c")
    for a, b in (("INT", "TEXT"), ("INT", "REAL"), ("TEXT", "EMAIL"),
                 ("EPOCH", "DATE"), ("ENUM", "BITFIELD"), ("BIT", "INT"),
                 ("BLOB", "TEXT")):
        mk("of type %s to %s" % (b, a), "bad", tt=a, st=b)
    mk("to a field that is not unique", "bad", fl="FIELD_NULL")
    mk("to an unknown field", "bad", tf=None)
    mk("to an unknown structure", "bad", ts=None)
    return out


def lookups():
    """Enumeration and bitfield types, default items, source fields."""
    out = []

    def typ(what, expect, kind, attr, lst, rank=0, known=True):
        sc = Sc("%s type of a field: %s" % (kind, what), expect)
        sc.list("C." + lst, "<!>")
        sc.v(F, type="FTYPE_" + ("ENUM" if lst == "eq" else "BITFIELD"),
             flags=0, ref=None, **{attr: None})
        n = "C.%s{!}" % lst
        req(sc, "FIELD_" + kind.upper(),
            **{"field_%s__result" % kind: F,
               "field_%s__name" % kind: name(n, rank) if known else NOWHERE})
        sc.then(F, attr, ptr(n))
        out.append(sc)
    for kind, attr, lst in (("enum", "enm", "eq"), ("bits", "bitf", "bq")):
        typ("by name", "ok", kind, attr, lst)
        typ("in another letter case", "ok", kind, attr, lst, rank="c")
        typ("unknown", "bad", kind, attr, lst, known=False)

    def item(what, expect, nm):
        sc = Sc("default item of an enumeration field: " + what, expect)
        sc.list("C.eq", "<!>").list("C.eq{!}.eq", "<!>")
        sc.list("C.eq{<}.eq", "*").list("C.eq{>}.eq", "*")
        sc.list("C.priv.rq", "<e!>")
        sc.v(F, type="FTYPE_ENUM", flags=0, ref=None, enm=None,
             def__eitem=None)
        sc.v("C.priv.rq{e}", type="RESOLVE_FIELD_ENUM",
             field_enum__result=F, field_enum__name=name("C.eq{!}"))
        req(sc, "FIELD_DEFAULT_EITEM", field_def_eitem__result=F,
            field_def_eitem__name=nm)
        sc.then(F, "def.eitem", ptr("C.eq{!}.eq{!}"))
        out.append(sc)
    item("by name", "ok", name("C.eq{!}.eq{!}"))
    item("in another letter case", "ok", name("C.eq{!}.eq{!}", "c"))
    item("unknown", "bad", NOWHERE)

    for order in ("<es>", "<se>"):
        for n, rank, src, ex in (
                ("by name", 0, "INT", "ok"),
                ("in another letter case", "c", "INT", "ok"),
                ("not a reference", 0, None, "bad"),
                ("a structure", 0, "STRUCT", "bad"),
                ("unknown", None, "INT", "bad")):
            sc = Sc("source of a structure field: %s (%s)" % (
                n, "defined first" if order == "<es>" else "defined last"),
                ex)
            structfield(sc, "!", "s", T, "y", rank, src, S)
            sc.list("C.sq", "<!>t>")
            sc.list("C.priv.rq", order)
            out.append(sc)
    return out


def structfield(sc, f, src, tgt, tf, rank=0, typ="INT", owner=S, reqs="es",
                null=False):
    """A field f of structure type through the local field src, a reference
    to field tf of tgt; the requests are named by reqs."""
    F, X = owner + ".fq{%s}" % f, owner + ".fq{%s}" % src
    G = tgt + ".fq{%s}" % tf
    l = owner + ".fq"
    if l not in sc.shapes or sc.shapes[l] == "<!>" and f == "!":
        sc.list(l, "<%s>%s>" % (f, src))
    if tgt + ".fq" not in sc.shapes:
        sc.list(tgt + ".fq", "<" + tf + ">")
    sc.o(F + ".ref", "ref", source=None, target=None, parent=F)
    sc.v(F, type="FTYPE_STRUCT", flags=0, ref=F + ".ref")
    if typ == "STRUCT":
        # another structure, the target of which is known
        sc.list("C.sq", "<!>t>z")
        sc.list("C.sq{z}.fq", "a")
        sc.v("C.sq{z}.fq{a}", type="FTYPE_INT", flags=0, ref=None)
        sc.o(X + ".ref", "ref", source=G, target="C.sq{z}.fq{a}", parent=X)
    elif typ:
        sc.o(X + ".ref", "ref", source=X, target=None, parent=X)
    sc.v(X, type="FTYPE_" + (typ or "INT"),
         flags=flag("FIELD_NULL") if null else 0,
         ref=X + ".ref" if typ else None)
    if (G, "type") not in [x[:2] for x in sc.vals]:
        sc.v(G, type="FTYPE_INT", flags=flag("FIELD_ROWID"), ref=None)
    a, b = ("C.priv.rq{%s}" % x for x in reqs)
    if typ and typ != "STRUCT":
        sc.v(a, type="RESOLVE_FIELD_FOREIGN",
             field_foreign__result=X + ".ref",
             field_foreign__tstrct=name(tgt), field_foreign__tfield=name(G))
    sc.v(b, type="RESOLVE_FIELD_STRUCT", field_struct__result=F + ".ref",
         field_struct__sfield=NOWHERE if rank is None else name(X, rank))
    sc.then(F + ".ref", "target", ptr(G)).then(F + ".ref", "source", ptr(X))


Q = S + ".sq{!}"
CHAINED = {"SENT": ("sent", Q + ".sntq{!}", "field"),
           "ORDER": ("ord", Q + ".ordq{!}", "field"),
           "GROUPROW": ("group", Q + ".group", "field"),
           "AGGR": ("aggr", Q + ".aggr", "field"),
           "DISTINCT": ("dstnct", Q + ".dst", "strct")}


def cat(*fs):
    return ("qs", name(fs[0])[1], 0) if len(fs) == 1 else \
        ("qs", "cat:" + ".".join(name(f)[1] for f in fs), 0)


def query(sc, kinds=(), typ="STYPE_LIST"):
    sc.list(S + ".sq", "!")
    if Q not in [o for o, r in sc.objs]:
        sc.o(Q, "search", type=typ, parent=S, limit=0, offset=0, flags=0,
             name=None, group=None, aggr=None, dst=None, rolemap=None)


def chain(sc, kind, fields, rank=0, path=None, slot="!", nth=""):
    """A dotted name in a query: the fields are those it names."""
    rec, o, attr = CHAINED[kind]
    query(sc)
    path = path or fields
    n = len(path)
    vals = {attr: None, "chain": None, "chainsz": 0, "parent": Q}
    if kind == "SENT":
        sc.list(Q + ".sntq", "!")
        vals.update(op="OPTYPE_EQUAL", fname=("qs", "x.fname", 0),
                    uname=("qs", "x.uname", 0))
    elif kind == "ORDER":
        sc.list(Q + ".ordq", "!")
        vals.update(op=["ORDTYPE_ASC", "ORDTYPE_DESC"])
    elif kind == "AGGR":
        sc.v(Q, aggr=o)
        vals.update(op=["AGGR_MAXROW", "AGGR_MINROW"])
    elif kind == "GROUPROW":
        sc.v(Q, group=o)
    else:
        sc.v(Q, dst=o)
    if kind != "DISTINCT":
        al = None
        if n > 1:
            al = cat(*[f or "?" for f in path[:-1]])
            if rank and n == 2:
                al = (al[0], al[1], rank)
        vals.update(name=al, alias=None)
    sc.o(o, rec, **vals)
    r = "C.priv.rq{%s}" % slot
    pre = "struct_%s__" % kind.lower()
    names = "C.names" + slot
    sc.v(r, type="RESOLVE_" + kind, **{
        pre + "result": o, pre + "names": names, pre + "namesz": n})
    for i, f in enumerate(path):
        sc.vals.append((names, "[%d]" % i, name(f, rank) if f else NOWHERE))
    if kind == "DISTINCT":
        sc.then(o, attr, ptr(fields[-1].rpartition(".")[0]) if False else
                lambda m, st: None)
    else:
        sc.then(o, attr, ptr(fields[-1]))
    sc.then(o, "chainsz", frozenset([n]))

    def links(m, st):
        c = m.get(st, o, "chain")
        if c is None or len(c) != 1 or list(c)[0] == 0:
            return "chain of %s is unknown" % o
        (c,) = c
        for i, f in enumerate(fields):
            g = st.f.get((c[1], "[%d]" % i)) if i or not c[2] else None
            if g is None and i == 0:
                g = st.f.get((c[1], c[2])) or st.f.get((c[1], ""))
            if g != ptr(f):
                return "step %d of %s is %s, not %s" % (i, o, show(g), f)
        return None
    sc.then(o, "chain", links)
    if kind != "DISTINCT" and n > 1:
        def alias(m, st):
            al = m.get(st, o, "alias")
            if al is None or len(al) != 1 or list(al)[0] == 0:
                return "alias of %s is %s" % (o, show(al))
            (al,) = al
            if al[1] not in m.added(st, S + ".aq"):
                return "alias of %s is not one of its structure" % o
            nm = st.f.get((al[1], "name"))
            want = cat(*fields[:-1])
            if nm is None or len(nm) != 1 or list(nm)[0][:2] != want[:2]:
                return "alias of %s is named %s, not %s" % (o, nm, want[1])
            return None
        sc.then(o, "alias", alias)
    return o


def nest(sc, depth, slots, null=()):
    """Structure fields that lead depth-1 structures down; returns them and
    the structure reached."""
    own, fs = S, []
    sc.list("C.sq", "<!>" + "tuv"[:depth - 1])
    for i in range(depth - 1):
        t = "C.sq{%s}" % "tuv"[i]
        f, src = ("!" if not i else "g"), "s"
        sc.list(own + ".fq", "<%s>^%s" % (f, src) if not i else
                (f + src) + "y")
        sc.list(t + ".fq", "<xy>" if i == depth - 2 else "<gsy>")
        structfield(sc, f, src, t, "y", owner=own, reqs=slots[2 * i:2 * i + 2],
                    null=i in null)
        fs.append(own + ".fq{%s}" % f)
        own = t
    return fs, own


def chains():
    out = []
    bad = {"SENT": ["STRUCT"], "ORDER": ["STRUCT"],
           "GROUPROW": ["STRUCT", "PASSWORD", "NULL"],
           "AGGR": ["STRUCT", "PASSWORD", "NULL"]}

    def mk(kind, what, expect, depth, typ="INT", fl=0, rank=0, last=False,
           null=(), miss=None, nostruct=None):
        sc = Sc("%s %s%s" % (kind.lower(), what,
                             ", before the fields" if last else ""), expect)
        slots = "abcdef"[:2 * (depth - 1)]
        sc.list("C.priv.rq", "<" + ("!" + slots if last else slots + "!") +
                "^")
        fs, own = nest(sc, depth, slots, null)
        x = own + (".fq{!}" if depth == 1 else ".fq{x}")
        if depth == 1:
            sc.list(S + ".fq", "<!>")
        if kind != "DISTINCT" or typ != "STRUCT":
            if typ != "STRUCT":
                sc.v(x, type="FTYPE_" + typ, flags=fl, ref=None)
        path = fs + [x]
        if typ == "STRUCT":
            # one more structure, the field of which is the last
            sc2 = slots + "pq"
            sc.list("C.priv.rq", "<" + ("!" + sc2 if last else sc2 + "!") +
                    "^")
            sc.list("C.sq", sc.shapes["C.sq"] + "w")
            structfield(sc, "!" if depth == 1 else "x",
                        "s" if depth == 1 else "r", "C.sq{w}", "y",
                        owner=own, reqs="pq", null="t" in null)
            if depth == 1:
                sc.list(own + ".fq", "<!>^s")
            else:
                sc.list(own + ".fq", "<xr>y")
            sc.list("C.sq{w}.fq", "<y>")
            sc.v("C.sq{w}", flags=0)
        asked = list(path)
        if miss is not None:
            asked[miss] = None
        if nostruct is not None:
            f = fs[nostruct]
            sc.v(f, type="FTYPE_INT", ref=f + ".ref")
        if kind == "GROUPROW":
            # needs a constraint: on another column
            ag = own + ".fq{%s}" % ("k" if depth > 1 else "k")
            sc.list(own + ".fq", sc.shapes[own + ".fq"] + "k")
            sc.v(ag, type="FTYPE_INT", flags=0, ref=None)
            chain(sc, "AGGR", fs + [ag], slot="k")
            sc.list("C.priv.rq", sc.shapes["C.priv.rq"].replace("!", "!k"))
            if expect == "bad":
                sc.post = []
        chain(sc, kind, path, rank, asked if miss is not None else None)
        if kind == "DISTINCT":
            sc.then(CHAINED[kind][1], "strct", ptr("C.sq{w}"))
        out.append(sc)

    for kind in CHAINED:
        end = "STRUCT" if kind == "DISTINCT" else "INT"
        for d in (1, 2, 3) if kind != "DISTINCT" else (1, 2):
            for last in (False, True):
                mk(kind, "over %d names" % d, "ok", d, end, last=last)
            if d < 3:
                mk(kind, "over %d names in another letter case" % d, "ok", d,
                   end, rank="c")
        for d in (1, 2):
            for i in range(d):
                mk(kind, "over %d names, number %d unknown" % (d, i + 1),
                   "bad", d, end, miss=i)
        mk(kind, "through a null reference", "bad", 2, end, null=(0,))
        mk(kind, "through a null reference in a nested structure", "bad", 3,
           end, null=(1,))
        mk(kind, "through a field that is no structure", "bad", 2, end,
           nostruct=0)
        if kind == "DISTINCT":
            mk(kind, "of a null structure", "bad", 1, end, null=("t",))
            mk(kind, "of a nested null structure", "bad", 2, end,
               null=("t",))
            for t in ("INT", "ENUM", "BLOB"):
                mk(kind, "of a field of type " + t, "bad", 1, t)
                mk(kind, "of a nested field of type " + t, "bad", 2, t)
            continue
        for t in TYPES:
            if t == end:
                continue
            for d in (1, 2):
                w = "of %s field of type %s" % (("a", "a nested")[d - 1], t)
                if t in bad[kind]:
                    mk(kind, w, "bad", d, t)
                else:
                    mk(kind, w, "ok", d, t)
        for d in (1, 2):
            mk(kind, "of %s null field" % ("a", "a nested")[d - 1],
               "bad" if "NULL" in bad[kind] else "ok", d,
               fl=flag("FIELD_NULL"))
    return out


OPS = """EQUAL GE GT LE LT NEQUAL LIKE AND OR STREQ STRNEQ ISNULL
NOTNULL""".split()
PWOPS = {"EQUAL", "NEQUAL", "STREQ", "STRNEQ", "ISNULL", "NOTNULL"}


def opsof(names):
    return ["OPTYPE_" + n for n in OPS if n in names]


def queries():
    """Operators against field types; grouping."""
    out = []

    def mk(what, expect, typ, ops, stype, dst=False, depth=1):
        sc = Sc("query term: %s" % what, expect)
        sc.list("C.priv.rq", "<!^")
        fs, x = [], S + ".fq{!}"
        if depth == 2:
            fs, own = nest(sc, 2, "ab")
            x = own + ".fq{x}"
            sc.list("C.priv.rq", "<ab!^")
        sc.v(x, type=ft(*typ), flags=[0, flag("FIELD_NULL")(prog0[0])],
             ref=None)
        o = chain(sc, "SENT", fs + [x])
        sc.v(o, op=opsof(ops))
        sc.v(Q, type=stype)
        if dst:
            sc.o(Q + ".dst", "dstnct", parent=Q, strct=S, chain=None,
                 chainsz=0, fname=("qs", "x.dot", 0))
            sc.v(Q, dst=Q + ".dst")
        out.append(sc)
    plain = [t for t in TYPES if t not in ("STRUCT", "PASSWORD")]
    every = ["STYPE_" + x for x in "COUNT SEARCH LIST ITERATE".split()]
    bits = ["BIT", "BITFIELD", "INT"]
    text = ["TEXT", "EMAIL"]
    anyop = set(OPS) - {"LIKE", "AND", "OR"}
    for d in (1, 2):
        n = " of a nested field" if d == 2 else ""
        mk("any operator" + n, "ok", plain, anyop, every, depth=d)
        mk("bit operator%s on bits" % n, "ok", bits, {"AND", "OR"}, every,
           depth=d)
        mk("bit operator%s on others" % n, "bad",
           [t for t in plain if t not in bits], {"AND", "OR"}, every, depth=d)
        mk("like%s on text" % n, "ok", text, {"LIKE"}, every, depth=d)
        mk("like%s on others" % n, "bad",
           [t for t in plain if t not in text], {"LIKE"}, every, depth=d)
        mk("operator%s on passwords" % n, "ok", ["PASSWORD"], PWOPS,
           every[1:], depth=d)
        mk("forbidden operator%s on passwords" % n, "bad", ["PASSWORD"],
           set(OPS) - PWOPS, every, depth=d)
        mk("count of passwords" + n, "ok", ["PASSWORD"],
           PWOPS - {"EQUAL", "NEQUAL"}, every[:1], depth=d)
        mk("count of passwords by value" + n, "bad", ["PASSWORD"],
           {"EQUAL", "NEQUAL"}, every[:1], depth=d)
        mk("distinct on passwords" + n, "ok", ["PASSWORD"],
           PWOPS - {"EQUAL", "NEQUAL"}, every, dst=True, depth=d)
        mk("distinct on passwords by value" + n, "bad", ["PASSWORD"],
           {"EQUAL", "NEQUAL"}, every, dst=True, depth=d)

    def group(what, expect, gpath, apath, has="ga"):
        sc = Sc("grouping: " + what, expect)
        fs, own = nest(sc, 2, "ab")
        sc.list("C.priv.rq", "<ab!k^")
        sc.list(own + ".fq", "<xky>")
        sc.list(S + ".fq", "<!>^s*wv")
        for o in (own + ".fq{x}", own + ".fq{k}", S + ".fq{w}",
                  S + ".fq{v}"):
            sc.v(o, type="FTYPE_INT", flags=0, ref=None)
        for n, kind, path, slot in (("g", "GROUPROW", gpath, "!"),
                                    ("a", "AGGR", apath, "k")):
            if n in has:
                c = path[-1]
                chain(sc, kind, (fs if path[0] == "t" else []) +
                      [(own if path[0] == "t" else S) + ".fq{%s}" % c],
                      slot=slot)
        if has == "g":
            sc.list("C.priv.rq", "<ab!^")
        out.append(sc)
    group("columns of one structure", "ok", "w", "v")
    group("columns of a nested structure", "ok", "tx", "tk")
    group("by the same column", "bad", "w", "w")
    group("by the same nested column", "bad", "tx", "tx")
    group("columns of different structures", "bad", "w", "tx")
    group("columns of different structures, nested first", "bad", "tx", "w")
    group("without a constraint", "bad", "w", "v", "g")
    return out


prog0 = [None]


def updates():
    out = []

    def mk(what, expect, kind, typ, ops, rank=0, known=True):
        sc = Sc("%s of an update: %s" % (kind, what), expect)
        up = sc.o(S + ".%s{!}" % "uq", "update", parent=S, rolemap=None,
                  name=None, flags=0, type=["UP_MODIFY", "UP_DELETE"])
        o = sc.o(up + ".%s{!}" % ("mrq" if kind == "modifier" else "crq"),
                 "uref", field=None, parent=up)
        sc.list(S + ".uq", "!").list(o[:-3], "!")
        if kind == "modifier":
            sc.v(o, mod=["MODTYPE_" + x for x in ops], op="OPTYPE_EQUAL")
        else:
            sc.v(o, op=opsof(ops), mod="MODTYPE_SET")
        sc.v(F, type=ft(*typ), flags=[0, flag("FIELD_NULL")(prog0[0])],
             ref=None)
        k = "UP_MODIFIER" if kind == "modifier" else "UP_CONSTRAINT"
        f = "struct_up_mod" if kind == "modifier" else "struct_up_const"
        req(sc, k, **{f + "__result": o,
                      f + "__name": name(F, rank) if known else NOWHERE})
        sc.then(o, "field", ptr(F))
        out.append(sc)
    plain = [t for t in TYPES if t not in ("STRUCT", "PASSWORD")]
    num = "BIT BITFIELD DATE ENUM EPOCH INT REAL".split()
    mk("set", "ok", "modifier", plain + ["PASSWORD"], ["SET", "STRSET"])
    mk("in another letter case", "ok", "modifier", plain, ["SET"], "c")
    mk("unknown", "bad", "modifier", plain, ["SET"], known=False)
    mk("concat", "ok", "modifier", ["BLOB", "TEXT", "EMAIL"], ["CONCAT"])
    mk("concat on others", "bad", "modifier", num + ["PASSWORD"], ["CONCAT"])
    mk("inc and dec", "ok", "modifier", num, ["INC", "DEC"])
    mk("inc and dec on others", "bad", "modifier",
       ["BLOB", "TEXT", "EMAIL", "PASSWORD"], ["INC", "DEC"])
    mk("of a structure", "bad", "modifier", ["STRUCT"],
       ["SET", "STRSET", "CONCAT", "INC", "DEC"])
    anyop = set(OPS) - {"LIKE", "AND", "OR"}
    mk("any operator", "ok", "constraint", plain, anyop)
    mk("in another letter case", "ok", "constraint", plain, ["EQUAL"], "c")
    mk("unknown", "bad", "constraint", plain, ["EQUAL"], known=False)
    mk("on a structure", "bad", "constraint", ["STRUCT"], OPS)
    bits = ["BIT", "BITFIELD", "INT"]
    mk("bit operators", "ok", "constraint", bits, ["AND", "OR"])
    mk("bit operators on others", "bad", "constraint",
       [t for t in plain + ["PASSWORD"] if t not in bits], ["AND", "OR"])
    mk("like", "ok", "constraint", ["TEXT", "EMAIL"], ["LIKE"])
    mk("like on others", "bad", "constraint",
       [t for t in plain + ["PASSWORD"] if t not in ("TEXT", "EMAIL")],
       ["LIKE"])
    mk("password hashes", "ok", "constraint", ["PASSWORD"],
       ["STREQ", "STRNEQ"])
    mk("passwords by value", "bad", "constraint", ["PASSWORD"],
       ["EQUAL", "NEQUAL", "GE", "GT", "LE", "LT"])
    return out


def uniques():
    out = []

    def mk(what, expect, stmts, types="INT", known=True, rank=0):
        """stmts: for each statement the fields it names."""
        sc = Sc("unique statement: " + what, expect)
        sc.list(S + ".fq", "xyz")
        for f in "xyz":
            sc.v(S + ".fq{%s}" % f, type=types if f == "y" and
                 isinstance(types, list) else "FTYPE_INT", flags=0, ref=None,
                 name=("s", f))
        ids = "abcdef"
        sc.list(S + ".nq", ids[:len(stmts)])
        slots, n = "", 0
        for i, fs in enumerate(stmts):
            u = sc.o(S + ".nq{%s}" % ids[i], "unique", parent=S)
            sc.list(u + ".nq", "pqr"[:len(fs)])
            for j, f in enumerate(fs):
                k = "pqr"[j]
                r = sc.o(u + ".nq{%s}" % k, "nref", parent=u, field=None)
                slot = "ABCDEFGHI"[n]
                n += 1
                slots += slot
                sc.v("C.priv.rq{%s}" % slot, type="RESOLVE_UNIQUE",
                     struct_unique__result=r, struct_unique__name=(
                         "s", f.upper() if rank else f) if f != "?" else
                     NOWHERE)
                sc.then(r, "field", ptr(S + ".fq{%s}" % f))

                def kept(m, st, r=r):
                    l = m.listing(st, r[:-3])
                    if l is None or r not in l:
                        return "%s is lost" % r
                sc.then(r, "entries", kept)
        sc.list("C.priv.rq", "<" + slots + "^")
        out.append(sc)
    mk("two fields", "ok", ["xy"])
    mk("two fields in another letter case", "ok", ["xy"], rank="c")
    mk("three fields", "ok", ["zxy"])
    mk("of any types", "ok", ["xy"], but("STRUCT"))
    mk("of a structure", "bad", ["xy"], ft("STRUCT"))
    mk("unknown field", "bad", ["x?"])
    mk("one field twice", "bad", ["xx"])
    mk("one field twice, not in a row", "bad", ["xyx"])
    mk("sharing one field", "ok", ["xy", "xz"])
    mk("one part of the other", "ok", ["xy", "xyz"])
    mk("one part of the other, larger first", "ok", ["xyz", "zy"])
    mk("all pairs of three fields", "ok", ["xy", "yz", "zx"])
    for w, st in (("same", ["xy", "xy"]), ("same, reordered", ["xy", "yx"]),
                  ("third like the first", ["xy", "xz", "yx"]),
                  ("third like the second", ["xy", "xz", "zx"]),
                  ("second like the first", ["xy", "yx", "xz"]),
                  ("same three fields, reordered", ["xyz", "zxy"])):
        mk(w, "bad", st)
    return out


def roles():
    out = []

    class RS(Sc):
        def __init__(self, what, expect):
            super().__init__("roles: " + what, expect)
            self.list("C.arq", "<rst>").list("C.rq", "*")
            for r in "rst":
                self.o("C.arq{%s}" % r, "role", parent=None)
            self.list(S + ".rq", "")
            self.v(F, type=but("STRUCT"), ref=None)
            self.slots = ""
            self.v("~.*\\.[sud]q\\{[<>]\\}", group=None, aggr=None,
                   dst=None, rolemap=None, type=[
                       "STYPE_" + x for x in
                       "COUNT SEARCH LIST ITERATE".split()])

        def slot(self):
            n = "ABCDEFGHIJKLMNOP"[len(self.slots)]
            self.slots += n
            self.list("C.priv.rq", "<" + self.slots + "^")
            return "C.priv.rq{%s}" % n

        def map(self, m, typ, rs, nm=None, rank=0):
            """A role map with its roles."""
            o = self.o(S + ".rq{%s}" % m, "rolemap", parent=S, type=typ,
                       s=None, u=None, f=None)
            self.list(S + ".rq", self.shapes[S + ".rq"] + m)
            self.list(o + ".rq", "ijk"[:len(rs)])
            for i, r in zip("ijk", rs):
                x = self.o(o + ".rq{%s}" % i, "rref", parent=o, role=None)
                self.v(self.slot(), type="RESOLVE_ROLE",
                       struct_role__result=x, struct_role__name=name(
                           "C.arq{%s}" % r, rank) if r != "?" else NOWHERE)
                self.then(x, "role", ptr("C.arq{%s}" % r))
            self.v(self.slot(), type="RESOLVE_ROLEMAP",
                   struct_rolemap__result=o, struct_rolemap__type=typ,
                   struct_rolemap__name=nm)
            return o

        def op(self, kind, names, **kw):
            lst, rec = {"search": ("sq", "search"), "update": (
                "uq", "update"), "delete": ("dq", "update")}[kind]
            l = S + "." + lst
            self.list(l, names)
            o = []
            for n in re.sub("[<>]", "", names):
                x = self.o(l + ".{%s}".replace(".{", "{") % n, rec, parent=S,
                           rolemap=None, flags=0, **kw)
                if rec == "search":
                    self.v(x, limit=0, offset=0, group=None, aggr=None,
                           dst=None)
                o.append(x)
            return o

        def holds(self, o, path, rs):
            """The roles that apply to an operation or field."""
            want = frozenset("C.arq{%s}" % r for r in rs)

            def f(m, st):
                got = m.get(st, o, path)
                if got == ZERO:
                    got = frozenset()
                else:
                    if got is None or len(got) != 1:
                        return "roles of %s are unknown" % o
                    got = rolesin(m, st, list(got)[0][1])
                if got is None or got != want:
                    return "roles of %s are {%s}, not {%s}" % (
                        o, "unknown" if got is None else
                        ", ".join(sorted(got)), ", ".join(sorted(want)))
            return self.then(o, path, f)

    def rolesin(m, st, mp):
        out = set()
        for e in ["%s.rq{%s}" % (mp, i) for i in m.shapes.get(
                mp + ".rq", "")] + m.added(st, mp + ".rq"):
            r = m.get(st, e, "role") if not e.startswith("N:") else \
                st.f.get((e, "role"))
            if r is None or len(r) != 1 or list(r)[0] == 0:
                return None
            out.add(list(r)[0][1])
        return frozenset(out)

    nm = ("qs", S + ".op.name", 0)
    sts = {"ROLEMAP_" + x: "STYPE_" + x for x in
           "COUNT SEARCH LIST ITERATE".split()}
    for t, sty in sts.items():
        for w, rank, ex, ty in (
                ("", 0, "ok", sty), (" in another letter case", "c", "ok",
                                     sty),
                (" of another kind", 0, "bad", [x for x in sts.values()
                                                if x != sty]),
                (" that is unknown", None, "bad", sty)):
            sc = RS(t.split("_")[1].lower() + w, ex)
            (o,) = sc.op("search", "<!>", type=ty)
            mp = sc.map("m", t, "r", NOWHERE if rank is None else
                        name(o, rank), rank or 0)
            sc.v(o, name=name(o))
            sc.then(o, "rolemap", ptr(mp)).then(mp, "s", ptr(o))
            sc.holds(o, "rolemap", "r")
            out.append(sc)
    for t, k in (("ROLEMAP_UPDATE", "update"), ("ROLEMAP_DELETE", "delete")):
        for w, rank, ex in (("", 0, "ok"), (" in another letter case", "c",
                                            "ok"),
                            (" that is unknown", None, "bad")):
            sc = RS(k + w, ex)
            (o,) = sc.op(k, "<!>", type="UP_MODIFY" if k == "update" else
                         "UP_DELETE")
            # one of the other kind with the same name
            (o2,) = sc.op("delete" if k == "update" else "update", "!",
                          type="UP_DELETE" if k == "update" else "UP_MODIFY")
            sc.v(o, name=name(o)).v(o2, name=name(o))
            mp = sc.map("m", t, "rs", NOWHERE if rank is None else
                        name(o, rank))
            sc.then(o, "rolemap", ptr(mp)).then(mp, "u", ptr(o))
            sc.then(o2, "rolemap", ZERO)
            sc.holds(o, "rolemap", "rs")
            out.append(sc)
            if rank is None:
                # the name is that of the other kind only
                sc = RS("%s naming one of the other kind" % k, "bad")
                (o2,) = sc.op("delete" if k == "update" else "update", "!",
                              type="UP_DELETE" if k == "update" else
                              "UP_MODIFY")
                sc.v(o2, name=name(o2))
                sc.map("m", t, "r", name(o2))
                out.append(sc)
    for w, ins in (("", True), (" without an insert statement", False)):
        sc = RS("insert" + w, "ok" if ins else "bad")
        if ins:
            sc.o(S + ".ins", "insert", rolemap=None, parent=S)
        sc.v(S, ins=S + ".ins" if ins else None, arolemap=None)
        mp = sc.map("m", "ROLEMAP_INSERT", "rs")
        sc.then(S + ".ins", "rolemap", ptr(mp))
        out.append(sc)
    sc = RS("unknown role", "bad")
    sc.o(S + ".ins", "insert", rolemap=None, parent=S)
    sc.v(S, ins=S + ".ins", arolemap=None)
    sc.map("m", "ROLEMAP_INSERT", "r?")
    out.append(sc)
    for rs in ("rr", "rsr", "srr"):
        sc = RS("a role given twice (%s)" % rs, "bad")
        sc.o(S + ".ins", "insert", rolemap=None, parent=S)
        sc.v(S, ins=S + ".ins", arolemap=None)
        sc.map("m", "ROLEMAP_INSERT", rs)
        out.append(sc)

    # "all" applies to every operation
    for own, rs, allrs in ((None, "", "rs"), ("first", "r", "rs"),
                           ("last", "r", "rs"), ("first", "t", "rs"),
                           ("last", "st", "rs"), ("last", "rs", "rst")):
        for k in ("search", "update", "delete", "insert"):
            sc = RS("all, on %s%s" % (k, " with roles %s of its own %s" % (
                rs, own) if own else ""), "ok")
            if k == "insert":
                o = sc.o(S + ".ins", "insert", rolemap=None, parent=S)
                sc.v(S, ins=o)
            else:
                (o,) = sc.op(k, "!", type={
                    "search": list(sts.values()) if not own else
                    "STYPE_LIST", "update": "UP_MODIFY",
                    "delete": "UP_DELETE"}[k])
                sc.v(o, name=name(o) if own else None)
                sc.v(S, ins=None)
            sc.v(S, arolemap=None)
            t = {"search": "ROLEMAP_LIST", "update": "ROLEMAP_UPDATE",
                 "delete": "ROLEMAP_DELETE", "insert": "ROLEMAP_INSERT"}[k]
            if own == "first":
                sc.map("m", t, rs, None if k == "insert" else name(o))
            am = sc.map("a", "ROLEMAP_ALL", allrs)
            if own == "last":
                sc.map("m", t, rs, None if k == "insert" else name(o))
            sc.then(S, "arolemap", ptr(am))
            sc.holds(o, "rolemap", set(rs) | set(allrs))
            sc.v("~" + re.escape(S) + "\\.fq\\{.\\}", rolemap=None)
            out.append(sc)

    # noexport
    for w, maps, x, y in (
            ("of one field", [("x", "rs")], "rs", ""),
            ("of all fields", [(None, "r")], "r", "r"),
            ("of two fields", [("x", "r"), ("y", "s")], "r", "s"),
            ("of one field, then all", [("x", "r"), (None, "s")], "rs", "s"),
            ("of all fields, then one", [(None, "r"), ("x", "s")], "rs",
             "r"),
            ("of all fields, then two", [(None, "r"), ("x", "s"),
                                         ("y", "t")], "rs", "rt"),
            ("of one field, all, and another", [
                ("x", "s"), (None, "r"), ("y", "t")], "rs", "rt"),
            ("of one field, then all with a role it has", [
                ("x", "r"), (None, "rst")], "rst", "rst"),
            ("of one field, then all with a role it has last", [
                ("x", "r"), (None, "str")], "rst", "rst"),
            ("of all fields, then one with a role it has", [
                (None, "rs"), ("x", "rt")], "rst", "rs")):
        sc = RS("noexport " + w, "ok")
        sc.list(S + ".fq", "xy")
        for f in "xy":
            sc.v(S + ".fq{%s}" % f, type="FTYPE_INT", flags=0, ref=None,
                 rolemap=None)
        for i, (f, rs) in enumerate(maps):
            sc.map("mno"[i], "ROLEMAP_NOEXPORT", rs,
                   f and name(S + ".fq{%s}" % f))
        sc.holds(S + ".fq{x}", "rolemap", x)
        sc.holds(S + ".fq{y}", "rolemap", y)
        out.append(sc)
    sc = RS("noexport of an unknown field", "bad")
    sc.map("m", "ROLEMAP_NOEXPORT", "r", NOWHERE)
    out.append(sc)
    return out


def trees():
    """Structures within structures."""
    out = []

    def mk(what, expect, edges, order, null=(), once=False):
        """edges: (outer, inner) pairs; null: edges by a null reference."""
        sc = Sc("nested structures: %s, given as %s" % (what, order), expect)
        sc.shapes = {"C.sq": order}
        slots = ""
        fields = {s: "k" for s in order}
        for i, (a, b) in enumerate(edges):
            fields[a] += "ABCDE"[i] + "abcde"[i]
        for a in order:
            sc.list("C.sq{%s}.fq" % a, fields[a])
            sc.v("C.sq{%s}" % a, flags=0, height=0, colour=0,
                 name=("s", a))
        for i, (a, b) in enumerate(edges):
            sc.v("C.sq{%s}.fq{k}" % b, type="FTYPE_INT",
                 flags=flag("FIELD_ROWID"), ref=None)
            rq = "0123456789"[2 * i:2 * i + 2]
            slots += rq
            structfield(sc, "ABCDE"[i], "abcde"[i], "C.sq{%s}" % b, "k",
                        owner="C.sq{%s}" % a, reqs=rq, null=(a, b) in null)
            for w in ("tstrct",):
                r = "C.priv.rq{%s}" % rq[0]
                sc.v(r, field_foreign__tstrct=("s", b))
        for a in order:
            sc.v("C.sq{%s}.fq{k}" % a, type="FTYPE_INT",
                 flags=flag("FIELD_ROWID"), ref=None)
        sc.list("C.priv.rq", slots)

        def ordered(m, st):
            l = m.listing(st, "C.sq")
            if l is None or sorted(l) != sorted(
                    "C.sq{%s}" % a for a in order):
                return "the structures afterwards are %s" % l
            for a, b in edges:
                if l.index("C.sq{%s}" % a) < l.index("C.sq{%s}" % b):
                    return "structure %s comes before %s, which it " \
                        "contains" % (a, b)
        sc.then("C", "sq", ordered)

        def nul(a):
            return any(x == a and ((x, y) in null or nul(y))
                       for x, y in edges)
        for a in order:
            def nrefs(m, st, a=a):
                v = m.get(st, "C.sq{%s}" % a, "flags")
                bit = prog0[0].macro("STRCT_HAS_NULLREFS")
                if v is None or any(not isinstance(x, int) or
                                    bool(x & bit) != bool(nul(a))
                                    for x in v):
                    return "null references of structure %s are %s" % (
                        a, "missed" if nul(a) else "claimed")
            if expect == "ok":
                sc.then("C.sq{%s}" % a, "flags", nrefs)
        out.append(sc)
    import itertools
    for o in itertools.permutations("ab"):
        o = "".join(o)
        mk("a>b", "ok", ["ab"], o)
        mk("a>b, null", "ok", ["ab"], o, null=[("a", "b")])
        mk("a>b>a", "bad", ["ab", "ba"], o)
    mk("a>a", "bad", ["aa"], "a")
    for o in itertools.permutations("abc"):
        o = "".join(o)
        mk("c>b>a", "ok", ["cb", "ba"], o)
        mk("a>b>c", "ok", ["ab", "bc"], o)
        mk("a>b>c, a>c", "ok", ["ab", "bc", "ac"], o)
        mk("a>c, a>b>c", "ok", ["ac", "ab", "bc"], o)
        mk("a>b, a>c>b", "ok", ["ab", "ac", "cb"], o)
        mk("a>b>c, null last", "ok", ["ab", "bc"], o, null=[("b", "c")])
        mk("a>b>c>a", "bad", ["ab", "bc", "ca"], o)
        mk("a>b>c>b", "bad", ["ab", "bc", "cb"], o)
    for o in ("abcd", "dcba", "bdac", "cadb"):
        mk("a>b>d, a>c>d", "ok", ["ab", "ac", "bd", "cd"], o)
        mk("a>d, b>c>d, a>b", "ok", ["ad", "bc", "cd", "ab"], o)
        mk("a>b>c>d, a>d", "ok", ["ad", "ab", "bc", "cd"], o)
    return out


def judge(sc, alone, res):
    bad = []
    acc = 0
    for st, v in res:
        ok = v is not None and 0 not in v
        no = v is not None and v == ZERO
        if not ok and not no:
            bad.append("the result of ort_parse_close() is unknown")
        if no and alone and sc.expect == "ok":
            bad.append("refused, although the documentation allows it")
        if not no:
            acc += 1
            if sc.expect == "bad":
                bad.append("accepted")
                continue
            for o, path, want in sc.post:
                got = sc.model.get(st, o, path)
                if callable(want):
                    t = want(sc.model, st)
                    if t:
                        bad.append(t)
                elif got != want:
                    bad.append("%s of %s is %s, not %s" % (
                        path, o, show(got), show(want)))
    if sc.expect == "ok" and not acc:
        bad.append("no such configuration is accepted")
    return sorted(set(bad))


def show(v):
    if v is None or v is NotImplemented:
        return "unknown"
    return " or ".join(a[1] if isinstance(a, tuple) and a[0] == "p" else
                       str(a) for a in v)


def body(c):
    prog = front.load()
    if prog.func("ort_parse_close") is None:
        raise Fatal("ort_parse_close is gone")
    prog0[0] = prog
    scens = foreign() + lookups() + chains() + queries() + updates() + \
        uniques() + roles() + trees()
    pick = os.environ.get("P11")
    if pick:
        scens = [s for s in scens if pick in s.what]
    jobs = [(s, a) for s in scens for a in
            ((True, False) if s.expect == "ok" else (False,))]

    def one(job):
        import time
        t = time.time()
        sc, alone = job
        m = sc.model = sc.build(prog, alone)
        res = m.link()
        return (sc.what, sc.expect, alone, judge(sc, alone, res), len(res),
                sorted(m.ai.funcs_analysed), time.time() - t)

    funcs, slow, nres = set(), [], 0
    for what, ex, alone, bad, n, fs, t in pmap(one, jobs):
        funcs |= set(fs)
        nres += n
        slow.append((t, what))
        c.obligation(not bad, sample={"scenario": what, "outcomes": n})
        for b in bad:
            c.violate("link|%s|%s" % (what, b),
                      "ort_parse_close(), %s: %s" % (what, b))
    if os.environ.get("P11T"):
        for t, w in sorted(slow)[-12:]:
            print("%.1f %s" % (t, w))
    if not pick:
        c.floor("scenarios", len(scens), 15)
    c.cov["outcomes"] = nres
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "on every path of ort_parse_close over a family of configurations, "
        "what the documentation allows is linked as documented and what it "
        "forbids is refused",
        "Abstract interpretation of the linker over families of parsed "
        "configurations with pinned names, types and flags.")


if __name__ == "__main__":
    main("P11", body)
