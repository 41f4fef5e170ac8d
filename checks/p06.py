"""P06: the comparison of two configurations is complete and exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from world import *
from par import pmap


class Diff(World):
    limit = 400
    maxrets = 1000
    maxinc = 4

    def __init__(self, prog, sc):
        super().__init__(prog)
        self.sc = sc
        self.shapes.update(sc.shapes)
        self.vals.update(sc.vals)
        self.shared = sc.shared
        self.kinds = {v: n for n, v in prog.enums["difftype"]}
        self.aborts = set()
        self.records = set()
        self.want = set(sc.need) | set(sc.never)

    def merge(self, keep, f):
        """What the caller knew about a record ends where a callee starts a
        new one in its place."""
        live = [k[0] for k in f if k[1] == "@live"]
        if not live:
            return dict(keep)
        return {k: v for k, v in keep.items() if k[0] not in live}

    def pruned(self, st):
        """Forget records no variable refers to any more."""
        al = {k[0] for k in st.f if k[0].startswith("alloc:")}
        if not al:
            return st
        for k, v in st.f.items():
            if k[0].startswith("v:"):
                for a in v:
                    if isinstance(a, tuple) and a[0] == "p":
                        al.discard(a[1])
        if not al:
            return st
        return State({k: v for k, v in st.f.items() if k[0] not in al},
                     st.tags)

    def track(self, o, path, ty):
        return o.startswith("alloc:") and \
            not path.startswith(("tqh_", "entries"))

    def call(self, ai, fn, name, e, args, st):
        if name in ("calloc", "malloc", "reallocarray"):
            n = "alloc:%d" % e.id
            f = {k: v for k, v in st.f.items() if k[0] != n}
            f[(n, "@live")] = ONE
            return [(State(f, st.tags), frozenset([("p", n, "")]))]
        if name == "abort":
            self.aborts.add((ai.cur.file, ai.cur.name, e.line))
            return []
        if name == "free":
            return [(st, None)]
        return super().call(ai, fn, name, e, args, st)

    def store(self, ai, loc, val, e, st):
        """A record is complete once it is queued, has a kind and says what
        it is about."""
        al = None
        isvar = loc is not None and loc[0].startswith("v:")
        if val is not None and not isvar and not isinstance(val, tuple):
            for a in val:
                if isinstance(a, tuple) and a[0] == "p" and \
                        a[1].startswith("alloc:") and a[2] == "":
                    al = a[1]
                    st = st.set((al, "@queued"), ONE)
        if al is None and loc is not None and self.track(*loc, "") and \
                val is not None and not isinstance(val, tuple):
            al = loc[0]
            st = st.set(loc, val)
        if al is None:
            return st
        kind, queued, about = None, False, []
        for (o, p), v in st.f.items():
            if o != al:
                continue
            if p == "type" and len(v) == 1:
                kind = self.kinds.get(list(v)[0])
            elif p == "@queued":
                queued = True
            elif len(v) == 1:
                (a,) = v
                if isinstance(a, tuple) and a[0] == "p":
                    about.append((p.lstrip("."), a[1]))
        if kind and queued and about:
            about.sort()
            if len(about) == 1 and about[0][0].endswith((".from", ".into")):
                return st
            t = ("rec", kind, tuple(about))
            self.records.add(t)
            if t in self.want or self.sc.exact and \
                    not kind.startswith("DIFF_SAME"):
                st = st.tag(t)
        return st


class Sc:
    """One scenario: how the two configurations are related, and what the
    result must say."""
    def __init__(self, name):
        self.name = name
        self.shapes = {}
        self.vals = {}
        self.shared = False
        self.need = []
        self.never = []
        self.noabort = False
        self.exact = False

    def same(self, o, *attrs):
        for a in attrs:
            self.vals[(o, a)] = frozenset([("qs", o + "." + a, 0)])
        return self

    def strdiff(self, o, a, rf=0, ri=1):
        for s, r in (("F:", rf), ("I:", ri)):
            self.vals[(s + o, a)] = ZERO if r is None else \
                frozenset([("qs", o + "." + a, r)])
        return self

    def numdiff(self, o, a, rf=0, ri=1):
        for s, r in (("F:", rf), ("I:", ri)):
            self.vals[(s + o, a)] = frozenset([("qn", o + "." + a, r)])
        return self

    def val(self, o, a, vf, vi=None):
        vi = vf if vi is None else vi
        for s, v in (("F:", vf), ("I:", vi)):
            self.vals[(s + o, a)] = v if isinstance(v, frozenset) else \
                frozenset([v])
        return self

    def ptr(self, o, a, f=True, i=True):
        for s, x in (("F:", f), ("I:", i)):
            self.vals[(s + o, a)] = frozenset(
                [("p", s + o + "." + a, "") if x else 0])
        return self

    def focus(self, *lists):
        for l in lists:
            self.shapes[l] = "<!>"
        return self

    def only(self, l, side):
        """The focus element exists on one side only."""
        self.shapes[side + l] = "<!>"
        self.shapes[("I:" if side == "F:" else "F:") + l] = "<>"
        return self

    def lst(self, l, f, i=None):
        self.shapes["F:" + l] = f
        self.shapes["I:" + l] = f if i is None else i
        return self

    def needpair(self, kind, member, o):
        self.need.append(("rec", kind, ((member + ".from", "F:" + o),
                                        (member + ".into", "I:" + o))))
        return self

    def neverpair(self, kind, member, o):
        self.never.append(("rec", kind, ((member + ".from", "F:" + o),
                                         (member + ".into", "I:" + o))))
        return self

    def needone(self, kind, member, o):
        self.need.append(("rec", kind, ((member, o),)))
        return self


def scenarios(prog):
    S = []
    E = lambda n: [v for k, v in prog.enums[n] if not k.endswith("__MAX")]
    en = {k: v for n in prog.enums for k, v in prog.enums[n]}

    def add(s):
        S.append(s)
        return s

    def docs(mk, o):
        """Variants of a differing comment."""
        for tag, rf, ri in (("changed", 0, 1), ("letter case", 0, "c"),
                            ("added", None, 0), ("removed", 0, None)):
            s = mk("comment " + tag)
            s.strdiff(o, "doc", rf, ri)

    def nums(mk, o, a, what):
        for tag, rf, ri in (("up", 0, 1), ("down", 1, 0)):
            mk(what + " " + tag).numdiff(o, a, rf, ri)

    def rmap(mk, o, attr="rolemap"):
        r = o + "." + attr
        mk("rolemap added").ptr(o, attr, False, True)
        mk("rolemap removed").ptr(o, attr, True, False)
        for tag, f, i in (("role added", "a", "ab"),
                          ("role added first", "a", "ba"),
                          ("role removed", "ab", "a"),
                          ("role removed first", "ba", "a"),
                          ("role replaced", "a", "b"),
                          ("role replaced among others", "ab", "ac"),
                          ("first role replaced", "ab", "cb")):
            mk("rolemap " + tag).ptr(o, attr).lst(r + ".rq", f, i)

    def labels(mk, lst):
        for tag, f, i in (("added", "", "a"), ("removed", "a", ""),
                          ("second added", "a", "ab"),
                          ("first removed", "ba", "a"),
                          ("language changed", "a", "b"),
                          ("one language changed", "ab", "ac")):
            labvals(mk("label " + tag).lst(lst, f, i), lst)
        for tag, rf, ri in (("text", 0, 1), ("text's letter case", 0, "c")):
            for f in ("a", "ab", "ba"):
                labvals(mk("label %s changed in %s" % (tag, f)).lst(lst, f),
                        lst).strdiff(lst + "{a}", "label", rf, ri)

    def labvals(s, lst):
        for c in "abc":
            o = lst + "{%s}" % c
            s.vals.setdefault((o, "label"),
                              frozenset([("qs", o + ".label", 0)]))
        return s

    # ------------------------------------------- enumerations and bitfields
    for (lst, it, Kind, Item, mem, imem, nulls) in (
            ("C.eq", "eq", "ENM", "EITEM", "enm", "eitem",
             ("labels_null",)),
            ("C.bq", "bq", "BITF", "BITIDX", "bitf", "bitidx",
             ("labels_unset", "labels_null"))):
        o = lst + "{!}"
        io = o + "." + it + "{!}"

        def top(kind=None):
            def mk(nm):
                s = add(Sc("%s: %s" % (mem, nm)))
                s.focus(lst)
                s.needpair("DIFF_MOD_" + Kind, mem + "_pair", o)
                s.neverpair("DIFF_SAME_" + Kind, mem + "_pair", o)
                if kind:
                    s.needpair(kind, mem + "_pair", o)
                return s
            return mk

        def item(kind):
            def mk(nm):
                s = top()("%s %s" % (imem, nm))
                s.focus(o + "." + it)
                s.needpair("DIFF_MOD_" + Item, imem + "_pair", io)
                s.neverpair("DIFF_SAME_" + Item, imem + "_pair", io)
                s.needpair(kind, imem + "_pair", io)
                return s
            return mk

        add(Sc(mem + ": added").only(lst, "I:")).needone(
            "DIFF_ADD_" + Kind, mem, "I:" + o)
        add(Sc(mem + ": removed").only(lst, "F:")).needone(
            "DIFF_DEL_" + Kind, mem, "F:" + o)
        top()(imem + " added").only(o + "." + it, "I:").needone(
            "DIFF_ADD_" + Item, imem, "I:" + io)
        top()(imem + " removed").only(o + "." + it, "F:").needone(
            "DIFF_DEL_" + Item, imem, "F:" + io)
        docs(top("DIFF_MOD_%s_COMMENT" % Kind), o)
        for n in nulls:
            labels(top("DIFF_MOD_%s_LABELS" % Kind), o + "." + n)
        docs(item("DIFF_MOD_%s_COMMENT" % Item), io)
        nums(item("DIFF_MOD_%s_VALUE" % Item), io, "value", "value")
        labels(item("DIFF_MOD_%s_LABELS" % Item), io + ".labels")

    # ---------------------------------------------------------- structures
    o = "C.sq{!}"

    def strct(kind=None):
        def mk(nm):
            s = add(Sc("strct: " + nm)).focus("C.sq")
            s.needpair("DIFF_MOD_STRCT", "strct_pair", o)
            s.neverpair("DIFF_SAME_STRCT", "strct_pair", o)
            if kind:
                s.needpair(kind, "strct_pair", o)
            return s
        return mk

    add(Sc("strct: added").only("C.sq", "I:")).needone(
        "DIFF_ADD_STRCT", "strct", "I:" + o)
    add(Sc("strct: removed").only("C.sq", "F:")).needone(
        "DIFF_DEL_STRCT", "strct", "F:" + o)
    docs(strct("DIFF_MOD_STRCT_COMMENT"), o)

    # inserts
    strct()("insert added").ptr(o, "ins", False, True).needone(
        "DIFF_ADD_INSERT", "strct", "I:" + o)
    strct()("insert removed").ptr(o, "ins", True, False).needone(
        "DIFF_DEL_INSERT", "strct", "F:" + o)

    def ins(kind):
        def mk(nm):
            s = strct(kind)("insert " + nm).ptr(o, "ins")
            s.needpair("DIFF_MOD_INSERT", "strct_pair", o)
            s.neverpair("DIFF_SAME_INSERT", "strct_pair", o)
            return s
        return mk

    rmap(ins("DIFF_MOD_INSERT_ROLEMAP"), o + ".ins")
    for f, i in (("ab", "ba"), ("a", "ab"), ("ab", "a"), ("ab", "ac"),
                 ("ab", "b"), ("abc", "acb")):
        ins("DIFF_MOD_INSERT_PARAMS")("field order %s to %s" % (f, i)).lst(
            o + ".fq", f, i)

    # unique statements: by the set of their fields
    for tag, f, i in (("added", "<>", "<!>"), ("removed", "<!>", "<>")):
        pass
    U = o + ".nq"
    for tag, lists in (
            ("fewer fields than another", {"a": "xyz", "!": "xy"}),
            ("more fields than another", {"a": "xy", "!": "xyz"}),
            ("one field differs", {"a": "xy", "!": "xz"}),
            ("first field differs", {"a": "yz", "!": "xz"}),
            ("no field in common", {"a": "xy", "!": "zw"}),
            ("no others", {"!": "xy"})):
        oth = "".join(k for k in lists if k != "!")
        for pre in ((oth + "!", "!" + oth) if oth else ("!",)):
            for side, K, verb in (("I:", "DIFF_ADD_UNIQUE", "added"),
                                  ("F:", "DIFF_DEL_UNIQUE", "removed")):
                s = strct()("unique %s (%s, %s)" % (verb, tag, pre))
                s.shapes[side + U] = pre
                s.shapes[("F:" if side == "I:" else "I:") + U] = oth
                uniq(s, U, lists)
                s.needone(K, "unique", side + U + "{!}")

    # fields
    fo = o + ".fq{!}"

    def field(kind=None, ty=None):
        def mk(nm):
            s = strct()("field " + nm).focus(o + ".fq")
            s.needpair("DIFF_MOD_FIELD", "field_pair", fo)
            s.neverpair("DIFF_SAME_FIELD", "field_pair", fo)
            if kind:
                s.needpair(kind, "field_pair", fo)
            if ty is not None:
                s.val(fo, "type", ty)
            return s
        return mk

    strct()("field added").only(o + ".fq", "I:").needone(
        "DIFF_ADD_FIELD", "field", "I:" + fo)
    strct()("field removed").only(o + ".fq", "F:").needone(
        "DIFF_DEL_FIELD", "field", "F:" + fo)
    docs(field("DIFF_MOD_FIELD_COMMENT"), fo)
    rmap(field("DIFF_MOD_FIELD_ROLEMAP"), fo)
    T = E("ftype")
    for k in range(len(T)):
        a, b = T[k], T[(k + 1) % len(T)]
        field("DIFF_MOD_FIELD_TYPE")("type %d to %d" % (a, b)).val(
            fo, "type", a, b)
        field("DIFF_MOD_FIELD_TYPE")("type %d to %d" % (b, a)).val(
            fo, "type", b, a)
    for a in ("actdel", "actup"):
        A = E("upact")
        for k in range(len(A)):
            field("DIFF_MOD_FIELD_ACTIONS")(
                "%s %d" % (a, k)).val(fo, a, A[k], A[(k + 1) % len(A)])
    # flags: every bit on its own
    nums(field("DIFF_MOD_FIELD_FLAGS"), fo, "flags", "flags")
    for bit in (1, 2, 4, 8, 16):
        for f, i in ((0, bit), (bit, 0), (bit, 31), (31, bit)):
            if f != i:
                field("DIFF_MOD_FIELD_FLAGS")("flags %#x to %#x" % (f, i)) \
                    .val(fo, "flags", f, i)
    for a, K, t in (("bitf", "DIFF_MOD_FIELD_BITF", en["FTYPE_BITFIELD"]),
                    ("enm", "DIFF_MOD_FIELD_ENM", en["FTYPE_ENUM"])):
        field(K, t)("%s changed" % a).ptr(fo, a).strdiff(
            fo + "." + a, "name")
    for t in ("BIT", "BITFIELD", "DATE", "EPOCH", "INT", "REAL"):
        mem = "def.decimal" if t == "REAL" else "def.integer"
        nums(lambda nm: field("DIFF_MOD_FIELD_DEF", en["FTYPE_" + t])(nm)
             .val(fo, "flags", 16), fo, mem, "default of " + t)
    for t in ("EMAIL", "TEXT"):
        for r in (1, "c"):
            field("DIFF_MOD_FIELD_DEF", en["FTYPE_" + t])(
                "default of %s (%s)" % (t, r)).val(fo, "flags", 16).strdiff(
                fo, "def.string", 0, r)
    field("DIFF_MOD_FIELD_DEF", en["FTYPE_ENUM"])("default item").val(
        fo, "flags", 16).strdiff(fo + ".def.eitem", "name")
    field("DIFF_MOD_FIELD_DEF", en["FTYPE_ENUM"])("default item's enum").val(
        fo, "flags", 16).strdiff(fo + ".def.eitem.parent", "name").strdiff(
        fo + ".def.eitem", "name", 0, 0)
    K = "DIFF_MOD_FIELD_REFERENCE"
    field(K)("ref added").ptr(fo, "ref", False, True)
    field(K)("ref removed").ptr(fo, "ref", True, False)
    for a in ("source", "target.parent", "target"):
        field(K)("ref %s" % a).ptr(fo, "ref").ptr(
            fo + ".ref.target", "parent").strdiff(fo + ".ref." + a, "name")
    # limits
    K = "DIFF_MOD_FIELD_VALIDS"
    for tn in ("BIT", "BITFIELD", "DATE", "EPOCH", "INT", "REAL", "BLOB",
               "EMAIL", "TEXT", "PASSWORD"):
        t = en["FTYPE_" + tn]
        v = {"REAL": "d.value.decimal", "BLOB": "d.value.len",
             "EMAIL": "d.value.len", "TEXT": "d.value.len",
             "PASSWORD": "d.value.len"}.get(tn, "d.value.integer")
        L = fo + ".fvq"

        def two(s, kinds=None):
            for n, c in enumerate("abc"):
                x = L + "{%s}" % c
                s.vals.setdefault((x, "type"), frozenset([n]))
                s.vals.setdefault((x, v), frozenset([("qn", x + "." + v,
                                                      0)]))
            return s

        for tag, f, i in (("added", "", "a"), ("removed", "a", ""),
                          ("second added", "a", "ab"),
                          ("first removed", "ab", "b"),
                          ("operator changed", "a", "b"),
                          ("first operator changed", "ac", "bc"),
                          ("second operator changed", "ab", "ac")):
            s = two(field(K, t)("limit of %s %s" % (tn, tag)).lst(L, f, i))
            for c in "abc":
                s.vals[(L + "{%s}" % c, v)] = frozenset(
                    [("qn", L + "{a}." + v, 0)])
        for f in ("a", "ab", "ba"):
            for rf, ri in ((0, 1), (1, 0)):
                two(field(K, t)("limit of %s value %d to %d in %s" %
                                (tn, rf, ri, f)).lst(L, f)).numdiff(
                    L + "{a}", v, rf, ri)

    # ---------------------------------------------------- searches, updates
    def query(lst, Kind, mem, named=True):
        q = lst + "{!}"

        def prep(s):
            s.focus(lst)
            if named:
                s.same(q, "name")
            else:
                s.val(q, "name", 0)
            if mem == "search":
                s.val(q, "type", en["STYPE_SEARCH"])
            return s

        def mk0(kind):
            def mk(nm):
                s = prep(strct()("%s %s %s %s" % (
                    "named" if named else "unnamed", mem,
                    lst.split(".")[-1], nm)))
                if named:
                    s.needpair("DIFF_MOD_" + Kind, mem + "_pair", q)
                    s.neverpair("DIFF_SAME_" + Kind, mem + "_pair", q)
                    s.needpair(kind, mem + "_pair", q)
                else:
                    # nothing else in the lists may stand in for it
                    s.lst(lst, "!")
                    s.needone("DIFF_DEL_" + Kind, mem, "F:" + q)
                    s.needone("DIFF_ADD_" + Kind, mem, "I:" + q)
                    s.neverpair("DIFF_SAME_" + Kind, mem + "_pair", q)
                return s
            return mk
        return q, mk0

    for lst, Kind, mem in ((o + ".sq", "SEARCH", "search"),
                           (o + ".uq", "UPDATE", "update"),
                           (o + ".dq", "UPDATE", "update")):
        q = lst + "{!}"
        what = lst.split(".")[-1]
        for nm in (True, False):
            for side, K, verb in (("I:", "ADD", "added"),
                                  ("F:", "DEL", "removed")):
                s = strct()("%s %s %s %s" % ("named" if nm else "unnamed",
                                             mem, what, verb))
                if nm:
                    s.only(lst, side).same(q, "name")
                else:
                    s.val(q, "name", 0)
                    s.shapes[side + lst] = "!"
                    s.shapes[("F:" if side == "I:" else "I:") + lst] = ""
                s.needone("DIFF_%s_%s" % (K, Kind), mem, side + q)
        # a named one never stands in for an unnamed one
        for side, K in (("I:", "ADD"), ("F:", "DEL")):
            s = strct()("unnamed %s %s %s beside a named one" % (mem, what,
                                                               K))
            other = "F:" if side == "I:" else "I:"
            s.shapes[side + lst] = "a!"
            s.shapes[other + lst] = "a"
            s.val(q, "name", 0)
            s.same(lst + "{a}", "name")
            s.needone("DIFF_%s_%s" % (K, Kind), mem, side + q)
    # same name, other type of query
    lst = o + ".sq"
    for a, b in (("STYPE_COUNT", "STYPE_SEARCH"),
                 ("STYPE_LIST", "STYPE_ITERATE")):
        for named in (True, False):
            s = strct()("search type %s (%s)" % (a, named)).lst(lst, "!")
            s.val(lst + "{!}", "type", en[a], en[b])
            if named:
                s.same(lst + "{!}", "name")
            else:
                s.val(lst + "{!}", "name", 0)
            s.needone("DIFF_DEL_SEARCH", "search", "F:" + lst + "{!}")
            s.needone("DIFF_ADD_SEARCH", "search", "I:" + lst + "{!}")
            s.neverpair("DIFF_SAME_SEARCH", "search_pair", lst + "{!}")

    for named in (True, False):
        q, mk0 = query(o + ".sq", "SEARCH", "search", named)
        docs(mk0("DIFF_MOD_SEARCH_COMMENT"), q)
        nums(mk0("DIFF_MOD_SEARCH_LIMIT"), q, "limit", "limit")
        nums(mk0("DIFF_MOD_SEARCH_OFFSET"), q, "offset", "offset")
        rmap(mk0("DIFF_MOD_SEARCH_ROLEMAP"), q)
        for sub, K, ops in (("aggr", "AGGR", E("aggrtype")),
                            ("group", "GROUP", ()),
                            ("dst", "DISTINCT", ())):
            m = mk0("DIFF_MOD_SEARCH_" + K)
            m(sub + " added").ptr(q, sub, False, True)
            m(sub + " removed").ptr(q, sub, True, False)
            m(sub + " field").ptr(q, sub).strdiff(q + "." + sub, "fname")
            for k in range(len(ops)):
                m("%s op %d" % (sub, k)).ptr(q, sub).val(
                    q + "." + sub, "op", ops[k], ops[k - 1])
        for l, K, ops in (("sntq", "PARAMS", E("optype")),
                          ("ordq", "ORDER", E("ordtype"))):
            ordered(mk0("DIFF_MOD_SEARCH_" + K), q + "." + l, "fname", "op",
                    ops)
    for L in ("uq", "dq"):
        for named in (True, False):
            q, mk0 = query(o + "." + L, "UPDATE", "update", named)
            docs(mk0("DIFF_MOD_UPDATE_COMMENT"), q)
            nums(mk0("DIFF_MOD_UPDATE_FLAGS"), q, "flags", "flags")
            rmap(mk0("DIFF_MOD_UPDATE_ROLEMAP"), q)
            for l in ("mrq", "crq"):
                if L == "dq" and l == "mrq":
                    continue
                ordered(mk0("DIFF_MOD_UPDATE_PARAMS"), q + "." + l,
                        "field.name", "op", E("optype"))
                if l == "mrq":
                    M = E("modtype")
                    for k in range(len(M)):
                        s = mk0("DIFF_MOD_UPDATE_PARAMS")("mod %d" % k)
                        s.lst(q + "." + l, "a").val(
                            q + "." + l + "{a}", "mod", M[k], M[k - 1])

    # --------------------------------------------------------------- roles
    add(Sc("roles: added").lst("C.arq", "", "a")).needone(
        "DIFF_ADD_ROLES", "role", "I:C.arq{a}")
    add(Sc("roles: removed").lst("C.arq", "a", "")).needone(
        "DIFF_DEL_ROLES", "role", "F:C.arq{a}")
    R = "C.arq{!}"

    def roles(f="a<!>", i=None):
        def mk(nm):
            s = add(Sc("roles: " + nm)).lst("C.arq", f, i)
            s.needpair("DIFF_MOD_ROLES", "role_pair", "C.arq{a}")
            s.neverpair("DIFF_SAME_ROLES", "role_pair", "C.arq{a}")
            return s
        return mk

    roles("a<>", "a<!>")("role added").needone("DIFF_ADD_ROLE", "role",
                                              "I:" + R)
    roles("a<!>", "a<>")("role removed").needone("DIFF_DEL_ROLE", "role",
                                                "F:" + R)

    def role(kind):
        def mk(nm):
            s = roles()(nm)
            s.needpair("DIFF_MOD_ROLE", "role_pair", R)
            s.neverpair("DIFF_SAME_ROLE", "role_pair", R)
            s.needpair(kind, "role_pair", R)
            s.ptr(R, "parent")
            return s
        return mk

    docs(role("DIFF_MOD_ROLE_COMMENT"), R)
    role("DIFF_MOD_ROLE_PARENT")("parent").strdiff(R + ".parent", "name")
    for f, i in (("", "a"), ("a", ""), ("a", "ab"), ("a", "ba"),
                 ("ab", "b"), ("a", "b"), ("ab", "ac"), ("ab", "cb")):
        role("DIFF_MOD_ROLE_CHILDREN")("children %s to %s" % (f, i)).lst(
            R + ".subrq", f, i)

    # ---------------------------------------------- nothing differs at all
    for t in T:
        for full in (False, True):
            s = add(Sc("identical: type %d%s" % (t, " full" if full else "")))
            s.shared = True
            s.exact = True
            s.noabort = True
            s.vals[("~.*fq\\{.\\}", "type")] = frozenset([t])
            hasdef = full and t not in (
                en["FTYPE_BLOB"], en["FTYPE_PASSWORD"], en["FTYPE_STRUCT"])
            s.vals[("~.*fq\\{.\\}", "flags")] = \
                frozenset([16 if hasdef else 0])
            for l in ("C.sq", "C.eq", "C.bq", "C.eq{.}.eq", "C.bq{.}.bq",
                      "C.sq{.}.fq"):
                s.shapes["~" + l.replace("{", "\\{").replace("}", "\\}")] = \
                    "a"
            if t in (en["FTYPE_ENUM"], en["FTYPE_STRUCT"]):
                s.shapes["~.*fvq"] = ""
            for l in ("C.sq{.}.nq", "C.sq{.}.nq{.}.nq"):
                s.shapes["~" + l.replace("{", "\\{").replace("}", "\\}")] = \
                    "ab" if full else ""
            s.shapes["~.*"] = "a" if full else ""
            s.ident = full
    return S


def uniq(s, U, lists):
    for e, fl in lists.items():
        s.shapes[U + "{%s}.nq" % e] = fl
        for c in fl:
            s.vals[(U + "{%s}.nq{%s}.field" % (e, c), "name")] = \
                frozenset([("qs", "U.nq{%s}.field.name" % c, 0)])


def ordered(m, L, key, op, ops):
    """Order-preserving lists."""
    def names(s):
        for c in "abcd":
            x = L + "{%s}" % c
            ob, _, at = key.rpartition(".")
            s.vals.setdefault((x + ("." + ob if ob else ""), at),
                              frozenset([("qs", x + "." + key, 0)]))
        return s
    short = L.split(".")[-1]
    for f, i in (("a", "b"), ("ab", "ba"), ("ab", "a"), ("a", "ab"),
                 ("", "a"), ("a", ""), ("ab", "b"), ("ab", "ac"),
                 ("abc", "abd")):
        s = names(m("%s order %s to %s" % (short, f, i))).lst(L, f, i)
        for c in "abcd":
            s.val(L + "{%s}" % c, op, ops[0])
            if short == "mrq":
                s.val(L + "{%s}" % c, "mod", 0)
    for k in range(len(ops)):
        names(m("%s op %d" % (short, k))).lst(L, "a").val(
            L + "{a}", op, ops[k], ops[k - 1])
    names(m("%s second op" % short)).lst(L, "ab").val(
        L + "{a}", op, ops[0]).val(L + "{b}", op, ops[0], ops[1])


def identical(prog, sc, mod):
    """Nullable attributes: all present or all absent."""
    full = sc.ident

    class M(mod):
        def default(self, ai, o, path, ty, st):
            v = super().default(ai, o, path, ty, st)
            if v is not None and 0 in v and len(v) == 2:
                v = frozenset(a for a in v if (a != 0) == full)
            if v is not None and len(v) > 1 and ai.enumvals(ty):
                v = frozenset([min(v)])
            return v
    return M(prog, sc)


def body(c):
    prog = front.load()
    fn = prog.func("ort_diff")
    if fn is None or "difftype" not in prog.enums:
        raise Fatal("ort_diff or enum difftype is gone")
    scs = scenarios(prog)
    kinds = {n for n, v in prog.enums["difftype"] if not n.endswith("__MAX")}

    def one(sc):
        m = identical(prog, sc, Diff) if sc.exact else Diff(prog, sc)
        m.otype["F:C"] = m.otype["I:C"] = "config"
        ai = AI(prog, m)
        f = {}
        for (u, ty, n), side in zip(fn.params, ("F:C", "I:C")):
            f[("v:" + u, "")] = frozenset([("p", side, "")])
        bad = []
        try:
            res = ai.run(fn, State(f, frozenset()))
        except Blowup as x:
            return ("blowup", sc.name, str(x))
        n = 0
        for st, v in res:
            if v is not None and v == ZERO:
                continue
            n += 1
            for t in sc.need:
                if t not in st.tags:
                    near = sorted(x for x in m.records if x[1] == t[1])
                    bad.append((t[1], "a path of ort_diff reports no %s "
                                "record about %s%s" % (
                                    t[1], ", ".join("%s=%s" % x
                                                    for x in t[2]),
                                    "; records of that kind: %s" % near[:3]
                                    if near else "")))
            for t in sc.never:
                if t in st.tags:
                    bad.append((t[1], "a path of ort_diff reports %s" %
                                t[1]))
            if sc.exact:
                for t in st.tags:
                    if t[0] == "rec" and not t[1].startswith("DIFF_SAME"):
                        bad.append((t[1], "a path of ort_diff reports %s "
                                    "about %s" % (t[1], t[2])))
        if n == 0:
            bad.append(("none", "no path of ort_diff returns a result"))
        if sc.noabort:
            for f_, g, l in m.aborts:
                bad.append(("abort:" + g, "%s:%d: %s reaches abort()" %
                            (f_, l, g)))
        return ("ok", sc.name, sorted(set(bad)), n, ai.steps,
                sorted(ai.funcs_analysed), sorted({t[1] for t in m.records}))

    only = os.environ.get("P06_ONLY")
    if only:
        scs = [s for s in scs if only in s.name]
    funcs, steps, made = set(), 0, set()
    for r in pmap(one, scs):
        if r[0] == "blowup":
            raise Fatal("scenario %s: %s" % (r[1], r[2]))
        _, name, bad, n, stp, fs, ks = r
        funcs |= set(fs)
        steps += stp
        made |= set(ks)
        c.obligation(not bad, sample={"difference": name, "paths": n}
                     if c.ob % 97 == 5 else None)
        for k, t in bad[:3]:
            c.violate("%s|%s" % (name, k), "diff.c: when the only known "
                      "difference is <%s>: %s" % (name, t))
    if not only:
        never = sorted(kinds - made)
        for k in never:
            c.violate("kind|" + k, "diff.c: no path of ort_diff in any "
                      "scenario produces %s" % k)
        c.floor("scenarios", len(scs), 500)
        c.floor("kinds produced", len(made), 80)
    c.cov["functions analysed"] = sorted(funcs)
    c.cov["steps"] = steps
    c.assume += ["allocations succeed (P02)",
                 "lists compared as sets are analysed with up to two other "
                 "elements; lists searched by name with any number"]
    return c.finish(
        "for every way two configurations can differ in one attribute, "
        "every non-NULL return of ort_diff has queued the records for it",
        "Relational dataflow over ort_diff with both configurations as "
        "mirrored symbolic objects; one difference is known, everything "
        "else is unknown.")


if __name__ == "__main__":
    main("P06", body)
