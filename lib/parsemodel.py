"""The parser run over all token sequences: every call for the next token
yields each token the documented grammar allows there, and one of every kind
that it does not.  What the parser records is compared with what the grammar
says the text means."""
from world import *
from gen import ptr
from grammar import *
import front
from front import Fatal

TOKS = {":": "TOK_COLON", ",": "TOK_COMMA", "dec": "TOK_DECIMAL",
        "eof": "TOK_EOF", "kw": "TOK_IDENT", "name": "TOK_IDENT",
        "int": "TOK_INTEGER", "{": "TOK_LBRACE", "lit": "TOK_LITERAL",
        ".": "TOK_PERIOD", "}": "TOK_RBRACE", ";": "TOK_SEMICOLON"}
OTHERS = [(":", None), (",", None), ("dec", "other"), ("int", "other"),
          ("{", None), ("lit", "other"), (".", None), ("}", None),
          (";", None), ("name", "other")]
# every word of ort(5); those not allowed somewhere are given explicitly
VOCAB = set("""roles struct enum bits bitfield role comment none default all
field search count list iterate update delete insert unique item isnull
isunset unset jslabel name limit minrow maxrow order grouprow distinct asc
desc rowid null noexport actdel actup restrict nullify cascade ge le gt lt eq
neq like and or streq strneq isnull notnull concat dec inc set strset bit blob
date double email epoch int integer passwd password real text txt
format""".split())
UNION = {"last.string", "last.integer", "last.decimal"}

# attributes compared, per kind of record
ATTRS = {
    "strct": "name doc flags ins rowid cfg",
    "field": "name ref doc type actdel actup flags parent def.integer "
             "def.decimal def.string",
    "ref": "parent source",
    "fvalid": "type d.value.integer d.value.decimal d.value.len",
    "search": "name doc type aggr group dst limit offset parent",
    "sent": "name fname uname op parent", "ord": "name fname op parent",
    "aggr": "name fname op parent", "group": "name fname parent",
    "dstnct": "fname parent strct",
    "update": "type name doc parent flags", "uref": "op mod parent field",
    "unique": "parent", "nref": "parent", "rolemap": "type parent",
    "rref": "parent", "insert": "parent", "label": "lang label",
    "eitem": "name value doc parent flags",
    "bitidx": "name value doc parent", "enm": "name doc",
    "bitf": "name doc", "role": "name doc parent"}


def put(ctx, *kvs):
    """ctx with the given (key, value) pairs; a None value drops the key."""
    d = dict(ctx)
    for k, v in kvs:
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return frozenset(d.items())


def get(ctx, k, d=None):
    for a, b in ctx:
        if a == k:
            return b
    return d


def new(kind, lst=None, **attrs):
    """Action: a new record of a kind, in a list."""
    def f(ctx):
        o = "N:" + kind
        ctx = frozenset((k, v) for k, v in ctx
                        if not (k[0] in ("a", "in") and k[1] == o))
        kv = [(("in", o), lst), (("live", o), 1)]
        kv += [(("a", o, a.replace("__", ".")), v) for a, v in attrs.items()]
        return put(ctx, *kv)
    f.news = ("N:" + kind,)
    return f


def sets(kind, **attrs):
    def f(ctx):
        return put(ctx, *[(("a", "N:" + kind, a.replace("__", ".")), v)
                          for a, v in attrs.items()])
    return f


def once(kind, attr, val):
    """Action: set an attribute that may be given only once."""
    def f(ctx):
        if get(ctx, ("a", "N:" + kind, attr)) is not None:
            return REJECT
        return put(ctx, (("a", "N:" + kind, attr), val))
    return f


def oncefree(kind, attr, val):
    """Likewise, but nothing is documented about repetition."""
    def f(ctx):
        if get(ctx, ("a", "N:" + kind, attr)) is not None:
            return FREE
        return put(ctx, (("a", "N:" + kind, attr), val))
    return f


def resolves(rtype, **attrs):
    """Action: the linker is asked to resolve a name."""
    def f(ctx, d=1):
        r = frozenset([("type", rtype)] +
                      [(a.replace("__", "."), v) for a, v in attrs.items()])
        n = get(ctx, ("res", r), 0)
        return put(ctx, (("res", r), n + d or None))
    return f


def acts(*fs):
    def f(ctx):
        for g in fs:
            if g is None:
                continue
            ctx = g(ctx)
            if ctx in (REJECT, FREE):
                return ctx
        return ctx
    f.news = sum((getattr(g, "news", ()) for g in fs if g), ())
    return f


LINKS = (".tqh_last", ".tqh_first", ".tqe_prev", ".tqe_next")


class PAI(AI):
    """Copies of strings are named for the attribute that holds them."""

    def store(self, st, loc, v, ty, e=None):
        if loc is not None and v is not None and \
                loc[0].startswith("N:") and len(v) == 1:
            (a,) = v
            n = "%s.%s" % loc
            if isinstance(a, tuple) and a[0] == "qs" and \
                    a[1].startswith("str:") and "@" not in a[1]:
                v = frozenset([("qs", a[1] + "@" + n, a[2])])
                st = st.untag(lambda t: t[0] in ("LOW", "HALF") and
                              t[1] == a[1] + "@" + n)
            elif isinstance(a, tuple) and a[0] == "p" and a[2] == "" and \
                    a[1].startswith("N:buf@"):
                st = self.m.renamed(st, a[1], n + ".buf")
                v = frozenset([("p", n + ".buf", "")])
        if loc is not None and (loc[0].startswith("LAST:") or
                                loc[0].startswith("N:") and
                                loc[1].endswith(LINKS)):
            return self.m.store(self, loc, v, e, st) or st
        return super().store(st, loc, v, ty, e)


class Parse(World):
    limit = 4000
    maxrets = 4000
    maxinc = 400

    def __init__(self, prog, grammar, start=frozenset()):
        super().__init__(prog)
        self.g = (grammar, None)
        self.startctx = start
        self.otype["C"] = "config"
        self.otype["C.priv"] = "config_private"
        self.shapes["C.sq"] = self.shapes["C.eq"] = self.shapes["C.bq"] = "*"
        self.shapes["C.priv.rq"] = ""
        self.shapes["C.rq"] = self.shapes["C.arq"] = ""
        self.vals[("C", "langsz")] = frozenset([2])
        self.vals[("C", "flags")] = ZERO
        self.numbered = {"role"}
        self.sparse = False     # follow only the scenario's own sentences
        self.same = set()       # (token, identifier it equals)
        self.bad = {}
        self.refused = {}
        self.tokens = set()
        self.prior = "*"
        self.sizes = {}

        usual = absint.QCMP[0]

        def cmp(op, x, y):
            # an earlier record's number differs unless said to be the same
            if "iv" in (x[0], y[0]):
                a, b = (x, y) if x[0] == "iv" else (y, x)
                if b[0] == "qn" and b[1].startswith("prior:") and \
                        op in ("==", "!="):
                    return (((a[1], b[1]) in self.same) == (op == "=="),)
                return (True, False)
            return usual(op, x, y)
        absint.QCMP[0] = cmp

    # -------------------------------------------------------- the records
    def track(self, o, path, ty):
        if o.startswith("N:"):
            return True
        if o == "C" and path in ("flags", "langsz") or \
                o.startswith("C.langs"):
            return True
        return o.startswith("v:")

    def always(self, o):
        return o.startswith("N:") or o == "C"

    def load(self, ai, loc, ty, st):
        o, path = loc
        if o.startswith("N:"):
            return self.loadnew(ai, o, path, ty, st)
        if o.startswith("S:"):
            i = o[2:]
            if i.endswith("empty"):
                return ZERO
            ch = ("ch", re.sub(r"^(tok|str):|@.*$", "", i))
            return frozenset([ch]) if path in ("", "[0]") or \
                st.has(("HALF", i)) and not st.has(("LOW", i)) else \
                frozenset([0, ch])
        if o == "C.langs":
            if path == "[0]":
                return frozenset([("s", "")])
            if path == "[1]":
                return frozenset([("s", "lang1")])
        if o == "C.priv" and path == "rq.tqh_first":
            q = self.sequence(st, "C.priv.rq")
            return ptr(q[0]) if q else ZERO
        if o == "C" and path in ("rq.tqh_first", "arq.tqh_first"):
            q = self.sequence(st, "C." + path[:-10])
            return ptr(q[0]) if q else ZERO
        if path.endswith(".tqh_last") and self.isworld(o):
            return ptr("LAST:" + o + "." + path[:-9])
        return super().load(ai, loc, ty, st)

    def loadnew(self, ai, o, path, ty, st):
        if path.endswith((".tqh_last", ".tqe_prev")) and \
                path.endswith("tqh_last"):
            return ptr("LAST:" + o + "." + path[:-9])
        m = re.match(r"^(.*)\{(.)\}$", o)
        if self.counted(o):
            if path.endswith(".tqe_next"):
                return self.follower(st, o, path)
        if path.endswith(".tqh_first"):
            if m:
                return POS
            q = self.sequence(st, o + "." + path[:-10])
            if q:
                return ptr(q[0])
            return self.walk(st, o + "." + path[:-10], 0, True)
        if path.endswith(".tqe_next"):
            if m:
                i = self.prior.index(m.group(2))
                return self.walk(st, m.group(1), i if m.group(2) in SUMMARY
                                 else i + 1)
            return ZERO
        if m:
            # an earlier record of the same list
            t = plain(ty)
            if t == "char *":
                return frozenset([("qs", "prior:%s.%s" % (o, path), 0)])
            ev = ai.enumvals(t)
            if ev:
                return ev
            if t == "bit":
                return frozenset([0, "P"])
            if "*" in t:
                return frozenset(["P"])
            if path == "flags":
                return ZERO
            return frozenset([("qn", "prior:%s.%s" % (o, path), 0)])
        if st.has(("UNK", o, path)) or o.startswith("N:buf@") or \
                ".buf" in o:
            return None
        if ai.tracked((o, path), ty) and plain(ty).startswith(
                ("struct", "union")) and "*" not in plain(ty):
            return None
        return ZERO

    def walk(self, st, lst, i, start=False):
        n, latest = self.inserted(st, lst)
        out = set()
        if n > 1:
            while i < len(self.prior):
                out.add(("p", "%s{%s}" % (lst, self.prior[i]), ""))
                if self.prior[i] not in SUMMARY:
                    return frozenset(out)
                i += 1
        if latest:
            out.add(("p", latest, ""))
        elif not start or not out:
            out.add(0)
        return frozenset(out)

    def counted(self, o):
        """Is this one of the records told apart by number?"""
        return o[-1].isdigit() and o[2:-1] in self.numbered

    def sequence(self, st, lst):
        for t in st.tags:
            if t[:2] == ("SEQ", lst):
                return t[2]
        return ()

    def follower(self, st, o, path):
        for t in st.tags:
            if t[0] == "SEQ" and o in t[2] and \
                    (t[1] == "C.arq") == path.startswith("all"):
                i = t[2].index(o) + 1
                return ptr(t[2][i]) if i < len(t[2]) else ZERO
        return ZERO

    def inserted(self, st, lst):
        for t in st.tags:
            if t[:2] == ("LIST", lst):
                return t[2], t[3]
        return 0, None

    def store(self, ai, loc, val, e, st):
        if loc is None:
            return None
        o, path = loc
        where = "%s:%s" % (ai.cur.file, e.line if e is not None else "?")
        if o.startswith("LAST:"):
            lst = o[5:]
            (a,) = val if val is not None and len(val) == 1 else (None,)
            if not isinstance(a, tuple) or a[0] != "p":
                return None
            n, latest = self.inserted(st, lst)
            st = st.untag(lambda t: t[:2] == ("LIST", lst))
            if self.counted(a[1]):
                old = self.sequence(st, lst)
                st = st.untag(lambda t: t[:2] == ("SEQ", lst))
                st = st.tag(("SEQ", lst, old + (a[1],)))
            st = st.tag(("LIST", lst, min(n + 1, 2), a[1]),
                        ("IN", a[1], lst))
            if lst.startswith("N:") and not st.has(("INIT", lst)):
                st = self.flaw(st, "%s: insertion into a list that has not "
                               "been initialised (%s)" % (where, lst[2:]))
            return st
        if o.startswith("N:"):
            if path.endswith(".tqh_last") and val is not None and \
                    val == frozenset([("p", o, path[:-9] + ".tqh_first")]):
                return st.tag(("INIT", o + "." + path[:-9]))
            if path.endswith((".tqh_last", ".tqe_prev", ".tqe_next")):
                return st
            if path.endswith(".tqh_first"):
                if val != ZERO:
                    st = self.flaw(st, "%s: a record is put at the front "
                                   "of a list" % where)
                return st
            if isinstance(val, tuple):
                return None
            st = st.untag(lambda t: t == ("UNK", o, path))
            if ".buf" in o or o.startswith("N:buf@"):
                return self.append(st, o, path, val)
            if val is None:
                st = st.tag(("UNK", o, path))
            return st
        if o.startswith("S:str:") and val is not None and \
                any(isinstance(a, tuple) and a[0] == "lc" for a in val):
            if path.endswith("[?]"):
                return st.tag(("LOW", o[2:]))
            if path in ("", "[0]"):
                return st.tag(("HALF", o[2:]))
        if o == "C.langs" and val is not None:
            return st
        return None

    def append(self, st, o, path, val):
        """A character is written to a buffer."""
        (a,) = val if val is not None and len(val) == 1 else (None,)
        old = [t for t in st.tags if t[:2] == ("BUF", o)]
        content = old[0][2] if old else ()
        if isinstance(a, tuple) and a[0] in ("ch", "lc"):
            x = ("" if a[0] == "lc" else "raw ") + a[1]
            if not content or content[-1] != x:
                content = content + (x,)
        elif isinstance(a, int) and a > 0:
            content = content + (chr(a),)
        elif a == 0 and path.endswith("[last]"):
            while content and content[-1] != ".":
                content = content[:-1]
            content = content[:-1]
        elif a == 0:
            return st
        elif isinstance(a, tuple) and a[0] == "qs":
            return st
        else:
            content = content + ("?",)
        st = st.untag(lambda t: t in old)
        return st.tag(("BUF", o, content[:8]))

    def renamed(self, st, a, b):
        def r(o):
            return b + o[len(a):] if o == a or o.startswith(a + ".") else o
        f = {}
        for (o, p), v in st.f.items():
            if o == b:
                continue
            if any(isinstance(x, tuple) and x[0] == "p" and x[1] == a
                   for x in v):
                v = frozenset(("p", r(x[1]), x[2]) if isinstance(x, tuple)
                              and x[0] == "p" else x for x in v)
            if o == a and v and len(v) == 1:
                (x,) = v
                if isinstance(x, tuple) and x[0] == "qs" and "@" in x[1]:
                    v = frozenset([("qs", x[1].replace("@" + a, "@" + b),
                                    x[2])])
            f[(r(o), p)] = v
        tags = set()
        for t in st.tags:
            if t[:2] == ("BUF", b):
                continue
            if t[:2] == ("BUF", a):
                t = ("BUF", b) + t[2:]
            elif t[0] == "LOW" and t[1].partition("@")[2].startswith(a):
                t = ("LOW", t[1].replace("@" + a, "@" + b))
            tags.add(t)
        return State(f, frozenset(tags))

    # ------------------------------------------------------- the grammar
    def gstate(self, st):
        for t in st.tags:
            if t[0] == "G":
                return t[1:]
        raise Fatal("no grammar state")

    def setg(self, st, rest, ctx):
        return st.untag(lambda t: t[0] == "G").tag(("G", rest, ctx))

    def flaw(self, st, msg):
        return st.tag(("FLAW", msg))

    def give(self, ai, st, p, kind, val):
        """The parser sees a token."""
        f = dict(st.f)
        for u in UNION:
            f.pop((p, u), None)
        f[(p, "lasttype")] = frozenset([self.prog.enumof[TOKS[kind]][1]])
        cur = None
        if kind == "kw":
            f[(p, "last.string")] = frozenset([("s", val)])
            cur = ("s", val)
        elif kind in ("name", "lit"):
            f[(p, "last.string")] = frozenset([("qs", "tok:" + val, 0)])
            cur = ("qs", "tok:" + val, 0)
        elif kind == "int":
            if val == "other":
                val = ("other", -2 ** 63, 2 ** 63 - 1)
            f[(p, "last.integer")] = frozenset([("iv",) + val + (1, 0)]
                                               if not isinstance(val, int)
                                               else [val])
            cur = "int"
        elif kind == "dec":
            f[(p, "last.decimal")] = frozenset([("qn", "tok:" + val, 0)])
            cur = "dec"
        st = State(f, st.tags)
        if kind in ("name", "lit"):
            st = self.older(st, val)
        if cur is not None:
            st = st.untag(lambda t: t[0] == "CUR").tag(("CUR", cur))
        return (st, f[(p, "lasttype")])

    def older(self, st, i):
        """Copies of the token's previous occurrence."""
        pre = "str:%s@" % i
        f = {}
        for k, v in st.f.items():
            if any(isinstance(a, tuple) and a[0] == "qs" and
                   a[1].startswith(pre) for a in v):
                v = frozenset(
                    ("qs", a[1].replace(pre, "str:%s'@" % i), a[2])
                    if isinstance(a, tuple) and a[0] == "qs" and
                    a[1].startswith(pre) else a for a in v)
            f[k] = v
        tags = frozenset(("LOW", t[1].replace(pre, "str:%s'@" % i))
                         if t[0] == "LOW" and t[1].startswith(pre) else t
                         for t in st.tags)
        return State(f, tags)

    def ahead(self, rest):
        return " or ".join(sorted({t.kind if t.val is None else str(t.val)
                                   for t, r in first(rest)})[:6]) or "the end"

    def nexttoken(self, ai, e, args, st):
        if args[0] is None or len(args[0]) != 1:
            raise Fatal("parse_next on an unknown parse")
        (a,) = args[0]
        p = a[1]
        lt = st.f.get((p, "lasttype"))
        eof = self.prog.enumof["TOK_EOF"][1]
        if lt == frozenset([eof]):
            return [(st, lt)]
        rest, ctx = self.gstate(st)
        out = []
        if rest == REJECT:
            # ctx: (why, what could follow all the same)
            why, rest = ctx
            if rest is None:
                for kind, val in OTHERS + [("eof", None)]:
                    if kind in (";", "}", "name", "eof"):
                        out.append(self.give(ai, st, p, kind, val))
                return out
            if nullable(rest):
                out.append(self.give(ai, st, p, "eof", None))
            for tok, r in first(rest):
                s2 = self.setg(st, REJECT, (why, r))
                out.append(self.give(ai, s2, p, *tok.key()))
            return out
        seen = {}
        for tok, r in first(rest):
            k = tok.key()
            if k in seen:
                raise Fatal("ambiguous grammar at %r" % (k,))
            seen[k] = (tok, r)
        if nullable(rest) or rest is self.g:
            # an empty file is refused when all files have been read
            out.append(self.give(ai, st, p, "eof", None))
        kinds = {k for k, v in seen}
        for (kind, val), (tok, r) in seen.items():
            self.tokens.add((kind, val))
            c2 = tok.act(ctx) if tok.act else ctx
            if c2 == FREE:
                continue
            if c2 == REJECT:
                s2 = self.setg(st, REJECT, ("%s %s" % (kind, val or ""), r))
            else:
                s2 = st
                for o in getattr(tok.act, "news", ()):
                    s2 = self.judge(s2, o, ctx)
                    c2 = put(c2, (("live", o), 1))
                s2, c2 = self.settle(s2, c2)
                s2 = self.setg(s2, r, c2)
            out.append(self.give(ai, s2, p, kind, val))
        for kind, val in () if self.sparse else OTHERS + [("eof", None)] * (
                not nullable(rest) and rest is not self.g):
            if kind in kinds or kind == "name" and "name" in kinds:
                continue
            s2 = self.setg(st, REJECT, ("%s %s before %s" % (
                kind, val or "", self.ahead(rest)), None))
            out.append(self.give(ai, s2, p, kind, val))
        return out

    # ---------------------------------------------------------- judgement
    def means(self, st, got, want):
        """Does the recorded value agree with what the text means?"""
        if want is None:
            return got == ZERO
        if isinstance(want, tuple) and want[:1] == ("oneof",):
            return any(self.means(st, got, w) for w in want[1:])
        if want == "nonzero":
            return got is not None and 0 not in got
        if got is None or len(got) != 1:
            return False
        (a,) = got
        if isinstance(want, tuple) and want[0] in ("low", "copy"):
            if not isinstance(a, tuple):
                return False
            if a[0] == "s":
                return a[1] == want[1]
            if a[0] != "qs" or not a[1].startswith("str:") or \
                    a[1][4:].partition("@")[0].rstrip("'") != want[1]:
                return False
            return want[0] == "copy" or st.has(("LOW", a[1]))
        if isinstance(want, tuple) and want[0] == "buf":
            if want[1] == (".",) and a == ("s", "."):
                return True
            return isinstance(a, tuple) and a[0] == "p" and \
                st.has(("BUF", a[1], want[1]))
        if isinstance(want, tuple) and want[0] == "names":
            if not isinstance(a, tuple) or a[0] != "p":
                return False
            o = a[1]
            els = sorted(p for oo, p in st.f if oo == o and
                         p.startswith("["))
            return len(els) == len(want[1]) and all(
                self.means(st, st.f.get((o, "[%d]" % i)),
                           ("copy", w)) for i, w in enumerate(want[1]))
        if isinstance(want, str) and want.startswith(("N:", "C")):
            return a == ("p", want, "")
        if isinstance(want, str):
            return a == self.prog.enumof[want][1] \
                if want in self.prog.enumof else False
        return a == want

    def objfacts(self, st, o):
        return {p: v for (oo, p), v in st.f.items() if oo == o}

    def judge(self, st, o, ctx):
        """Compare a finished record with the text's meaning; forget it."""
        live = st.has(("LIVE", o))
        want = get(ctx, ("live", o))
        kind = o[2:].rstrip("0123456789")
        if kind == "resolve":
            return st
        if not live and not want:
            return st
        if not live:
            return self.flaw(st, "no %s is recorded" % kind)
        if not want:
            return self.flaw(st, "a %s is recorded that is not in the text"
                             % kind)
        for a in ATTRS[kind].split():
            w = get(ctx, ("a", o, a))
            if w == "any":
                continue
            g = st.f.get((o, a))
            if g is None and not st.has(("UNK", o, a)):
                g = ZERO
            if w is None and a in self.defaults.get(kind, {}):
                w = self.defaults[kind][a]
            if isinstance(w, int) and not isinstance(w, bool):
                ok = g == frozenset([w])
            else:
                ok = self.means(st, g, w)
            if not ok:
                st = self.flaw(st, "%s of the %s is recorded as %s, not %s" %
                               (a, kind, self.tell(st, g), w))
        lists = sorted(t[2] for t in st.tags if t[:2] == ("IN", o))
        wl = get(ctx, ("in", o))
        wl = [] if wl is None else [wl] if isinstance(wl, str) else \
            sorted(wl)
        if lists != wl:
            st = self.flaw(st, "the %s is listed in %s, not %s" %
                           (kind, lists or "nothing", wl))
        return st

    defaults = {"field": {"type": "FTYPE_INT"},
                "sent": {"op": "OPTYPE_EQUAL"},
                "uref": {"op": "OPTYPE_EQUAL", "mod": "MODTYPE_SET"},
                "ord": {"op": "ORDTYPE_ASC"}}

    def tell(self, st, g):
        if g is None:
            return "unknown"
        o = []
        for a in g:
            if isinstance(a, tuple) and a[0] == "p":
                b = [t[2] for t in st.tags if t[:2] == ("BUF", a[1])]
                o.append("".join(b[0]) if b else a[1])
            elif isinstance(a, tuple):
                o.append(str(a[1]))
            else:
                o.append(str(a))
        return "/".join(sorted(o))

    # requests to the linker: consumed as soon as they are complete
    def settle(self, st, ctx, final=False):
        o = "N:resolve"
        if "resolve" in self.numbered:
            if not final:
                return st, ctx
            for o in sorted(t[1] for t in st.tags if t[0] == "LIVE" and
                            t[1].startswith("N:resolve")):
                st, ctx = self.consume(st, ctx, o)
            o = "N:none"
        if not st.has(("LIVE", o)):
            pend = [k for k, v in ctx if k[0] == "res"]
            if final and pend:
                st = self.flaw(st, "the linker is not asked to resolve %s" %
                               sorted(map(str, pend[0][1])))
            return st, ctx
        if not final:
            return st, ctx
        st, ctx = self.consume(st, ctx)
        for k, v in ctx:
            if k[0] == "res":
                st = self.flaw(st, "the linker is not asked to resolve %s" %
                               sorted(map(str, k[1])))
        return st, ctx

    def consume(self, st, ctx, o="N:resolve"):
        if not st.has(("LIVE", o)):
            return st, ctx
        facts = self.objfacts(st, o)
        got = {p: v for p, v in facts.items()
               if not p.startswith("entries") and v != ZERO or p == "type"}
        got.setdefault("type", ZERO)
        unk = [t[2] for t in st.tags if t[:2] == ("UNK", o)]
        hit = None
        for k, n in ctx:
            if k[0] != "res":
                continue
            want = dict(k[1])
            if all(self.means(st, got.get(a, ZERO if a not in unk else None),
                              w) if not isinstance(w, int) else
                   got.get(a, ZERO) == frozenset([w])
                   for a, w in want.items()) and \
                    set(got) <= set(want) | {"struct_rolemap.type"} | \
                    {a for a in got if a.endswith("namesz")}:
                hit = (k, n)
        if hit is None:
            st = self.flaw(st, "the linker is asked to resolve %s" %
                           {p: self.tell(st, v) for p, v in got.items()})
        else:
            ctx = put(ctx, (hit[0], hit[1] - 1 or None))
        if ("IN", o, "C.priv.rq") not in st.tags:
            st = self.flaw(st, "a request to the linker is not queued")
        return st, ctx

    def finish(self, st):
        rest, ctx = self.gstate(st)
        for o in sorted({t[1] for t in st.tags if t[0] == "LIVE"} |
                        {k[1] for k, v in ctx if k[0] == "live"}):
            st = self.judge(st, o, ctx)
        st, ctx = self.settle(st, ctx, True)
        w = get(ctx, ("v", "cfgflags"), 0)
        g = st.f.get(("C", "flags"), ZERO)
        if g != frozenset([w]):
            st = self.flaw(st, "the configuration's flags are %s, not %s" %
                           (self.tell(st, g), w))
        return st

    # -------------------------------------------------------------- calls
    def alloc(self, ai, e, st, o):
        pre = o + "."
        f = {k: v for k, v in st.f.items()
             if k[0] != o and not k[0].startswith(pre)}
        tags = set()
        for t in st.tags:
            if t[0] in ("UNK", "IN", "LIVE", "BUF") and t[1] == o or \
                    t[0] == "BUF" and t[1].startswith(pre) or \
                    t[0] in ("LIST", "INIT") and t[1].startswith(pre):
                continue
            if t[0] == "LIST" and t[3] == o:
                t = t[:3] + (None,)
                if t[2] == 1:
                    t = (t[0], t[1], 2, None)
            if t[0] == "LOW" and t[1].partition("@")[2].startswith(pre):
                continue
            tags.add(t)
        tags.add(("LIVE", o))
        return State(f, frozenset(tags))

    def call(self, ai, fn, name, e, args, st):
        if name == "parse_next":
            return self.nexttoken(ai, e, args, st)
        if name in ("ort_msg", "ort_msgv"):
            v = args[1]
            warn = self.prog.enumof["MSGTYPE_WARN"][1]
            if v == frozenset([warn]):
                return [(st, None)]
            rest, ctx = self.gstate(st)
            if rest != REJECT:
                self.refused[self.site(ai, st)] = "before " + \
                    self.ahead(rest)
            return []
        if name == "calloc":
            k = next((a for a in e.args if a.k == "sizeof"), None)
            m = re.match(r"(?:const )?struct (\w+)$", k.v if k else "")
            if m:
                o = "N:" + m.group(1)
                if m.group(1) in self.numbered:
                    o += str(sum(t[0] == "LIVE" and t[1][:-1] == o
                                 for t in st.tags))
                if o == "N:resolve":
                    rest, ctx = self.gstate(st)
                    if rest != REJECT:
                        st, ctx = self.consume(st, ctx)
                        st = self.setg(st, rest, ctx)
                return [(self.alloc(ai, e, st, o), ptr(o))]
        if name in ("calloc", "malloc"):
            o = "N:buf@%s" % e.id
            return [(self.alloc(ai, e, st, o).untag(
                lambda t: t == ("LIVE", o)), ptr(o))]
        if name in ("realloc", "reallocarray"):
            if args[0] is not None and all(isinstance(a, tuple) and
                                           a[0] == "p" for a in args[0]):
                return [(st, args[0])]
            return [(st, POS)]
        if name == "strdup":
            v = args[0]
            if v is None or len(v) != 1:
                return [(st, POS)]
            (a,) = v
            if isinstance(a, tuple) and a[0] == "qs":
                st = self.fresh(ai, e, st, a)
                return [(st, frozenset([("qs", "str:" +
                                         self.base(a), 0)]))]
            if isinstance(a, tuple) and a[0] == "p":
                b = [t for t in st.tags if t[:2] == ("BUF", a[1])]
                o = "N:buf@%s" % e.id
                st = self.alloc(ai, e, st, o).untag(
                    lambda t: t == ("LIVE", o))
                if b:
                    st = st.tag(("BUF", o, b[0][2]))
                return [(st, ptr(o))]
            return [(st, v)]
        if name == "free":
            return [(st, None)]
        if name == "strlen":
            return [(st, POS)]
        if name == "strrchr" and args[0] is not None and len(args[0]) == 1:
            (a,) = args[0]
            if isinstance(a, tuple) and a[0] == "p":
                b = [t[2] for t in st.tags if t[:2] == ("BUF", a[1])]
                if b and "." in b[0]:
                    return [(st, frozenset([("p", a[1], "[last]")]))]
                if b:
                    return [(st, ZERO)]
        if name == "tolower":
            v = args[0]
            if v is not None:
                v = frozenset(("lc", a[1]) if isinstance(a, tuple) and
                              a[0] == "ch" else a for a in v if a != 0) or v
            return [(st, v)]
        if name in ("strcasecmp", "strcmp", "strncasecmp", "strncmp"):
            return self.compare(ai, name, e, args, st)
        if name == "mktime" and args[0] is not None and len(args[0]) == 1:
            (a,) = args[0]
            if isinstance(a, tuple) and a[0] == "p":
                g = [st.f.get((a[1], (a[2] + "." if a[2] else "") + x))
                     for x in ("tm_year", "tm_mon", "tm_mday", "tm_hour",
                               "tm_min", "tm_sec", "tm_isdst")]
                return [(st, frozenset([("qn", "date" + repr([
                    sorted(map(str, x)) if x else x for x in g]), 0)]))]
        if name == "memset" and args[0] is not None and len(args[0]) == 1 \
                and args[1] == ZERO:
            (a,) = args[0]
            k = e.args[2] if len(e.args) > 2 else None
            if isinstance(a, tuple) and a[0] == "p" and \
                    a[1].startswith("v:"):
                f = {x: v for x, v in st.f.items() if x[0] != a[1]}
                for x in ("tm_year", "tm_mon", "tm_mday", "tm_hour",
                          "tm_min", "tm_sec", "tm_isdst", "lasttype"):
                    f[(a[1], x)] = ZERO
                return [(State(f, st.tags), args[0])]
        return None

    def site(self, ai, st):
        fn = ai.cur
        s = ai.stack
        chain = [f for f in s if f.name not in
                 ("parse_errx", "parse_err", "gen_errx", "gen_err")]
        f = chain[-1] if chain else fn
        return "%s:%s()" % (f.file, f.name)

    def base(self, a):
        return re.sub(r"^(tok|str):|@.*$", "", a[1])

    def fresh(self, ai, e, st, a):
        """Use of a token's text: the buffer must still hold it."""
        if a[1].startswith("tok:") and not st.has(("CUR", a)) and \
                self.gstate(st)[0] != REJECT:
            st = self.flaw(st, "%s:%d: the text of a token is used after "
                           "the next one has been read" % (e.file, e.line))
        return st

    def compare(self, ai, name, e, args, st):
        if args[0] is None or args[1] is None:
            return [(st, None)]
        out = []
        rel = set()
        for x in args[0]:
            for y in args[1]:
                for a in (x, y):
                    if isinstance(a, tuple) and a[0] == "qs":
                        st = self.fresh(ai, e, st, a)
                rel |= set(self.related(st, x, y, "case" in name))
        if "=" in rel:
            out.append((st, ZERO))
        if "!" in rel:
            out.append((st, NONZERO))
        return out

    def related(self, st, x, y, caseless):
        qs = [isinstance(a, tuple) and a[0] in ("qs", "s") for a in (x, y)]
        if not all(qs):
            return "=!" if 0 not in (x, y) else ""
        if x[0] == "s" and y[0] == "s":
            a, b = x[1], y[1]
            if caseless:
                a, b = a.lower(), b.lower()
            return "=" if a == b else "!"
        if x[0] == "s" or y[0] == "s":
            c, q = (x, y) if x[0] == "s" else (y, x)
            if self.base(q) == "other":
                return "!" if c[1].lower() in VOCAB else "=!"
            return "!"
        a, b = self.base(x), self.base(y)
        if a == b:
            return "="
        if (a, b) in self.same or (b, a) in self.same:
            return "=" if caseless else "!"
        return "!"

    # ---------------------------------------------------------------- run
    def parse(self):
        fn = self.prog.func("ort_parse_file")
        ai = PAI(self.prog, self)
        f = {("v:" + u, ""): v for (u, ty, n), v in
             zip(fn.params, (ptr("C"), ptr("FILE"), POS))}
        f[("C", "flags")] = ZERO
        f[("C", "langsz")] = frozenset([2])
        st = State(f, frozenset([("G", self.g, self.startctx)]))
        res = ai.run(fn, st)
        self.ai = ai
        self.results = self.accepted = 0
        for s, v in res:
            rest, ctx = self.gstate(s)
            self.results += 1
            ok = v is not None and 0 not in v
            if v is None:
                self.bad["the result of ort_parse_file() is unknown"] = 1
            if rest == REJECT:
                if ok:
                    self.bad["input that ort(5) does not allow is accepted "
                             "(%s)" % ctx[0]] = 1
                continue
            if not ok:
                continue
            self.accepted += rest is not self.g
            s = self.finish(s)
            for t in s.tags:
                if t[0] == "FLAW":
                    self.bad[t[1]] = 1
        return self.bad, self.refused
