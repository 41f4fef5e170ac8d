"""P04: truncated or unreadable input is never accepted."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from faults import *

# one representative per character class the grammar distinguishes
CLASSES = {" ": 32, "\n": 10, "\r": 13, "#": 35, "-": 45, '"': 34,
           "\\": 92, "0": 48, "a": 97, "{": 123, "}": 125, ";": 59,
           ",": 44, ".": 46, ":": 58, "@": 64}
NAME = {v: k for k, v in CLASSES.items()}


class Lex:
    """The specification's own reader.  State: (mode, depth, prev) where
    mode is idle/comment/minus/string/esc/number/word, depth the brace
    nesting and prev the class of the last complete token.  Across a
    recursive call the depth is counted relative to that of the caller
    ("nested"), so that it stays exact however deep the input nests."""
    MAXD = 4

    @staticmethod
    def norm(depth, prev):
        # inside braces the previous token is irrelevant
        return (depth, prev if depth == 0 else "")

    @staticmethod
    def step(s, ch, nested=False):
        return [(m,) + Lex.norm(d, p) for m, d, p in
                Lex.step1(s, ch, nested)]

    @staticmethod
    def step1(s, ch, nested):
        mode, depth, prev = s
        if mode == "rejected":
            return [s]
        if mode == "comment":
            return [("idle" if ch == "\n" else mode, depth, prev)]
        if mode in ("string", "quoted"):
            if ch == '"':
                return [("idle", depth, "x")]
            return [("esc" if ch == "\\" else "string", depth, prev)]
        if mode == "esc":
            # a quote is escaped by the backslash right before it
            if ch == '"':
                return [("quoted", depth, prev)]
            return [("esc" if ch == "\\" else "string", depth, prev)]
        if mode == "word" and ch in "a0":
            return [s]
        if mode in ("number", "decimal") and ch == "0":
            return [s]
        if mode == "number" and ch == ".":
            return [("decimal", depth, prev)]
        if mode in ("word", "number", "decimal"):
            prev = "x"
            mode = "idle"
        if mode == "minus":
            return [("number" if ch == "0" else "junk", depth, "x")]
        if ch in " \n\r":
            return [(mode, depth, prev)]
        if ch == "#":
            return [("comment", depth, prev)]
        if ch == '"':
            return [("string", depth, prev)]
        if ch == "-":
            return [("minus", depth, prev)]
        if ch == "0":
            return [("number", depth, prev)]
        if ch == "a":
            return [("word", depth, prev)]
        if ch == "{":
            return [("idle", min(depth + 1, Lex.MAXD), "x")]
        if ch == "}":
            if depth == 0 and not nested or depth == -Lex.MAXD:
                return [("idle", depth, "x")]
            r = [("idle", depth - 1, "x")]
            if depth == Lex.MAXD:
                r.append(("idle", depth, "x"))
            return r
        if ch == ";":
            return [("idle", depth, ";")]
        return [("idle", depth, "x")]

    @staticmethod
    def complete(s):
        mode, depth, prev = s
        return mode in ("idle", "comment") and depth == 0 and \
            prev in ("", ";")


def grp(*cs):
    return frozenset(CLASSES[c] for c in cs)


SPACE = grp(" ", "\n", "\r")
DIGIT = grp("0")
ALPHA = grp("a")
CT = {"isspace": SPACE, "isdigit": DIGIT, "isalpha": ALPHA,
      "isalnum": DIGIT | ALPHA, "isblank": grp(" "),
      "isxdigit": DIGIT | ALPHA}


class Trunc(Model):
    limit = 2
    widenat = 30
    maxinc = 130
    zerofields = ("lasttype",)
    synpaths = False

    def __init__(self, prog, errors):
        self.prog = prog
        self.errors = errors
        self.reads = set()
        self.rcache = {}
        self.ends = set()
        self.fatal = {prog.enumof[n][1] for n in ("MSGTYPE_ERROR",
                                                  "MSGTYPE_FATAL")}
        rk = reaches(prog, {"fgetc", "getc", "getc_unlocked",
                            "fgetc_unlocked", "ungetc",
                            "feof", "ferror"} | set(CT))
        # functions that neither read nor touch the tokeniser's state
        self.inert = {f.name for f in prog.funcs.values()
                      if f.key not in rk and
                      not {"lasttype", "*"} & prog.mods(f)}

    def ctxarg(self, fn, i, v):
        if v is None:
            return None
        return v if any(isinstance(a, tuple) and a[0] == "p" and
                        a[1].startswith(("v:", "root")) for a in v) \
            else None

    def opaque(self, name):
        return name in self.inert

    def track(self, o, path, ty):
        return o.startswith("v:") and path.endswith("lasttype")

    def joinkey(self, st):
        return (st.tags, tuple(sorted((k, v) for k, v in st.f.items()
                                      if k[1].endswith("lasttype"))))

    def recursive(self, ai, fn):
        return ai.cur is not None and ai.cur.key in self.reachable(fn)

    def reachable(self, fn):
        r = self.rcache.get(fn.key)
        if r is None:
            r = set()
            wl = [fn]
            while wl:
                f = wl.pop()
                if f.key in r:
                    continue
                r.add(f.key)
                for n in f.callees:
                    g = self.prog.resolve(n, f.file)
                    if g is not None:
                        wl.append(g)
            self.rcache[fn.key] = r
        return r

    def before(self, ai, fn, st):
        if not self.recursive(ai, fn):
            return st
        mode, depth, prev = self.lex(st)
        if depth == 0 and not st.has(("NESTED",)):
            return st
        return self.setlex(st, (mode, 0, prev)).tag(("NESTED",))

    def after(self, ai, fn, caller, st):
        if not self.recursive(ai, fn):
            return st
        if self.lex(st)[0] == "rejected":
            return st.untag(lambda t: t[0] == "NESTED")
        mode, depth, prev = self.lex(caller)
        if depth == 0 and not caller.has(("NESTED",)):
            return st
        m2, d2, p2 = self.lex(st)
        if not caller.has(("NESTED",)):
            st = st.untag(lambda t: t[0] == "NESTED")
        if st.has(("EOF",)) or st.has(("RDERR",)):
            return st
        d = depth + d2
        d = max(-Lex.MAXD, min(d, Lex.MAXD))
        u = [t for t in st.tags if t[0] == "U"]
        if u:
            (_, (um, ud, up), w), = u
            st = st.untag(lambda t: t[0] == "U").tag(
                ("U", (um, ud + depth, up), w))
        return self.setlex(st, (m2, d, p2))

    def lex(self, st):
        for t in st.tags:
            if t[0] == "L":
                return t[1]
        return None

    def setlex(self, st, s):
        return st.untag(lambda t: t[0] == "L").tag(("L", s))

    def call(self, ai, fn, name, e, args, st):
        if name in ("fgetc", "getc", "getc_unlocked", "fgetc_unlocked"):
            self.reads.add((e.file, e.line, e.id))
            if st.has(("EOF",)):
                return [(st, frozenset([-1]))]
            if st.has(("RDERR",)):
                return [(st, frozenset([-1]))]
            l0 = self.lex(st)
            st = st.untag(lambda t: t[0] == "U")
            if l0[0] in ("word", "number", "decimal"):
                st = st.tag(("U", ("idle",) + Lex.norm(l0[1], "x"), l0[0]))
            out = []
            for ch, code in CLASSES.items():
                if ch == "\r":
                    continue
                for s in Lex.step(self.lex(st), ch,
                                  st.has(("NESTED",))):
                    out.append((self.setlex(st, s), frozenset([code])))
            s = l0
            st = st.untag(lambda t: t[0] == "U")
            if s[0] == "rejected":
                return out + [(st.tag(("EOF",)), frozenset([-1])),
                              (st.tag(("RDERR",)), frozenset([-1]))]
            bad = () if Lex.complete(s) and not st.has(("NESTED",)) else \
                (("BAD", "inside braces" if s[1] or st.has(("NESTED",)) else
                  "inside a token" if s[0] not in ("idle", "comment")
                  else "before the final semicolon"),)
            self.ends.add(s + (st.has(("NESTED",)),))
            out.append((self.setlex(st, ("idle", 0, "")).tag(
                ("EOF",), *bad), frozenset([-1])))
            out.append((self.setlex(st, ("idle", 0, "")).tag(
                ("RDERR",)), frozenset([-1])))
            return out
        if name == "ungetc":
            v = args[0]
            if self.lex(st)[0] == "rejected":
                return [(st, v)]
            u = [t[1] for t in st.tags if t[0] == "U"]
            if not u:
                raise Fatal("%s:%d: a character is put back that does not "
                            "end a word or number" % (e.file, e.line))
            # the next read may return anything again
            st = st.untag(lambda t: t[0] == "U")
            return [(self.setlex(st, u[0]), v)]
        if name == "feof":
            return [(st, POS if st.has(("EOF",)) else ZERO)]
        if name == "ferror":
            return [(st, POS if st.has(("RDERR",)) else ZERO)]
        if name in CT:
            v = args[0]
            if v is None:
                return [(st, ANYUINT)]
            t = any(a in CT[name] for a in v)
            f = any(a not in CT[name] for a in v)
            if t and f:
                return [(st, ANYUINT)]
            return [(st, POS if t else ZERO)]
        if name in ("ort_msg", "ort_msgv"):
            # nothing read after a rejection matters any more
            if args[1] is not None and args[1] <= self.fatal:
                st = self.setlex(st.untag(
                    lambda t: t[0] in ("U", "EOF", "RDERR", "BAD")),
                    ("rejected", 0, ""))
                st = st.untag(lambda t: t[0] == "U")
            return [(st, None)]
        return None


def body(c):
    p = front.load()
    fn = p.func("ort_parse_file")
    m = Trunc(p, None)
    ai = AI(p, m)
    st = State({}, frozenset([("L", ("idle", 0, ""))]))
    res = ai.run(fn, st)
    # declarations in the middle of which the end was reached unnoticed
    via = {}
    for (fk, (facts, tags)), rs in ai.memo.items():
        if any(t[0] in ("BAD", "RDERR", "EOF") for t in tags):
            continue
        for s, v in rs:
            if any(t[0] == "BAD" for t in s.tags):
                via[fk] = p.funcs[fk]
    via.pop(fn.key, None)
    kinds = {}
    for s, v in res:
        ok = api_success(fn, v)
        b = [t for t in s.tags if t[0] == "BAD"]
        why = None
        if s.has(("RDERR",)):
            why = ("readerror", "after an input error")
        elif b:
            why = ("eof:%s" % b[0][1], "although the input ended %s" %
                   b[0][1])
        elif m.lex(s)[0] == "rejected":
            why = ("rejected", "after having reported an error")
        elif not s.has(("EOF",)):
            why = ("unread", "without having read all of its input")
        if why is not None:
            c.obligation(not ok)
            if ok:
                kinds[why[0]] = why[1]
    for k in sorted(kinds):
        t = ""
        if k.startswith("eof:"):
            t = "; end of input goes unnoticed through: " + \
                ", ".join("%s() (%s:%d)" % (f.name, f.file, f.line)
                          for f in sorted(via.values(), key=lambda f: f.key)[:8])
        c.violate(k, "%s:%d: ort_parse_file() can succeed %s%s" %
                  (fn.file, fn.line, kinds[k], t))
    bad = [e for e in m.ends if e[3] or not Lex.complete(e[:3])]
    for e in bad:
        c.obligation(True)
    c.floor("read_sites", len(m.reads), 1)
    c.floor("functions", len(ai.funcs_analysed), 40)
    c.floor("truncation_states", len(bad), 20)
    c.cov["cfg_nodes"] = len(ai.nodes_analysed)
    c.cov["steps"] = ai.steps
    c.cov["character_classes"] = len(CLASSES)
    c.assume += ["memory allocation succeeds (see P02)"]
    return c.finish(
        "ort_parse_file() never returns success on a path where the input "
        "ended inside a comment-free token, an unclosed brace or before a "
        "declaration's final semicolon, where reading failed, where an error "
        "was reported, or where input is left unread",
        "interprocedural path-sensitive dataflow over character classes: an "
        "independent reader automaton runs beside the parser's own "
        "tokeniser on every abstract input, the two are compared at end of "
        "input")


main("P04", body)
