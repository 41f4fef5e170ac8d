"""P07: the written difference shows every reported change, and the exit
status of ort-diff says whether there is any."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from world import *
from emit import *
from par import pmap

E, B, S = "C.eq{!}", "C.bq{!}", "C.sq{!}"
# kind of object -> (object, union member, enclosing records)
CHAIN = {
    "ENM": (E, "enm", ()),
    "EITEM": (E + ".eq{!}", "eitem", ("ENM",)),
    "BITF": (B, "bitf", ()),
    "BITIDX": (B + ".bq{!}", "bitidx", ("BITF",)),
    "STRCT": (S, "strct", ()),
    "FIELD": (S + ".fq{!}", "field", ("STRCT",)),
    "INSERT": (S, "strct", ("STRCT",)),
    "SEARCH": (S + ".sq{!}", "search", ("STRCT",)),
    "UPDATE": (S + ".uq{!}", "update", ("STRCT",)),
    "UNIQUE": (S + ".nq{!}", "unique", ("STRCT",)),
    "ROLES": ("C.arq{a}", "role", ()),
    "ROLE": ("C.arq{!}", "role", ("ROLES",)),
}
TYPES = {E: "enm", E + ".eq{!}": "eitem", B: "bitf", B + ".bq{!}": "bitidx",
         S: "strct", S + ".fq{!}": "field", S + ".sq{!}": "search",
         S + ".uq{!}": "update", S + ".nq{!}": "unique", "C": "config",
         "C.arq{a}": "role", "C.arq{!}": "role", S + ".ins": "insert"}
OTHERS = "<>*^"


def split(kind):
    """DIFF_MOD_FIELD_TYPE -> ("MOD", "FIELD", "TYPE")"""
    p = kind.split("_")
    return p[1], p[2], "_".join(p[3:])


class Out(Emitter, World):
    limit = 400
    maxrets = 1000

    def __init__(self, prog, kinds, want):
        super().__init__(prog)
        self.kinds = kinds
        self.want = want
        self.lines = set()
        q = OTHERS[0]
        for i, k in enumerate(kinds):
            q += "abc"[i] + OTHERS[i + 1]
        self.shapes["C.q"] = q
        en = dict(prog.enums["difftype"])
        for i, k in enumerate(kinds):
            r = "C.q{%s}" % "abc"[i]
            self.vals[(r, "type")] = frozenset([en[k]])
            verb, what, sub = split(k)
            obj, mem, _ = CHAIN[what]
            if verb in ("ADD", "DEL"):
                self.vals[(r, mem)] = frozenset(
                    [("p", ("I:" if verb == "ADD" else "F:") + obj, "")])
            else:
                self.vals[(r, mem + "_pair.from")] = frozenset(
                    [("p", "F:" + obj, "")])
                self.vals[(r, mem + "_pair.into")] = frozenset(
                    [("p", "I:" + obj, "")])
        for o, t in TYPES.items():
            self.otype["F:" + o] = self.otype["I:" + o] = t
        for s in ("F:", "I:"):
            self.vals[(s + S, "ins")] = frozenset([("p", s + S + ".ins", "")])

    def emit(self, ai, e, text, st, stream):
        if L + "F:" in text or L + "I:" in text:
            self.lines.add(text)
        for i, w in enumerate(self.want):
            if w(text) and all(st.has(("line", j)) for j in range(i)):
                st = st.tag(("line", i))
        return st

    def call(self, ai, fn, name, e, args, st):
        r = self.output(ai, fn, name, e, args, st)
        if r is not None:
            return r
        return super().call(ai, fn, name, e, args, st)


def posof(k, side):
    obj, mem, _ = CHAIN[split(k)[1]]
    if split(k)[1] == "INSERT":
        obj += ".ins"
    return L + side + obj + ".pos.line" + R


def liner(k):
    """Recognises the line for a record: its marker and where the object is
    in the configurations concerned."""
    verb, what, sub = split(k)
    def f(t):
        if verb == "ADD":
            return t.startswith("+ ") and posof(k, "I:") in t
        if verb == "DEL":
            return t.startswith("- ") and posof(k, "F:") in t
        a, b = t.find(posof(k, "F:")), t.find(posof(k, "I:"))
        if not 0 <= a < b:
            return False
        if verb == "MOD":
            return t.startswith("! ") if sub else t.startswith("@@ ")
        return not t.startswith(("!", "@", "+", "-"))
    return f


class Main(World):
    limit = 100

    def __init__(self, prog, kind):
        super().__init__(prog)
        self.kind = kind
        self.shapes["C.q"] = "<a>"
        en = dict(prog.enums["difftype"])
        self.same = frozenset(v for n, v in en.items()
                              if n.startswith("DIFF_SAME"))
        self.vals[("C.q{a}", "type")] = frozenset([en[kind]])
        if kind.startswith("DIFF_SAME"):
            for o in "<>":
                self.vals[("C.q{%s}" % o, "type")] = self.same
        self.api = {"ort_parse_file": (ONE, ZERO), "ort_parse_close":
                    (ONE, ZERO), "ort_write_diff_file": (ONE, ZERO),
                    "fflush": (ZERO, frozenset([-1]))}

    def call(self, ai, fn, name, e, args, st):
        if name in self.api:
            ok, bad = self.api[name]
            return [(st, ok), (st.tag("failed"), bad)]
        if name == "ort_diff":
            q = frozenset([("p", "C.q", "")])
            return [(st.tag("compared"), q), (st.tag("failed"), ZERO)]
        if name == "ort_config_alloc":
            return [(st, frozenset([("p", "C", "")]))]
        if name in ("calloc", "fopen"):
            return [(st, POS)]
        if name and name.startswith("ort_"):
            return [(st, None)]
        if name == "getopt":
            return [(st, frozenset([-1])), (st.tag("usage"), POS)]
        return super().call(ai, fn, name, e, args, st)


class QMain(Main):
    """TAILQ_FIRST of the returned queue: its head is the object itself."""
    def load(self, ai, loc, ty, st):
        if loc == ("C.q", "tqh_first"):
            return self.follow("C.q", 0, ty)
        return super().load(ai, loc, ty, st)


def body(c):
    prog = front.load()
    fn = prog.func("ort_write_diff_file")
    mains = [f for f in prog.funcs.values()
             if f.name == "main" and "ort_diff" in f.callees and
             "ort_write_diff_file" in f.callees]
    if fn is None or "difftype" not in prog.enums or len(mains) != 1:
        raise Fatal("ort_write_diff_file, enum difftype or ort-diff's main "
                    "is gone")
    kinds = [n for n, v in prog.enums["difftype"] if not n.endswith("__MAX")]
    for k in kinds:
        if split(k)[1] not in CHAIN or split(k)[0] not in ("ADD", "DEL",
                                                           "MOD", "SAME"):
            raise Fatal("unknown kind of difference " + k)

    def one(k):
        verb, what, sub = split(k)
        chain = ["DIFF_MOD_" + w for w in CHAIN[what][2]]
        if sub:
            chain.append("DIFF_MOD_" + what)
        seq = chain + [k]
        # ort_diff queues what is enclosed before what encloses it; the
        # display must not depend on it
        bad, lines = [], set()
        n = 0
        for order in (seq[::-1], seq):
            m = Out(prog, order, [liner(x) for x in seq])
            ai = AI(prog, m)
            f = {}
            f[("v:" + fn.params[1][0], "")] = frozenset([("p", "C.q", "")])
            real = m.load

            def load(ai, loc, ty, st, real=real, m=m):
                if loc == ("C.q", "tqh_first"):
                    return m.follow("C.q", 0, ty)
                return real(ai, loc, ty, st)
            m.load = load
            for st, v in ai.run(fn, State(f, frozenset())):
                if v == ZERO:
                    continue
                n += 1
                for i, x in enumerate(seq):
                    if not st.has(("line", i)):
                        bad.append("a path of ort_write_diff_file writes no "
                                   "line for %s%s" % (
                                       x, " below its %s" % ", ".join(
                                           seq[:i]) if i else ""))
                        break
            lines |= {t for t in m.lines if liner(k)(t)}
        if n == 0:
            bad.append("no path of ort_write_diff_file succeeds")
        return k, sorted(set(bad)), sorted(lines), \
            sorted(ai.funcs_analysed), n

    shown = {}
    funcs = set()
    npaths = 0
    todo = [k for k in kinds if split(k)[0] != "SAME"]
    for k, bad, lines, fs, n in pmap(one, todo):
        funcs |= set(fs)
        npaths += n
        c.obligation(not bad, sample={"record": k, "lines": lines[:2]})
        for b in bad[:2]:
            c.violate("write|" + k, "writer-diff.c: with a %s record queued, "
                      "%s" % (k, b))
        for t in lines:
            if "(null)" in t:
                c.violate("null|" + k, "writer-diff.c: the line for a %s "
                          "record prints a null string: %r" % (k, t))
        for t in lines:
            shown.setdefault(t, set()).add(k)
    for t, ks in sorted(shown.items()):
        mods = sorted(k for k in ks if split(k)[2] or split(k)[0] != "MOD")
        same = {}
        for k in mods:
            same.setdefault(split(k)[:2], []).append(k)
        for g in same.values():
            c.obligation(len(g) == 1)
            if len(g) > 1:
                c.violate("alike|" + " ".join(g), "writer-diff.c: %s are "
                          "written alike: %r" % (" and ".join(g), t))

    main_ = mains[0]

    def status(k):
        m = QMain(prog, k)
        ai = AI(prog, m)
        bad = set()
        n = 0
        for st, v in ai.run(main_, State({}, frozenset())):
            if v is None:
                bad.add("an exit status that could not be determined")
                continue
            if st.has("usage"):
                continue
            n += 1
            if st.has("failed"):
                if not all(isinstance(a, int) and a > 1 for a in v):
                    bad.add("exit status %s after a failure" % sorted(
                        map(str, v)))
            elif not st.has("compared"):
                if not all(isinstance(a, int) and a > 1 for a in v):
                    bad.add("exit status %s without having compared" %
                            sorted(map(str, v)))
            else:
                want = ZERO if k.startswith("DIFF_SAME") else ONE
                if v != want:
                    bad.add("exit status %s instead of %d" % (
                        sorted(map(str, v)), list(want)[0]))
        return k, sorted(bad), n

    for k, bad, n in pmap(status, kinds):
        npaths += n
        c.obligation(not bad and n > 0)
        for b in bad:
            c.violate("status|%s|%s" % (k, b[:11]),
                      "%s: main: with a %s record in the result: %s" %
                      (main_.file, k, b))
        if n == 0:
            c.violate("status|" + k, "%s: main never finishes" % main_.file)
    c.floor("kinds of record", len(todo), 70)
    c.floor("paths", npaths, 200)
    c.floor("lines", len(shown), 70)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "every non-SAME record of a difference queue is written on its own "
        "line, below the lines of the records enclosing it; ort-diff exits "
        "1 exactly when there is such a record, above 1 on failure",
        "Dataflow over ort_write_diff_file and the program with a symbolic "
        "queue that holds the record and its enclosing records amid any "
        "number of unknown ones.")


if __name__ == "__main__":
    main("P07", body)
