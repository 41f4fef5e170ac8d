"""The linker run over small families of parsed configurations."""
import os, re
from world import *
import absint
from front import Fatal


class Link(World):
    nullattrs = {"doc"}
    nullnames = {"search", "update"}
    limit = 400
    maxinc = 40

    def __init__(self, prog):
        super().__init__(prog)
        self.otype["C"] = "config"
        self.otype["C.priv"] = "config_private"
        self.inits = set()
        self.declared = set()
        absint.PTRCMP[0] = self.ptrrel
        self.anylist = ""

    def obj(self, o, rec, **vals):
        self.otype[o] = rec
        for k, v in vals.items():
            self.val(o, k.replace("__", "."), v)
        return o

    def val(self, o, path, v):
        if v is None:
            v = ZERO
        elif isinstance(v, int):
            v = frozenset([v])
        elif isinstance(v, tuple):
            v = frozenset([v])
        elif isinstance(v, str) and v in self.prog.enumof:
            v = frozenset([self.prog.enumof[v][1]])
        elif isinstance(v, str):
            v = frozenset([("p", v, "")])
        elif isinstance(v, (list, set)):
            v = frozenset(self.prog.enumof[x][1] if x in self.prog.enumof
                          else x for x in v)
        self.vals[(o, path)] = v

    def canonical(self, o):
        return re.fullmatch(r"C(\.\w+\{.\})*", o) or o.startswith("N:") or \
            o in self.declared

    def ptrrel(self, x, y):
        if x[0] != "p" or y[0] != "p" or x[2] != y[2]:
            return None
        if x[1] == y[1]:
            return "=" if focused(x[1]) else "=!"
        if self.canonical(x[1]) and self.canonical(y[1]):
            return "!"
        return None

    # -------------------------------------------------------------- state
    def track(self, o, path, ty):
        if path.endswith((".tqe_next", ".tqe_prev", ".tqh_first",
                          ".tqh_last")):
            return False
        return o.startswith("N:") or (o, path.split("#")[0]) in self.vals

    def always(self, o):
        return self.isworld(o) or o.startswith("N:")

    def load(self, ai, loc, ty, st):
        self.cur = st
        o, path = loc
        if (o, path) in self.inits:
            return None         # no longer known
        if path.endswith(".tqe_prev"):
            return ptr("PREV:" + o)
        if path.endswith(".tqh_last"):
            return ptr("LAST:" + o + "." + path[:-9])
        if path.endswith(".tqe_next"):
            for t in st.tags:
                if t[0] == "LIST" and o in t[2]:
                    i = t[2].index(o) + 1
                    return ptr(t[2][i]) if i < len(t[2]) else ZERO
        if o.startswith("N:"):
            if path.endswith(".tqh_first"):
                return ZERO
            if path.startswith("["):
                return None
            return ZERO
        return super().load(ai, loc, ty, st)

    def added(self, st, lst):
        """What was put into a list, in its order."""
        for t in st.tags:
            if t[0] == "LIST" and t[1] == lst:
                return list(t[2])
        return []

    def relist(self, st, lst, l):
        st = st.untag(lambda t: t[0] == "LIST" and t[1] == lst)
        return st.tag(("LIST", lst, tuple(l))) if l else st

    def listing(self, st, lst):
        """All elements of a list, as far as they are known one by one."""
        out = []
        for i in self.shape(lst):
            n = "%s{%s}" % (lst, i)
            if i in SUMMARY:
                return None
            if ("GONE", n) not in st.tags:
                out.append(n)
        return out + self.added(st, lst)

    cur = None

    def follow(self, lst, i, ty):
        v = super().follow(lst, i, ty)
        st = self.cur
        if st is None:
            return v
        gone = {t[1] for t in st.tags if t[0] == "GONE"}
        out = set()
        sh = self.shape(lst)
        while i < len(sh):
            n = "%s{%s}" % (lst, sh[i])
            self.named(n, ty)
            if n not in gone:
                out.add(("p", n, ""))
                if sh[i] not in SUMMARY:
                    return frozenset(out)
            elif sh[i] in SUMMARY:
                out.add(("p", n, ""))
            i += 1
        l = self.added(st, lst)
        return frozenset(out) | (ptr(l[0]) if l else ZERO)

    def store(self, ai, loc, val, e, st):
        if loc is None:
            return None
        o, path = loc
        one = None
        if isinstance(val, frozenset) and len(val) == 1:
            (one,) = val
        if o.startswith("PREV:"):
            for t in st.tags:
                if t[0] == "LIST" and o[5:] in t[2]:
                    return self.relist(st, t[1], [
                        x for x in t[2] if x != o[5:]])
            return st.tag(("GONE", o[5:]))
        if o.startswith("LAST:") or path.endswith(".tqh_first") and \
                (self.isworld(o) or o.startswith("N:")):
            last = o.startswith("LAST:")
            lst = o[5:] if last else o + "." + path[:-10]
            if isinstance(one, tuple) and one[0] == "p":
                l = self.added(st, lst)
                return self.relist(st, lst, l + [one[1]] if last else
                                   [one[1]] + l)
            if val == ZERO or not isinstance(val, frozenset):
                return st
            return st.tag(("LOST", lst))
        if path.endswith((".tqe_next", ".tqe_prev", ".tqh_last")):
            return st
        if isinstance(val, tuple):
            return None
        if self.isworld(o) or o.startswith("N:"):
            return st
        return None

    def strrel(self, x, y, caseless, n=None):
        for a in (x, y):
            if isinstance(a, tuple) and a[0] == "qs" and a[1] == "nowhere":
                return "!"
        if isinstance(x, tuple) and isinstance(y, tuple) and \
                x[0] == y[0] == "qs" and "cat:" in x[1] + y[1]:
            return "=" if x[1] == y[1] else "!"
        return super().strrel(x, y, caseless, n)

    def enter(self, ai, func, args, st):
        for (u, ty, n), v in zip(func.params, args):
            if v and len(v) == 1:
                (a,) = v
                if isinstance(a, tuple) and a[0] == "p" and \
                        re.match(r"C\.priv\.rq\{[<>*^]\}", a[1]) and a[2]:
                    # another request: it is fulfilled, or not
                    return [(st, ZERO), (st, ONE)]
        return None

    def call(self, ai, fn, name, e, args, st):
        if name in ("ort_msg", "ort_msgv"):
            return [(st, None)]
        if name in ("gen_errx", "gen_err") and "P11D" in os.environ:
            print(name, [a for a in args[1:]], e.line)
        if name == "calloc":
            k = sum(t[0] == "NEW" for t in st.tags)
            if k > 12:
                raise Fatal("too many allocations at %s" %
                            getattr(e, "line", "?"))
            o = "N:%02d" % k
            return [(st.tag(("NEW", o)), ptr(o))]
        if name == "strdup":
            return [(st, args[0])]
        if name == "asprintf":
            return self.asprintf(ai, e, args, st)
        if name in ("strcmp", "strcasecmp") and all(
                v is not None and len(v) == 1 and list(v)[0][:1] == ("s",)
                for v in args[:2] if v != ZERO):
            a, b = (list(v)[0][1] for v in args[:2])
            if name == "strcasecmp":
                a, b = a.lower(), b.lower()
            return [(st, ZERO if a == b else
                     frozenset(["N"]) if a < b else POS)]
        if name == "qsort":
            return self.qsort(ai, e, args, st)
        if name == "free":
            return [(st, None)]
        return super().call(ai, fn, name, e, args, st)

    def qsort(self, ai, e, args, st):
        """Sort an array whose elements are all known."""
        arr, n, sz, cmp = args
        fail = [(st.tag(("UNSORTED",)), None)]
        if arr is not None:
            s2 = st
            for l in list(st.f):
                if any(isinstance(x, tuple) and x[0] == "p" and
                       l[0] == x[1] for x in arr) and "[" in l[1]:
                    s2 = s2.set(l, None)
            fail = [(s2, None)]
        if any(v is None or len(v) != 1 for v in (arr, n, cmp)):
            return fail
        (a,), (k,), (c,) = arr, n, cmp
        if not isinstance(a, tuple) or not isinstance(k, int) or \
                not isinstance(c, tuple) or c[0] != "f":
            return fail
        base = a[2]
        locs = [(a[1], base + "[%d]" % i) for i in range(k)]
        els = [st.f.get(l) for l in locs]
        if any(v is None or len(v) != 1 for v in els):
            return fail
        fn = self.prog.func(c[1])
        if fn is None:
            return fail
        before = [[None] * k for i in range(k)]
        for i in range(k):
            for j in range(k):
                if i == j:
                    continue
                rs = ai.inline(fn, e, [frozenset([("p",) + locs[i]]),
                                       frozenset([("p",) + locs[j]])], st)
                vs = {absint.signs(v) for s, v in rs if v is not None}
                if len(vs) != 1 or any(v is None for s, v in rs):
                    return fail
                (v,) = vs
                before[i][j] = v
        order = list(range(k))
        import functools

        def c2(i, j):
            v = before[i][j]
            if v is None:
                return 0
            return -1 if v <= {"N"} or all(
                isinstance(x, int) and x < 0 for x in v) else \
                0 if v == ZERO else 1
        for v in sum(before, []):
            if v is not None and len({x if isinstance(x, str) else
                                      (x > 0) - (x < 0) for x in v}) != 1:
                return fail
        order.sort(key=functools.cmp_to_key(c2))
        for l, i in zip(locs, order):
            st = st.set(l, els[i])
        return [(st, None)]

    def asprintf(self, ai, e, args, st):
        dst, fmt = args[0], args[1]
        out = None
        if fmt is not None and len(fmt) == 1:
            (f,) = fmt
            if isinstance(f, tuple) and f[0] == "s" and f[1] == "%s.%s":
                ps = []
                for v in args[2:]:
                    (a,) = v if v is not None and len(v) == 1 else (None,)
                    if not isinstance(a, tuple) or a[0] != "qs":
                        break
                    ps.append(a[1])
                else:
                    out = frozenset([("qs", "cat:" + ".".join(
                        p.replace("cat:", "") for p in ps), 0)])
        if dst is not None and len(dst) == 1:
            (a,) = dst
            if isinstance(a, tuple) and a[0] == "p":
                if out is None:
                    out = frozenset([("qs", "text@%s" % e.id, 0)])
                st = ai.store(st, (a[1], a[2]), out, "char *")
        return [(st, POS)]

    def get(self, st, o, path):
        v = st.f.get((o, path))
        if v is not None:
            return v
        if (o, path) in self.inits:
            return None
        w = self.attrval(o, path)
        return None if w is NotImplemented else w

    def link(self):
        fn = self.prog.func("ort_parse_close")
        ai = AI(self.prog, self)
        f = {("v:" + fn.params[0][0], ""): ptr("C")}
        for (o, p), v in self.vals.items():
            if not o.startswith("~") and "[" not in p:
                f[(o, p)] = v
                self.inits.add((o, p))
        res = ai.run(fn, State(f, frozenset()))
        self.ai = ai
        return res


def ptr(o):
    return frozenset([("p", o, "")])
