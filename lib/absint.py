"""Interprocedural, context-sensitive, path-sensitive dataflow over finite
abstract values.

An abstract state maps locations to finite sets of atoms and carries a set of
typestate tags.  No solver is involved, no path condition is ever kept as a
formula: branches only filter finite atom sets; loops run to a fixpoint with
joining once a node has more than LIMIT states.

Atoms: ints; 'N' some negative int; 'P' some positive int / some non-null
pointer; ('p', obj, path) address inside a symbolic object; ('s', text) string
literal; ('f', name) function.  None (as a whole value) is "anything"."""
import re, sys
from collections import deque

sys.setrecursionlimit(100000)

DVAR = re.compile(r"d:v:([^.\]]+)")

ZERO = frozenset([0])
ONE = frozenset([1])
POS = frozenset(["P"])
NEG = frozenset(["N"])
ANYINT = frozenset(["N", 0, "P"])
ANYUINT = frozenset([0, "P"])
NONZERO = frozenset(["N", "P"])


class Blowup(Exception):
    pass


class State:
    __slots__ = ("f", "tags", "_k")

    def __init__(self, f, tags):
        self.f = f
        self.tags = tags
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.f.items()), self.tags)
        return self._k

    def set(self, loc, v):
        if v is None:
            if loc not in self.f:
                return self
            f = dict(self.f)
            del f[loc]
            return State(f, self.tags)
        if self.f.get(loc) == v:
            return self
        f = dict(self.f)
        f[loc] = v
        return State(f, self.tags)

    def tag(self, *t):
        n = self.tags | frozenset(t)
        return self if n == self.tags else State(self.f, n)

    def untag(self, pred):
        n = frozenset(t for t in self.tags if not pred(t))
        return self if n == self.tags else State(self.f, n)

    def has(self, t):
        return t in self.tags


def join_states(a, b):
    f = {}
    for k, v in a.f.items():
        w = b.f.get(k)
        if w is None:
            continue
        if v == w:
            f[k] = v
            continue
        u = v | w
        if len(u) > 40:
            u = signs(u)
            if u is None:
                continue
        f[k] = u
    return State(f, a.tags)


def signs(v):
    o = set()
    for a in v:
        if isinstance(a, int):
            o.add(0 if a == 0 else ("P" if a > 0 else "N"))
        elif a in ("N", "P"):
            o.add(a)
        else:
            return None
    return frozenset(o)


def atruth(a):
    """Truth of an atom."""
    return a != 0


QCMP = [None]     # comparison of opaque ("qs"/"qn") atoms, set by a model
PTRCMP = [None]   # relation of two pointers: subset of {"=", "!"}


def addressof(l):
    """The value of the address of this location."""
    if l[0].startswith("L:"):
        i = l[1][1:-1]
        if i.isdigit() and int(i) <= len(l[0]) - 2:
            return ("s", l[0][2 + int(i):])
    return ("p", l[0], l[1])


def opaque_atom(a):
    return isinstance(a, tuple) and a[0] in ("qs", "qn", "iv")


def interval(a):
    """Range of an int atom.  ("iv", id, lo, hi, mul, add): mul times the
    unknown number id plus add, known to lie within lo and hi."""
    if isinstance(a, tuple):
        return (a[2], a[3])
    if a == "N":
        return (float("-inf"), -1)
    if a == "P":
        return (1, float("inf"))
    return (a, a)


def ivarith(op, x, y):
    """Arithmetic of an interval atom and a known int."""
    if op == "*" and isinstance(x, int):
        x, y = y, x
    if op == "+" and isinstance(x, int):
        x, y = y, x
    if op == "-" and isinstance(x, int):
        x, y, op = ivneg(y), x, "+"
    if not (isinstance(x, tuple) and isinstance(y, int)):
        return None
    _, i, lo, hi, m, a = x
    if op == "-":
        y, op = -y, "+"
    if op == "+":
        return {("iv", i, lo + y, hi + y, m, a + y)}
    if op == "*" and y:
        lo, hi = sorted((lo * y, hi * y))
        return {("iv", i, lo, hi, m * y, a * y)}
    return None


def ivneg(x):
    return ("iv", x[1], -x[3], -x[2], -x[4], -x[5])


def acmp(op, x, y):
    """Possible truth values of atom comparison x op y."""
    if x[:1] == ("iv",) if isinstance(x, tuple) else \
            y[:1] == ("iv",) if isinstance(y, tuple) else False:
        if isinstance(x, tuple) and isinstance(y, tuple) and \
                x[:1] + y[:1] == ("iv", "iv"):
            if x[1] == y[1] and x[4] == y[4]:
                x, y = x[5], y[5]
            elif op in ("==", "!=") and x[1] != y[1]:
                return (op == "!=",)
        if not (isinstance(x, tuple) and x[0] != "iv") and \
                not (isinstance(y, tuple) and y[0] != "iv"):
            return rcmp(op, interval(x), interval(y))
    if opaque_atom(x) or opaque_atom(y):
        if (x == 0 or y == 0) and "qn" not in (x if y == 0 else y)[:1]:
            return (op == "!=",)
        if QCMP[0] is not None and opaque_atom(x) and opaque_atom(y):
            return QCMP[0](op, x, y)
        return (True, False)
    if isinstance(x, int) and isinstance(y, int):
        r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y,
             "<=": x <= y, ">=": x >= y}[op]
        return (r,)
    px = not isinstance(x, int) and x not in ("N", "P")
    py = not isinstance(y, int) and y not in ("N", "P")
    if px or py:
        if op in ("==", "!="):
            if PTRCMP[0] is not None and px and py:
                r = PTRCMP[0](x, y)
                if r is not None:
                    return tuple((c == "=") == (op == "==") for c in r)
            if x == y and px and x[0] != "s":
                return (op == "==",)
            if x == 0 or y == 0:
                return (op == "!=",)
            if px and py and x[0] == "p" and y[0] == "p" and \
                    "E[" not in x[1] and "E[" not in y[1] and \
                    not x[1].startswith("alloc") and x[1] == y[1]:
                return (op == "!=",)
            if px and py and x[0] == "p" and y[0] == "p" and \
                    x[1] != y[1] and "N:" in (x[1][:2], y[1][:2]):
                return (op == "!=",)    # a fresh object
        return (True, False)
    return rcmp(op, interval(x), interval(y))


def rcmp(op, x, y):
    """Possible truth values of comparing numbers within two ranges."""
    (a, b), (c, d) = x, y
    out = []
    if op == "==":
        out = [True, False] if not (b < c or d < a) else [False]
        if a == b == c == d:
            out = [True]
    elif op == "!=":
        out = [True, False] if not (b < c or d < a) else [True]
        if a == b == c == d:
            out = [False]
    elif op == "<":
        if a < d:
            out.append(True)
        if b >= c:
            out.append(False)
    elif op == ">":
        if b > c:
            out.append(True)
        if a <= d:
            out.append(False)
    elif op == "<=":
        if a <= d:
            out.append(True)
        if b > c:
            out.append(False)
    elif op == ">=":
        if b >= c:
            out.append(True)
        if a < d:
            out.append(False)
    return tuple(out)


SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def isptr(ty):
    return ty.rstrip().endswith("*") or "(*" in ty


def isunsigned(ty):
    return ty.startswith(("size_t", "unsigned", "uint", "uid_t", "gid_t")) or \
        ty in ("size_t",)


class Model:
    """Property-specific part.  Override what is needed."""
    symbolic = False        # name unseen pointer targets symbolically
    maxrets = 400           # returns per activation before joining
    widenat = 6             # values beyond which a growing set is widened
    limit = 60              # states per node before joining
    maxinc = 3              # counters beyond this lose their value
    maxdepth = 8            # nesting of symbolic object names
    nullable = True
    zerofields = ()         # fields known to be zero after memset(x, 0, ..)
    splitptr = False        # one state per object a pointer may denote
    variadics = False       # pass variable arguments into functions
    literals = False        # read the characters of constant strings

    def readable(self, text):
        return self.literals

    def inclimit(self, fn):
        return self.maxinc
    synpaths = False        # remember results stored through opaque pointers

    def track(self, obj, path, ty):
        return False

    def call(self, ai, fn, name, e, args, st):
        """Model a call; None: default treatment.
        Otherwise list of (state, value)."""
        return None

    def enter(self, ai, func, args, st):
        """Called before inlining; may return list of (state, value) to
        replace it."""
        return None

    def leave(self, ai, func, res):
        return res

    def nullderef(self, ai, e, st, definite):
        pass

    def load(self, ai, loc, ty, st):
        return NotImplemented

    def store(self, ai, loc, val, e, st):
        return None

    def opaque(self, name):
        return False

    def assumed(self, ai, e, loc, val, st):
        return st


class AI:
    def __init__(self, prog, model):
        self.p = prog
        self.m = model
        self.table = {}
        self.info = {}
        self.deps = {}
        self.dirty = set()
        self.keys = []
        self.stack = []
        self.calls_analysed = set()
        self.funcs_analysed = set()
        self.nodes_analysed = set()
        self.steps = 0
        self.maxsteps = 40_000_000
        self.cur = None
        self.incomplete = set()

    # ---------------------------------------------------------- values
    def enumvals(self, ty):
        ty = ty.replace("const ", "").strip()
        if ty.startswith("enum "):
            l = self.p.enums.get(ty[5:])
            if l:
                return frozenset(v for n, v in l if not n.endswith("__MAX"))
        return None

    def typetop(self, ty):
        ev = self.enumvals(ty)
        if ev:
            return ev
        if isptr(ty):
            return None
        return None

    def expand(self, v, ty):
        """Make an unknown value explicit so it can be filtered."""
        if v is not None:
            return v
        ev = self.enumvals(ty)
        if ev:
            return ev
        if isptr(ty) or isunsigned(ty):
            return ANYUINT
        return ANYINT

    # -------------------------------------------------------- locations
    def load(self, st, loc, ty):
        if loc is None:
            return self.typetop(ty)
        v = st.f.get(loc)
        if v is not None:
            return v
        r = self.m.load(self, loc, ty, st)
        if r is not NotImplemented:
            return r
        o, path = loc
        if o.startswith("v:"):
            return self.typetop(ty)
        if o.startswith("L:"):
            i = 0 if path == "" else int(path[1:-1]) \
                if path[1:-1].isdigit() else -1
            t = o[2:] + "\0"
            return frozenset([ord(t[i])]) if 0 <= i < len(t) else None
        if o.startswith("g:"):
            r = self.globalload(o[2:], path, ty)
            if r is not NotImplemented:
                return r
        ev = self.enumvals(ty)
        if ev:
            return ev
        if self.m.symbolic and isptr(ty):
            return self.symptr(o, path, ty)
        return None

    def symptr(self, o, path, ty):
        if ty.replace("const ", "").strip() in ("char *",):
            return frozenset([0, ("p", "%s.%s" % (o, path), "")]) \
                if self.m.nullable else None
        if path.endswith("tqh_first"):
            n = "E[%s.%s]@?" % (o, path[:-len(".tqh_first")])
        elif path.endswith("tqe_next"):
            if o.startswith("E[") and "]@" in o:
                n = o[:o.rindex("]@")] + "]@?"
            else:
                n = "E[~%s]@?" % o
        else:
            n = "%s.%s" % (o, path)
        if n.count(".") > self.m.maxdepth:
            return None
        n = self.canon(n)
        return frozenset([0, ("p", n, "")])

    def canon(self, n):
        return n

    def globalload(self, name, path, ty):
        g = self.p.globalvar(name, self.cur.file if self.cur else None)
        if g is None or g[1] is None:
            return NotImplemented
        init = g[1]
        gty = g[0]
        if "const" not in gty and "[" not in gty:
            return NotImplemented
        m = re.match(r"(?:const )?struct (\w+|\(.*?\))", gty)
        return self.initval(init, path, ty, m.group(1) if m else None)

    def initval(self, init, path, ty, rec=None):
        if path == "" and init.k == "list" and init.args:
            return self.initval(init.args[0], "", ty, rec)
        if path == "":
            return self.constexpr(init)
        if path.startswith("["):
            k, _, rest = path[1:].partition("]")
            rest = rest.lstrip(".")
            if init.k != "list":
                return NotImplemented
            if k == "?":
                out = set()
                for a in init.args:
                    v = self.initval(a, rest, ty, rec)
                    if v is NotImplemented or v is None:
                        return NotImplemented
                    out |= v
                return frozenset(out)
            k = int(k)
            if 0 <= k < len(init.args):
                return self.initval(init.args[k], rest, ty, rec)
            return ZERO
        if init.k == "list" and rec in self.p.records:
            names = [n for n, t in self.p.records[rec]]
            if path in names and names.index(path) < len(init.args):
                return self.initval(init.args[names.index(path)], "", ty)
        return NotImplemented

    def constexpr(self, e):
        if e.k == "int":
            return frozenset([e.v])
        if e.k == "enum":
            return frozenset([self.p.enumof[e.v][1]])
        if e.k == "str":
            return frozenset([("s", e.v)])
        if e.k == "fn":
            return frozenset([("f", e.v)])
        if e.k == "un" and e.v == "-" and e.a.k == "int":
            return frozenset([-e.a.v])
        return NotImplemented

    def tracked(self, loc, ty):
        if loc is None:
            return False
        o, path = loc
        if o.startswith("v:") and path == "":
            return True
        if o.startswith("d:"):
            return self.m.synpaths
        return self.m.track(o, path, ty)

    def store(self, st, loc, v, ty, e=None):
        r = self.m.store(self, loc, v, e, st)
        if r is not None:
            st = r
        if loc is None:
            return st
        o, path = loc
        if self.m.synpaths:
            pre = "d:%s.%s" % loc
            dead = [k for k in st.f if pre in k[0] or pre in k[1]]
            if dead:
                f = dict(st.f)
                for k in dead:
                    del f[k]
                st = State(f, st.tags)
            if o.startswith("d:"):
                if v != ZERO and v != POS:
                    v = None
                return st.set(loc, v)
        # kill sub-locations (struct assignment) and bit facts
        pre = path + "." if path else ""
        dead = [k for k in st.f if k[0] == o and k != loc and
                (k[1].startswith(path + "#") or
                 (pre and k[1].startswith(pre)) or
                 (not path and k[1] and "struct" in ty))]
        if dead:
            f = dict(st.f)
            for k in dead:
                del f[k]
            st = State(f, st.tags)
        if "[?]" in path or "[]" in path:
            return st.set(loc, None)
        if not self.tracked(loc, ty):
            return st
        if v is not None and loc[0].startswith("v:"):
            # freshly loaded list elements get a name per receiving variable
            ren = None
            for a in v:
                if isinstance(a, tuple) and a[0] == "p" and \
                        a[1].endswith("]@?"):
                    ren = ren or set()
                    ren.add(a)
            if ren:
                nv = set(v) - ren
                u = o[2:]
                for a in ren:
                    nn = a[1][:-1] + u.replace("#", "_")
                    nv.add(("p", nn, a[2]))
                    dead = [k for k in st.f if k[0].startswith(nn) or
                            (k[0].find(nn) >= 0)]
                    if dead:
                        f = dict(st.f)
                        for k in dead:
                            del f[k]
                        st = State(f, st.tags)
                    st = self.freshelem(st, nn)
                v = frozenset(nv)
        if v is not None and len(v) > 60:
            v = signs(v)
        return st.set(loc, v)

    def freshelem(self, st, name):
        return st

    # ------------------------------------------------------- evaluation
    def evloc(self, e, st):
        """Evaluate an lvalue: list of (state, loc or None)."""
        k = e.k
        if k == "var":
            if e.vk == "global":
                return [(st, ("g:" + e.uid, ""))]
            return [(st, ("v:" + e.uid, ""))]
        if k == "mem":
            if e.c:
                out = []
                for s, v, l in self.ev(e.a, st):
                    out.extend(self.deref(e, s, v, l, e.v))
                return out
            return [(s, None if l is None else
                     (l[0], (l[1] + "." + e.v) if l[1] else e.v))
                    for s, l in self.evloc(e.a, st)]
        if k == "un" and e.v == "*":
            out = []
            for s, v, l in self.ev(e.a, st):
                out.extend(self.deref(e, s, v, l, ""))
            return out
        if k == "idx":
            out = []
            for s, v, l in self.ev(e.a, st):
                for s2, i, il in self.ev(e.b, s):
                    syn = None
                    if self.m.synpaths and l is not None and \
                            l[0].count("d:") < 2:
                        if il is not None and il[0].count("d:") < 2:
                            syn = ("d:%s.%s" % l, "[d:%s.%s]" % il)
                        elif i is not None and len(i) == 1:
                            syn = ("d:%s.%s" % l, "[%s]" % list(i)[0])
                        elif e.b.k == "bin" and e.b.v in "+-" and \
                                e.b.b.k == "int":
                            for s9, l9 in self.evloc(e.b.a, s2) \
                                    if e.b.a.k in ("var", "mem") else ():
                                if l9 is not None and \
                                        l9[0].count("d:") < 2:
                                    syn = ("d:%s.%s" % l, "[d:%s.%s%s%d]" %
                                           (l9 + (e.b.v, e.b.b.v)))
                    if v is None or v == POS:
                        out.append((s2, syn))
                        continue
                    for s3, bl in self.deref(e, s2, v, l, ""):
                        if bl is None:
                            out.append((s3, None))
                            continue
                        if i is not None and all(isinstance(x, int)
                                                 for x in i):
                            for x in i:
                                s4 = s3
                                if len(i) > 1 and il is not None and \
                                        self.tracked(il, e.b.ty):
                                    s4 = s3.set(il, frozenset([x]))
                                out.append((s4, (bl[0],
                                                 bl[1] + "[%d]" % x)))
                        elif i is not None and len(i) == 1 and \
                                opaque_atom(list(i)[0]):
                            out.append((s3, (bl[0], bl[1] + "[%s/%s]" %
                                             list(i)[0][1:3])))
                        else:
                            out.append((s3, (bl[0], bl[1] + "[?]")))
            return out
        if k == "cond":
            out = []
            t, f = self.assume(e.a, st)
            for s in t:
                out.extend(self.evloc(e.b, s))
            for s in f:
                out.extend(self.evloc(e.c, s))
            return out
        if k == "call":
            out = []
            for s, v, l in self.ev(e, st):
                out.append((s, None))
            return out
        if k in ("unk", "str", "int"):
            return [(st, None)]
        return [(s, l) for s, v, l in self.ev(e, st)]

    def deref(self, e, st, v, ptrloc, field):
        """Dereference pointer value v; list of (state, loc)."""
        syn = None
        if self.m.synpaths and ptrloc is not None and \
                ptrloc[0].count("d:") < 2:
            syn = ("d:%s.%s" % ptrloc, field)
        if v is None:
            return [(st, syn)]
        atoms = [a for a in v if a != 0]
        if 0 in v:
            self.m.nullderef(self, e, st, not atoms)
            if not atoms:
                return []
        out = []
        for a in atoms:
            s = st
            if len(v) > 1 and ptrloc is not None and \
                    self.tracked(ptrloc, e.a.ty if e.a is not None else ""):
                s = st.set(ptrloc, frozenset([a]))
            if isinstance(a, tuple) and a[0] == "p":
                p = a[2]
                if field:
                    p = p + "." + field if p else field
                out.append((s, (a[1], p)))
            elif isinstance(a, tuple) and a[0] == "s":
                out.append((s, ("L:" + a[1], field)
                            if self.m.readable(a[1]) else None))
            elif isinstance(a, tuple) and a[0] == "qs" and syn is None:
                out.append((s, ("S:" + a[1], field)))
            else:
                out.append((s, syn))
        return out

    def ev(self, e, st):
        """Evaluate: list of (state, value, loc or None)."""
        k = e.k
        if k == "int":
            return [(st, frozenset([e.v]), None)]
        if k == "enum":
            return [(st, frozenset([self.p.enumof[e.v][1]])
                     if e.v in self.p.enumof else None, None)]
        if k == "str":
            return [(st, frozenset([("s", e.v)]), None)]
        if k == "fn":
            return [(st, frozenset([("f", e.v)]), None)]
        if k == "var":
            o = ("g:" if e.vk == "global" else "v:") + e.uid
            if e.ty.rstrip().endswith("]"):
                return [(st, frozenset([("p", o, "")]), None)]
            loc = (o, "")
            return [(st, self.load(st, loc, e.ty), loc)]
        if k in ("mem", "idx"):
            out = []
            for s, l in self.evloc(e, st):
                if e.ty.rstrip().endswith("]") and l is not None:
                    out.append((s, frozenset([("p", l[0], l[1])]), None))
                else:
                    out.append((s, self.load(s, l, e.ty), l))
            return out
        if k == "un":
            op = e.v
            if op == "&":
                return [(s, None if l is None else
                         frozenset([addressof(l)]), None)
                        for s, l in self.evloc(e.a, st)]
            if op == "*":
                return [(s, self.load(s, l, e.ty), l)
                        for s, l in self.evloc(e, st)]
            if op == "!":
                t, f = self.assume(e.a, st)
                return [(s, ZERO, None) for s in t] + \
                    [(s, ONE, None) for s in f]
            if op == "(void)":
                return self.ev(e.a, st)
            out = []
            for s, v, l in self.ev(e.a, st):
                if v is not None and op == "-":
                    r = set()
                    for a in v:
                        if isinstance(a, int):
                            r.add(-a)
                        elif a == "N":
                            r.add("P")
                        elif a == "P":
                            r.add("N")
                        elif isinstance(a, tuple) and a[0] == "iv":
                            r.add(ivneg(a))
                    v = frozenset(r)
                elif v is not None and op == "~" and \
                        all(isinstance(a, int) for a in v):
                    v = frozenset(~a for a in v)
                elif op == "+":
                    pass
                else:
                    v = None
                out.append((s, v, None))
            return out
        if k == "bin":
            return self.evbin(e, st)
        if k == "asg":
            return self.evasg(e, st)
        if k == "inc":
            out = []
            for s, l in self.evloc(e.a, st):
                v = self.load(s, l, e.a.ty)
                d = 1 if "++" in e.v else -1
                nv = self.arith("+", v, frozenset([d]), e.a.ty)
                s2 = self.store(s, l, nv, e.a.ty, e)
                out.append((s2, v if e.v.startswith("post") else nv, None))
            return out
        if k == "cond":
            t, f = self.assume(e.a, st)
            out = []
            for s in t:
                out.extend(self.ev(e.b, s))
            for s in f:
                out.extend(self.ev(e.c, s))
            return out
        if k == "call":
            return [(s, v, None) for s, v in self.evcall(e, st)]
        if k == "sizeof":
            return [(st, POS, None)]
        if k == "list":
            sts = [st]
            for a in e.args:
                sts = [s2 for s in sts for s2, v, l in self.ev(a, s)]
            return [(s, None, None) for s in sts]
        return [(st, None, None)]

    def arith(self, op, a, b, ty):
        if a is None or b is None:
            return None
        r = set()
        for x in a:
            for y in b:
                v = self.arith1(op, x, y, ty)
                if v is None:
                    return None
                r |= v
        if len(r) > 40:
            return signs(r)
        return frozenset(r)

    def arith1(self, op, x, y, ty):
        if isinstance(x, int) and isinstance(y, int):
            try:
                if op == "+":
                    v = x + y
                elif op == "-":
                    v = x - y
                elif op == "*":
                    v = x * y
                elif op == "/":
                    v = x // y if y else None
                elif op == "%":
                    v = x % y if y else None
                elif op == "|":
                    v = x | y
                elif op == "&":
                    v = x & y
                elif op == "^":
                    v = x ^ y
                elif op == "<<":
                    v = x << y if 0 <= y < 64 else None
                elif op == ">>":
                    v = x >> y if 0 <= y < 64 else None
                else:
                    return None
            except Exception:
                return None
            if v is None:
                return None
            lim = self.m.inclimit(self.cur)
            if op in ("+", "-") and abs(v) > lim and \
                    not (abs(x) > lim and op == "-"):
                return {"P" if v > 0 else "N"}
            return {v}
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and x[0] == "s" and op == "+" and \
                    self.m.readable(x[1]) and isinstance(y, int):
                return {("s", x[1][y:])} if 0 <= y <= len(x[1]) else None
            if isinstance(x, tuple) and x[0] == "qs" and op == "+" and \
                    isinstance(y, (int, str)):
                return {("p", "S:" + x[1], "[?]")}
            if opaque_atom(x) or opaque_atom(y):
                if "iv" in (x[:1] + y[:1] if isinstance(x, tuple) and
                            isinstance(y, tuple) else
                            x[:1] if isinstance(x, tuple) else y[:1]):
                    return ivarith(op, x, y)
                return None
            if isinstance(x, tuple) and op in "+-" and \
                    not isinstance(y, tuple):
                return {"P"} if x[0] != "p" else {("p", x[1], x[2] + "[?]"
                                                   if not x[2].endswith("[?]")
                                                   else x[2])}
            return None
        if op == "+":
            if y == 0:
                return {x}
            if x == 0:
                return {y}
            sx = "P" if (x == "P" or (isinstance(x, int) and x > 0)) else "N"
            sy = "P" if (y == "P" or (isinstance(y, int) and y > 0)) else "N"
            if sx == sy:
                return {sx}
            if isunsigned(ty):
                return {0, "P"}
            return {"N", 0, "P"}
        if op == "-":
            if y == 0:
                return {x}
            if isunsigned(ty):
                return {0, "P"}
            return {"N", 0, "P"}
        if op == "*":
            if x == 0 or y == 0:
                return {0}
            sx = "P" if (x == "P" or (isinstance(x, int) and x > 0)) else "N"
            sy = "P" if (y == "P" or (isinstance(y, int) and y > 0)) else "N"
            return {"P"} if sx == sy else {"N"}
        if op == "|":
            return {"P"} if x == "P" or y == "P" else None
        return None

    def bitloc(self, e, st):
        """x & CONST-single-bit with x an lvalue: pseudo location."""
        if e.k != "bin" or e.v != "&":
            return None
        for a, b in ((e.a, e.b), (e.b, e.a)):
            if a.k in ("var", "mem") and b.k in ("int", "enum"):
                m = b.v if b.k == "int" else self.p.enumof[b.v][1]
                if m and m & (m - 1) == 0:
                    return a, m
        return None

    def evbin(self, e, st):
        op = e.v
        if op == ",":
            out = []
            for s, v, l in self.ev(e.a, st):
                out.extend(self.ev(e.b, s))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            t, f = self.assume(e, st)
            return [(s, ONE, None) for s in t] + [(s, ZERO, None) for s in f]
        bl = self.bitloc(e, st)
        if bl:
            a, m = bl
            out = []
            for s, l in self.evloc(a, st):
                v = self.load(s, l, a.ty)
                if v is not None and all(isinstance(x, int) for x in v):
                    r = frozenset((x & m) for x in v)
                    out.append((s, r, None))
                    continue
                if l is None:
                    out.append((s, frozenset([0, "P"]), None))
                    continue
                bloc = (l[0], l[1] + "#%x" % m)
                b = s.f.get(bloc)
                if b is None:
                    b = self.m.load(self, bloc, "bit", s)
                    if b is NotImplemented or b is None:
                        b = frozenset([0, "P"])
                out.append((s, b, bloc))
            return out
        out = []
        for s, v, l in self.ev(e.a, st):
            for s2, w, l2 in self.ev(e.b, s):
                out.append((s2, self.arith(op, v, w, e.ty), None))
        return out

    def evasg(self, e, st):
        out = []
        if e.v in ("=", "=init"):
            if e.b.k == "list":
                rs = [(s, None, None) for s, v, l in self.ev(e.b, st)]
            else:
                rs = self.ev(e.b, st)
            if self.m.splitptr:
                rs = self.splitvals(rs)
            for s, v, vl in rs:
                for s2, l in self.evloc(e.a, s):
                    ty = e.a.ty
                    s3 = self.store(s2, l, v, ty, e)
                    if e.b.k in ("list", "str") and l is not None and \
                            l[0].startswith("v:"):
                        s3 = self.arrayinit(s3, l, ty, e)
                    if l is not None and vl is not None and \
                            "struct" in ty and not isptr(ty):
                        s3 = self.copystruct(s3, l, vl)
                    # value as stored (elements may have been renamed)
                    nv = s3.f.get(l, v) if l is not None and \
                        self.tracked(l, ty) else v
                    out.append((s3, nv, l))
            return out
        op = e.v[:-1]
        for s, l in self.evloc(e.a, st):
            v = self.load(s, l, e.a.ty)
            bit = None
            for s2, w, _ in self.ev(e.b, s):
                nv = self.arith(op, v, w, e.a.ty)
                if op in ("|", "&") and w is not None and len(w) == 1 and \
                        l is not None and nv is None:
                    (m,) = w
                    if isinstance(m, int):
                        # flag update on an otherwise unknown word
                        f = dict(s2.f)
                        if self.tracked(l, e.a.ty):
                            for b in range(32):
                                bb = 1 << b
                                kk = (l[0], l[1] + "#%x" % bb)
                                if op == "|" and m & bb:
                                    f[kk] = POS
                                elif op == "&" and not m & bb and m < 0:
                                    if b < 20:
                                        f[kk] = ZERO
                        r = self.m.store(self, l, ("bits", op, m), e, s2)
                        s3 = State(f, s2.tags)
                        if r is not None:
                            s3 = State(f, r.tags)
                        s3 = s3.set(l, None)
                        out.append((s3, None, l))
                        continue
                out.append((self.store(s2, l, nv, e.a.ty, e), nv, l))
        return out

    def arrayinit(self, st, l, ty, e):
        """{ ... } of a local array of integers, or a string of characters."""
        m = re.match(r"^(?:const )?((?:unsigned |signed )?char|int)\s*"
                     r"\[(\d+)\]$", ty)
        if not m or int(m.group(2)) > 64:
            return st
        et = m.group(1)
        if not self.tracked((l[0], l[1] + "[0]"), et):
            return st
        f = dict(st.f)
        for i in range(int(m.group(2))):
            v = ZERO
            if e.b.k == "str":
                if i < len(e.b.v):
                    v = frozenset([ord(e.b.v[i])])
            elif i < len(e.b.args):
                rs = self.ev(e.b.args[i], st)
                v = rs[0][1] if len(rs) == 1 else None
            if v is None:
                f.pop((l[0], l[1] + "[%d]" % i), None)
            else:
                f[(l[0], l[1] + "[%d]" % i)] = v
        return State(f, st.tags)

    def splitvals(self, rs):
        out = []
        for s, v, l in rs:
            if v is not None and len(v) > 1 and any(
                    isinstance(x, tuple) and x[0] == "p" for x in v):
                out += [(s, frozenset([a]), l) for a in v]
            else:
                out.append((s, v, l))
        return out

    def copystruct(self, st, dst, src):
        add = {}
        for (o, p), v in st.f.items():
            if o == src[0] and (p == src[1] or p.startswith(
                    src[1] + "." if src[1] else "")):
                rest = p[len(src[1]):].lstrip(".")
                if rest:
                    add[(dst[0], (dst[1] + "." + rest) if dst[1]
                         else rest)] = v
        if add:
            f = dict(st.f)
            f.update(add)
            st = State(f, st.tags)
        return st

    # --------------------------------------------------------- branches
    def assume(self, e, st):
        """(states where e holds, states where it does not)."""
        k = e.k
        if k == "un" and e.v == "!":
            t, f = self.assume(e.a, st)
            return f, t
        if k == "call" and e.a.k == "fn" and e.a.v == "__builtin_expect":
            return self.assume(e.args[0], st)
        if k == "bin":
            if e.v == "&&":
                t, f = self.assume(e.a, st)
                t2 = []
                for s in t:
                    a, b = self.assume(e.b, s)
                    t2 += a
                    f = f + b
                return t2, f
            if e.v == "||":
                t, f = self.assume(e.a, st)
                f2 = []
                for s in f:
                    a, b = self.assume(e.b, s)
                    t = t + a
                    f2 += b
                return t, f2
            if e.v == ",":
                t, f = [], []
                for s, v, l in self.ev(e.a, st):
                    a, b = self.assume(e.b, s)
                    t += a
                    f += b
                return t, f
            if e.v in SWAP:
                return self.assumecmp(e, st)
        t, f = [], []
        for s, v, l in self.ev(e, st):
            ty = e.ty
            x = self.expand(v, ty)
            tv = frozenset(a for a in x if a != 0 and
                           not (isinstance(a, tuple) and a[0] == "iv" and
                                a[2] == a[3] == 0))
            fv = frozenset(a for a in x if a == 0 or
                           isinstance(a, tuple) and
                           (a[0] == "qn" or
                            a[0] == "iv" and a[2] <= 0 <= a[3]))
            if tv:
                t.append(self.refine(s, l, tv, v, ty, e))
            if fv:
                f.append(self.refine(s, l, fv, v, ty, e))
        return t, f

    def refine(self, st, loc, nv, old, ty, e):
        if loc is None or nv == old:
            return st
        if old is None and nv is not None and isptr(ty) and "P" in nv and \
                self.m.symbolic:
            pass
        if not self.tracked(loc, ty):
            return st
        if loc[0].startswith("d:") and loc not in st.f:
            if not self.m.synrefine(loc):
                return st
            if nv != ZERO:
                nv = POS if 0 not in nv and isptr(ty) else None
        return self.m.assumed(self, e, loc, nv, st.set(loc, nv))

    def assumecmp(self, e, st):
        op = e.v
        t, f = [], []
        for s, v, l in self.ev(e.a, st):
            for s2, w, l2 in self.ev(e.b, s):
                if l is not None and s2 is not s and l in s2.f:
                    v2 = s2.f[l]
                else:
                    v2 = v
                a = self.expand(v2, e.a.ty if e.a.k != "int" else e.b.ty)
                b = self.expand(w, e.b.ty if e.b.k not in ("int",)
                                else e.a.ty)
                for want, outl in ((True, t), (False, f)):
                    na = frozenset(x for x in a if any(
                        want in acmp(op, x, y) for y in b))
                    if not na:
                        continue
                    nb = frozenset(y for y in b if any(
                        want in acmp(op, x, y) for x in na))
                    # equality with a single known value pins the other side
                    o = op
                    if not want:
                        o = {"==": "!=", "!=": "==", "<": ">=", ">=": "<",
                             ">": "<=", "<=": ">"}[op]
                    if o == "==" and len(nb) == 1:
                        (y,) = nb
                        if y not in ("N", "P") and not isinstance(y, tuple):
                            na = nb
                    elif o == "==" and len(na) == 1:
                        (y,) = na
                        if y not in ("N", "P") and not isinstance(y, tuple):
                            nb = na
                    s3 = s2
                    if v2 is not None or na != a:
                        s3 = self.refine(s3, l, na, v2, e.a.ty, e)
                    if w is not None or nb != b:
                        s3 = self.refine(s3, l2, nb, w, e.b.ty, e)
                    outl.append(s3)
        return t, f

    # ------------------------------------------------------------ calls
    def evargs(self, args, st):
        outs = [(st, ())]
        for a in args:
            nx = []
            for s, vs in outs:
                r = self.ev(a, s)
                if len(r) == 1:
                    nx.append((r[0][0], vs + (r[0][1],)))
                else:
                    seen = set()
                    for s2, v, l in r:
                        kk = (s2.key(), v)
                        if kk in seen:
                            continue
                        seen.add(kk)
                        nx.append((s2, vs + (v,)))
            outs = nx
        return outs

    def evcall(self, e, st):
        name = e.a.v if e.a.k == "fn" else None
        fnexpr = None
        out = []
        if name is None:
            pre = []
            for s, v, l in self.ev(e.a, st):
                fns = [a[1] for a in v if isinstance(a, tuple) and
                       a[0] == "f"] if v else []
                if fns:
                    for n in fns:
                        pre.append((s, n))
                else:
                    pre.append((s, None))
        else:
            pre = [(st, name)]
        for s0, nm in pre:
            for s, args in self.evargs(e.args, s0):
                self.calls_analysed.add((e.file, e.line, nm))
                r = self.m.call(self, e.a, nm, e, args, s)
                if r is not None:
                    out.extend(r)
                    continue
                fn = self.p.resolve(nm, e.file) if nm else None
                if fn is None or self.m.opaque(fn.name):
                    out.extend(self.extern(nm, e, args, s))
                else:
                    out.extend(self.inline(fn, e, args, s))
        # dedupe
        if len(out) > 1:
            seen = {}
            for s, v in out:
                seen[(s.key(), v)] = (s, v)
            out = list(seen.values())
        return out

    def extern(self, nm, e, args, st):
        if nm in NORET:
            return []
        if nm == "memset" and self.m.zerofields and args[0] and \
                len(args) > 1 and args[1] == ZERO and len(args[0]) == 1:
            (a,) = args[0]
            if isinstance(a, tuple) and a[0] == "p" and \
                    a[1].startswith("v:"):
                st = self.extern_kill(st, args[:1], None)
                for z in self.m.zerofields:
                    st = st.set((a[1], (a[2] + "." if a[2] else "") + z),
                                ZERO)
                return [(st, None)]
        rf = self.p.resolve(nm, e.file) if nm else None
        mods = self.p.mods(rf) if rf is not None else None
        st = self.extern_kill(st, args, mods)
        return [(st, self.typetop(e.ty))]

    def extern_kill(self, st, args, mods):
        f = None
        for v in args:
            if v is None:
                continue
            for a in v:
                if isinstance(a, tuple) and a[0] == "p" and \
                        a[1].startswith("v:"):
                    dead = [k for k in st.f if k[0] == a[1] and
                            (not a[2] or k[1].startswith(a[2])) and
                            (mods is None or "*" in mods and k[1] == "" or
                             k[1].split("#")[0].split(".")[-1] in mods)]
                    if dead:
                        f = f if f is not None else dict(st.f)
                        for k in dead:
                            f.pop(k, None)
        if f is not None:
            st = State(f, st.tags)
        return st

    def unmodified(self, k, fn):
        """No field the access path reads is written by fn."""
        mods = self.p.mods(fn)
        names = [x for x in re.split(r"[.\[\]#+-]", k[0] + "." + k[1])
                 if x and not x.startswith(("d:", "v:")) and
                 not x[0].isdigit()]
        return not any(x in mods for x in names)

    def reach(self, st, args):
        """Objects visible to a callee: named by or below the argument
        atoms, plus what the facts of those refer to."""
        roots = set()
        for v in args:
            if v:
                for a in v:
                    if isinstance(a, tuple) and a[0] == "p":
                        roots.add(a[1])
        return roots

    def inline(self, fn, e, args, st):
        m = self.m
        r = m.enter(self, fn, args, st)
        if r is not None:
            return r
        # bind parameters; split off the caller's private facts
        f = {}
        keep = {}
        visible = self.reach(st, args)
        work = list(visible)
        groups = {}
        for k in st.f:
            groups.setdefault(k[0], []).append(k)
        # close over objects referenced from visible facts / name prefixes
        vis = set()
        onames = list(groups)
        while work:
            o = work.pop()
            if o in vis:
                continue
            vis.add(o)
            for n in onames:
                if n not in vis and not n.startswith("v:") and \
                        (n.startswith(o + ".") or ("[" + o + ".") in n):
                    work.append(n)
            for k in groups.get(o, ()):
                for a in st.f[k]:
                    if isinstance(a, tuple) and a[0] == "p" and \
                            a[1] not in vis:
                        work.append(a[1])
        for k, v in st.f.items():
            o = k[0]
            if o.startswith("d:"):
                if not m.killsyn(fn) or self.unmodified(k, fn):
                    keep[k] = v
            elif o in vis or o.startswith("g:") or m.always(o):
                f[k] = v
            else:
                keep[k] = v
        for i, (u, ty, n) in enumerate(fn.params):
            v = args[i] if i < len(args) else None
            v = m.ctxarg(fn, i, v)
            if v is not None:
                f[("v:" + u, "")] = v
        for k in [k for k in f if k[0].startswith("va:")]:
            del f[k]
        if fn.variadic and m.variadics:
            for i, v in enumerate(args[len(fn.params):]):
                if v is not None:
                    f[("va:%d" % i, "")] = v
            f[("va:n", "")] = frozenset([len(args) - len(fn.params)])
        s0 = m.before(self, fn, State(f, st.tags))
        res = self.run(fn, s0)
        res = m.leave(self, fn, res)
        out = []
        for s, v in res:
            s = m.after(self, fn, st, s)
            nf = m.merge(keep, s.f)
            nf.update(s.f)
            out.append((State(nf, s.tags), v))
        return out

    def run(self, fn, s0):
        """Results of fn entered in s0.  Summaries grow monotonically; an
        activation that used an incomplete one is re-analysed."""
        key = (fn.key, s0.key())
        caller = self.keys[-1] if self.keys else None
        if key not in self.table:
            if sum(1 for x in self.stack if x is fn) >= 12:
                self.incomplete.add(fn.name)
                return [(s0.untag(lambda t: False), self.typetop(fn.ret))]
            self.table[key] = {}
            self.info[key] = (fn, s0)
            self.deps[key] = set()
            self.refix(key)
        if caller is not None:
            self.deps[key].add(caller)
        else:
            while self.dirty:
                self.refix(self.dirty.pop())
        return list(self.table[key].values())

    def refix(self, key):
        fn, s0 = self.info[key]
        self.stack.append(fn)
        self.keys.append(key)
        old = self.cur
        self.cur = fn
        self.funcs_analysed.add(fn.key)
        tab = self.table[key]
        try:
            while True:
                self.dirty.discard(key)
                res = self.fix(fn, s0)
                grew = False
                for k, r in res.items():
                    if k not in tab:
                        tab[k] = r
                        grew = True
                if grew:
                    self.dirty |= self.deps[key]
                if key not in self.dirty:
                    break
        finally:
            self.stack.pop()
            self.keys.pop()
            self.cur = old

    @property
    def memo(self):
        return {k: list(v.values()) for k, v in self.table.items()}

    def prune(self, fn, nid, st):
        live = fn.live[nid]
        dead = None
        for k in st.f:
            o = k[0]
            if o.startswith("d:"):
                us = DVAR.findall(o + "." + k[1])
                if us and all(u not in fn.vtypes or u in live or
                              u in fn.addrtaken for u in us):
                    continue
                dead = dead or []
                dead.append(k)
            elif o.startswith("v:"):
                u = o[2:]
                if u in fn.vtypes and u not in live and \
                        u not in fn.addrtaken:
                    dead = dead or []
                    dead.append(k)
        if dead:
            f = dict(st.f)
            for k in dead:
                del f[k]
            return State(f, st.tags)
        return st

    def fix(self, fn, s0):
        seen = {}
        acc = {}
        wl = deque()
        rets = {}
        N = fn.nodes

        def push(nid, st):
            if nid is None:
                return
            st = self.m.pruned(self.prune(fn, nid, st))
            sn = seen.setdefault(nid, {})
            k = st.key()
            if k in sn:
                return
            if len(sn) >= self.m.limit:
                a = acc.setdefault(nid, {})
                jk = self.m.joinkey(st)
                old = a.get(jk)
                if old is not None:
                    j = join_states(old, st)
                    if j.key() == old.key():
                        return
                    # widen
                    j = self.widen(old, j)
                    st = j
                a[jk] = st
                k = st.key()
                if k in sn:
                    return
                if len(sn) > max(4000, self.m.limit * 40):
                    raise Blowup("%s:%s node %s" % (fn.file, fn.name, nid))
            sn[k] = True
            wl.append((nid, st))

        push(fn.entry.id, s0)
        while wl:
            nid, st = wl.popleft()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Blowup("step budget")
            n = N[nid]
            self.node = n
            self.nodes_analysed.add((fn.key, nid))
            k = n.k
            if k == "nop":
                for s in n.succ:
                    push(s, st)
            elif k == "decl":
                o = "v:" + n.e.uid
                dead = [x for x in st.f if x[0] == o]
                if dead:
                    f = dict(st.f)
                    for x in dead:
                        del f[x]
                    st = State(f, st.tags)
                for s in n.succ:
                    push(s, st)
            elif k == "e":
                for s2, v, l in self.ev(n.e, st):
                    for s in n.succ:
                        push(s, s2)
            elif k == "br":
                t, f = self.assume(n.e, st)
                for s2 in t:
                    push(n.succ[0], s2)
                for s2 in f:
                    push(n.succ[1], s2)
            elif k == "sw":
                self.doswitch(n, st, push)
            elif k == "ret":
                if n.e is None:
                    self.addret(rets, fn, st, None)
                else:
                    for s2, v, l in self.ev(n.e, st):
                        self.addret(rets, fn, s2, v)
        return rets

    def addret(self, rets, fn, st, v):
        f = {k: w for k, w in st.f.items()
             if not (k[0].startswith("v:") and k[0][2:] in fn.vtypes) and
             not k[0].startswith(("d:", "va:"))}
        st = self.m.atreturn(self, fn, State(f, st.tags), v)
        rets[(st.key(), v)] = (st, v)
        if len(rets) > self.m.maxrets:
            # collapse: join states per tags and value
            groups = {}
            for s, w in rets.values():
                kk = (self.m.joinkey(s), w)
                groups[kk] = (join_states(groups[kk][0], s), w) \
                    if kk in groups else (s, w)
            if len(groups) > 2000:
                raise Blowup("returns of " + fn.name)
            rets.clear()
            for s, w in groups.values():
                rets[(s.key(), w)] = (s, w)

    def widen(self, old, new):
        f = {}
        for k, v in new.f.items():
            o = old.f.get(k)
            if o is not None and o != v and len(v) > self.m.widenat:
                v = signs(v) or None
                if v is None:
                    # pointer sets: keep, they are finite
                    v = new.f[k]
            f[k] = v
        return State(f, new.tags)

    def doswitch(self, n, st, push):
        for s, v, l in self.ev(n.e, st):
            x = v
            if x is not None and any(opaque_atom(a) for a in x):
                v = x = None
            if x is None:
                x = self.enumvals(n.e.ty)
            taken = set()
            for vals, tgt in n.cases:
                for cv in vals:
                    c = self.p.enumof[cv][1] if isinstance(cv, str) and \
                        cv in self.p.enumof else cv
                    taken.add(c)
                    if x is None or c in x or \
                            (isinstance(c, int) and
                             ((c > 0 and "P" in x) or (c < 0 and "N" in x))):
                        s2 = self.refine(s, l, frozenset([c]), v, n.e.ty, n.e)
                        push(tgt, s2)
            if n.succ and n.succ[0] is not None:
                if x is None:
                    push(n.succ[0], s)
                else:
                    rest = frozenset(a for a in x if a not in taken)
                    if rest:
                        s2 = self.refine(s, l, rest, v, n.e.ty, n.e)
                        push(n.succ[0], s2)


def _ctxarg(self, fn, i, v):
    return v


Model.ctxarg = _ctxarg


def _before(self, ai, fn, st):
    return st


def _after(self, ai, fn, caller, st):
    return st


def _merge(self, keep, f):
    return dict(keep)


def _pruned(self, st):
    return st


Model.pruned = _pruned
Model.merge = _merge
Model.before = _before
Model.after = _after


def _killsyn(self, fn):
    return True


Model.killsyn = _killsyn


def _synrefine(self, loc):
    return False


Model.synrefine = _synrefine


def _always(self, o):
    return False


def _joinkey(self, st):
    return st.tags


def _atreturn(self, ai, fn, st, v):
    return st


Model.always = _always
Model.joinkey = _joinkey
Model.atreturn = _atreturn

NORET = {"abort", "exit", "_exit", "err", "errx", "verr", "verrx",
         "__assert_fail", "usage"}
