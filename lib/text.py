"""Machines that read generated text while it is being emitted.

The text is a string in which every hole (see emit.py) is one private-use
character, so that a machine reads it character by character.  A machine's
state is kept as a tag of the abstract state: paths that are in the same state
of every machine are indistinguishable, so the analysis of generator loops
converges."""
import re
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre
from emit import L, R, HOLE

UNKNOWN = "\ue000"
_codes = {HOLE: UNKNOWN}
_names = {UNKNOWN: HOLE}
HOLERE = re.compile(L + "[^" + R + "]*" + R)


def code(h):
    c = _codes.get(h)
    if c is None:
        c = chr(0xe000 + len(_codes))
        _codes[h] = c
        _names[c] = h
    return c


def encode(t):
    return HOLERE.sub(lambda m: code(m.group(0)), t)


def decode(t):
    return "".join(_names.get(c, c) for c in t)


def ishole(c):
    return "\ue000" <= c <= "\uf8ff"


# ------------------------------------------------------- regular languages
class NFA:
    def __init__(self):
        self.eps = []
        self.tr = []

    def node(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, seq, a):
        for op, av in seq:
            a = self.item(str(op), av, a)
        return a

    def item(self, op, av, a):
        if op in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            b = self.node()
            self.tr[a].append((self.pred(op, av), b))
            return b
        if op == "SUBPATTERN":
            return self.build(av[3], a)
        if op == "BRANCH":
            b = self.node()
            for alt in av[1]:
                s = self.node()
                self.eps[a].append(s)
                self.eps[self.build(alt, s)].append(b)
            return b
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            for _ in range(lo):
                a = self.build(sub, a)
            if hi == sre.MAXREPEAT:
                s = self.node()
                self.eps[a].append(s)
                e = self.build(sub, s)
                self.eps[e].append(s)
                return s
            outs = [a]
            for _ in range(hi - lo):
                a = self.build(sub, a)
                outs.append(a)
            b = self.node()
            for o in outs:
                self.eps[o].append(b)
            return b
        raise ValueError("unsupported in pattern: " + op)

    def pred(self, op, av):
        if op == "LITERAL":
            return ("=", frozenset([av]))
        if op == "NOT_LITERAL":
            return ("!", frozenset([av]))
        if op == "ANY":
            return ("!", frozenset())
        neg = False
        s = set()
        for o, v in av:
            o = str(o)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                s.add(v)
            elif o == "RANGE":
                s |= set(range(v[0], v[1] + 1))
            elif o == "CATEGORY":
                v = str(v)
                k = {"CATEGORY_SPACE": " \t\n\r\f\v",
                     "CATEGORY_DIGIT": "0123456789",
                     "CATEGORY_WORD": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"
                     "KLMNOPQRSTUVWXYZ0123456789_"}
                if v in k:
                    s |= {ord(c) for c in k[v]}
                else:
                    raise ValueError(v)
            else:
                raise ValueError(o)
        return ("!" if neg else "=", frozenset(s))


class Lang:
    """A regular language over encoded text, determinised on the fly.
    States: small integers; 0 dead."""
    def __init__(self, pattern):
        self.pattern = pattern
        n = self.n = NFA()
        a = n.node()
        self.end = n.build(sre.parse(encode(pattern), re.S), a)
        self.ids = {frozenset(): 0}
        self.sets = [frozenset()]
        self.cache = {}
        self.init = self.intern(self.close({a}))

    def close(self, s):
        out = set(s)
        w = list(s)
        while w:
            for y in self.n.eps[w.pop()]:
                if y not in out:
                    out.add(y)
                    w.append(y)
        return frozenset(out)

    def intern(self, s):
        i = self.ids.get(s)
        if i is None:
            i = self.ids[s] = len(self.sets)
            self.sets.append(s)
        return i

    def step(self, q, c):
        k = (q, c)
        r = self.cache.get(k)
        if r is None:
            o = ord(c)
            t = set()
            for x in self.sets[q]:
                for (how, cs), y in self.n.tr[x]:
                    if (o in cs) == (how == "="):
                        t.add(y)
            r = self.cache[k] = self.intern(self.close(t))
        return r

    def run(self, q, text):
        for c in text:
            if q == 0:
                return 0
            q = self.step(q, c)
        return q

    def accepts(self, q):
        return self.end in self.sets[q]


class Reader:
    """Mixin for models with an Emitter: feeds every write to machines.
    self.machines: list of (name, machine) with .init and .run(state, text).
    """
    machines = ()

    def infunc(self, ai):
        return ai.cur.name if ai.cur else "?"

    def where(self, i):
        return "; ".join("%s writes %r" % (fn, t) for (f, fn, t) in
                         sorted(self.stuck.get(i, {}))[:3])

    def start(self):
        return frozenset(("m", i, m.init)
                         for i, (n, m) in enumerate(self.machines))

    def state(self, st, i):
        for t in st.tags:
            if t[0] == "m" and t[1] == i:
                return t[2]
        return self.machines[i][1].init

    def emit(self, ai, e, text, st, stream):
        if not self.wanted(stream):
            return st
        x = encode(text)
        tags = set()
        for t in st.tags:
            if t[0] == "m":
                q = self.machines[t[1]][1].run(t[2], x)
                if q == 0 and t[2] != 0:
                    self.stuck.setdefault(t[1], {})[
                        (e.file, self.infunc(ai), text)] = 1
                tags.add(("m", t[1], q))
            else:
                tags.add(t)
        tags = frozenset(tags)
        if tags == st.tags:
            return st
        return type(st)(st.f, tags)

    def wanted(self, stream):
        return True


class Avoid:
    """Texts without the given word.  States: the longest prefix of the word
    just read, plus 1; 0 dead."""
    def __init__(self, word):
        self.word = encode(word)
        self.init = 1

    def run(self, q, text):
        for c in text:
            if q == 0:
                return 0
            s = self.word[:q - 1] + c
            while s and not self.word.startswith(s):
                s = s[1:]
            if s == self.word:
                return 0
            q = len(s) + 1
        return q

    def accepts(self, q):
        return q != 0
