"""Generators run over a symbolic configuration, their output read by
machines (text.py)."""
from world import *
from emit import *
from text import *

S = "C.sq{!}"
F = S + ".fq{!}"
TYPES = {"C": "config", S: "strct", F: "field"}


class Gen(Reader, Emitter, World):
    """Any number of structures around the focus S, any number of fields
    around the focus field F."""
    limit = 3000
    maxrets = 3000

    def __init__(self, prog):
        super().__init__(prog)
        self.machines = []
        self.stuck = {}
        for o, t in TYPES.items():
            self.otype[o] = t
        self.otype["~"] = ""
        self.shapes["C.sq"] = "<!>"
        self.shapes[S + ".fq"] = "<!>"
        self.nulls = []
        self.skip = set()
        # Kinds of items that are handled on their own: a call for such an
        # item out of focus is taken to write text that is judged when that
        # item is in focus.
        self.alone = set()

    # Attributes of configuration objects do not change while output is
    # generated, so what a branch reveals about one holds afterwards: for the
    # focus objects throughout, for an element that stands for any number of
    # elements until the variable moves on.
    remembered = {"type", "flags", "ref", "op", "mod", "rolemap", "enm",
                  "bitf", "aggr", "group", "dst", "ins", "doc", "name",
                  "tqe_next", "tqh_first", "limit", "offset", "alias", "source", "target", "actup",
                  "actdel", "rowid"}

    def track(self, o, path, ty):
        if o.startswith("v:") and path[:1] == "[" and path[1:-1].isdigit() \
                and ty.replace("const ", "") in ("char", "int"):
            return True
        return self.isworld(o) and \
            path.split("#")[0].split(".")[-1] in self.remembered

    def store(self, ai, loc, val, e, st):
        if val is None or loc is None or not isinstance(val, frozenset):
            return None
        dead = None
        for a in val:
            if isinstance(a, tuple) and a[0] == "p" and self.isworld(a[1]) \
                    and issummary(a[1]):
                for k in st.f:
                    if k[0] == a[1] or k[0].startswith(a[1] + "."):
                        dead = dead or []
                        dead.append(k)
        if dead:
            f = dict(st.f)
            for k in dead:
                f.pop(k, None)
            return State(f, st.tags)
        return None

    def summaryfacts(self, st):
        return [k for k in st.f if self.isworld(k[0]) and issummary(k[0])]

    def atreturn(self, ai, fn, st, v):
        dead = self.summaryfacts(st)
        if dead:
            f = dict(st.f)
            for k in dead:
                del f[k]
            st = State(f, st.tags)
        return st

    def after(self, ai, fn, caller, st):
        add = {k: caller.f[k] for k in self.summaryfacts(caller)}
        if add:
            f = dict(st.f)
            f.update(add)
            st = State(f, st.tags)
        return st

    def pruned(self, st):
        dead = self.summaryfacts(st)
        if not dead:
            return st
        held = {a[1] for k, v in st.f.items() if k[0].startswith("v:")
                for a in v if isinstance(a, tuple) and a[0] == "p"}
        dead = [k for k in dead if not any(
            k[0] == h or k[0].startswith(h + ".") for h in held)]
        if dead:
            f = dict(st.f)
            for k in dead:
                del f[k]
            st = State(f, st.tags)
        return st

    def enter(self, ai, func, args, st):
        if func.name in self.skip:
            return [(st, ONE)]
        if self.alone:
            for (u, ty, n), v in zip(func.params, args):
                if v and len(v) == 1:
                    (a,) = v
                    if isinstance(a, tuple) and a[0] == "p" and a[2] == "" \
                            and self.isworld(a[1]) and issummary(a[1]) and \
                            ty.replace("const ", "").replace(
                                "struct ", "").replace("*", "").strip() \
                            in self.alone:
                        return [(st, ONE)]
        return None

    def nullarg(self, ai, e, fmt, what, st):
        self.nulls.append((e.file, fmt))

    def enum(self, en, name):
        return frozenset([dict(self.prog.enums[en])[name]])

    def val(self, o, path, v):
        """Fix an attribute: an int, an enumerator name, a pointer, None for
        NULL."""
        if v is None:
            v = ZERO
        elif isinstance(v, int):
            v = frozenset([v])
        elif isinstance(v, str) and v in self.prog.enumof:
            v = frozenset([self.prog.enumof[v][1]])
        elif isinstance(v, str):
            v = frozenset([("p", v, "")])
        self.vals[(o, path)] = v

    def flags(self, o, names, path="flags"):
        """Fix a flag word: the named flags set, all others clear."""
        en = [n for n, l in self.prog.enums.items()]
        bits = 0
        for n in names:
            bits |= self.prog.macro(n)
        self.vals[(o, path)] = frozenset([bits])

    def call(self, ai, fn, name, e, args, st):
        r = self.output(ai, fn, name, e, args, st)
        if r is not None:
            return r
        return super().call(ai, fn, name, e, args, st)

    def runfn(self, fn, args, f=None):
        ai = AI(self.prog, self)
        f = dict(f or {})
        for (u, ty, n), v in zip(fn.params, args):
            if v is not None:
                f[("v:" + u, "")] = v
        res = ai.run(fn, State(f, self.start()))
        self.ai = ai
        return res


def ptr(o):
    return frozenset([("p", o, "")])


NAME = re.compile(r"[A-Za-z0-9_]*")


class NameGen(Gen):
    """Gen with the names that the generator puts together.  The characters
    of names are read (literals), not those of other texts."""
    def readable(self, text):
        return self.literals and NAME.fullmatch(text) is not None

    def call(self, ai, fn, name, e, args, st):
        if name in ("toupper", "tolower") and self.literals:
            v = args[0]
            if v is not None and all(isinstance(a, int) for a in v):
                g = str.upper if name == "toupper" else str.lower
                v = frozenset(ord(g(chr(a))) if 0 < a < 128 else a for a in v)
            return [(st, v)]
        if name == "strdup" and self.literals and args[0] is not None and \
                len(args[0]) == 1:
            (a,) = args[0]
            if isinstance(a, tuple) and a[0] == "s":
                o = "v:dup:" + a[1]
                f = dict(st.f)
                for i, ch in enumerate(a[1] + "\0"):
                    f[(o, "[%d]" % i)] = frozenset([ord(ch)])
                return [(State(f, st.tags), frozenset([("p", o, "")])),
                        (st, ZERO)]
        if name == "strdup":
            return [(st, args[0]), (st, ZERO)]
        if name == "asprintf":
            dst, fmt = args[:2]
            out = None
            if fmt is not None and len(fmt) == 1:
                (f,) = fmt
                if isinstance(f, tuple) and f[0] == "s":
                    t = render(f[1], list(args[2:]))
                    if not any(L in x for x in t):
                        out = frozenset(("s", x) for x in t)
            s2 = st
            if dst is not None and len(dst) == 1:
                (a,) = dst
                if isinstance(a, tuple) and a[0] == "p":
                    s2 = ai.store(st, (a[1], a[2]), out, "char *")
            return [(s2, POS), (st, frozenset([-1]))]
        if name == "free":
            return [(st, None)]
        return super().call(ai, fn, name, e, args, st)
