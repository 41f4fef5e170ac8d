"""A configuration (or two mirrored ones) as a family of symbolic objects.

Objects are named by access path from the root: "C.sq{!}.fq{!}" is the focus
field of the focus structure.  List shapes: an element named with one of
"<", ">", "*" stands for any number (also none) of further elements; any other
name is exactly one element.  Attribute values are opaque atoms

  ("qs", id, rank)  a string     ("qn", id, rank)  a number

where equal id and rank mean equal values, equal id and different rank mean
different values (rank "c" differs from rank 0 in letter case only; numeric
ranks are ordered), and different ids mean nothing is known -- except for the
keys (names) of elements of one list, which differ."""
import re
import absint
from absint import *

SUMMARY = "<>*^"
KEYRE = re.compile(r"^(.*)\{(.)\}\.(name|role\.name|field\.name|lang|fname)$")
SIDES = ("F:", "I:")


def sideless(o):
    return o[2:] if o[:2] in SIDES else o


def focused(o):
    """Every element on the path is exactly one element."""
    return not any("{%s}" % c in o for c in SUMMARY)


def issummary(i):
    return not focused(i)


def qrel(x, y, caseless=False):
    """Possible relations of two opaque atoms: subset of {'=', '<', '>', '!'}
    ('!' : different, order unknown)."""
    if x[0] != y[0]:
        return "=!"
    if x[1] == y[1]:
        if x[2] == y[2]:
            return "=!" if issummary(x[1]) else "="
        if "c" in (x[2], y[2]):
            return "=" if caseless else "!"
        if x[0] == "qn":
            return "<" if x[2] < y[2] else ">"
        return "!"
    if x[0] == "qn" and x[1][:2] != y[1][:2]:
        return "=!"         # indices are particular to each side
    kx, ky = KEYRE.match(x[1]), KEYRE.match(y[1])
    if kx and ky and kx.group(3) == ky.group(3):
        if sideless(kx.group(1)) == sideless(ky.group(1)) and \
                kx.group(2) != ky.group(2) and \
                not (kx.group(2) in SUMMARY and ky.group(2) in SUMMARY):
            return "!"
        if sideless(x[1]) == sideless(y[1]) and x[2] == y[2] and \
                not issummary(x[1]):
            return "="
    return "=!"


def qcmp(op, x, y):
    r = qrel(x, y)
    out = set()
    for c in r:
        if op in ("==", "!="):
            out.add((c == "=") == (op == "=="))
        elif c == "!":
            out |= {True, False}
        else:
            out.add({"<": c == "<", ">": c == ">", "<=": c in "<=",
                     ">=": c in ">="}[op])
    return tuple(out)


def plain(ty):
    """A type without its qualifiers."""
    return re.sub(r"\s*\bconst\b\s*", " ", ty).strip().replace("* ", "*")


class World(Model):
    nullattrs = {"doc", "ref", "enm", "bitf", "rolemap", "ins", "aggr",
                 "group", "dst", "rowid", "arolemap", "alias"}
    nullnames = {"search", "update"}      # records whose name may be absent
    links = {"arq": "allentries"}
    maxdepth = 14
    splitptr = True

    def __init__(self, prog):
        self.prog = prog
        self.shapes = {}      # list path, with or without side -> names
        self.vals = {}        # (object, attribute) with or without side
        self.otype = {}
        self.anylist = "*"
        self.shared = False   # unspecified attributes equal on both sides
        absint.QCMP[0] = qcmp

    def isworld(self, o):
        return o[:2] in SIDES or o == "C" or o.startswith("C.")

    def shape(self, lst):
        for k in (lst, sideless(lst)):
            if k in self.shapes:
                return self.shapes[k]
        for pat, v in self.shapes.items():
            if pat.startswith("~") and re.fullmatch(pat[1:], sideless(lst)):
                return v
        return self.anylist

    def follow(self, lst, i, ty):
        """Possible elements at or after position i of a list."""
        sh = self.shape(lst)
        out = set()
        while i < len(sh):
            n = "%s{%s}" % (lst, sh[i])
            out.add(("p", self.named(n, ty), ""))
            if sh[i] not in SUMMARY:
                return frozenset(out)
            i += 1
        out.add(0)
        return frozenset(out)

    def named(self, n, ty):
        m = re.search(r"struct (\w+) \*$", plain(ty))
        if m and n not in self.otype:
            self.otype[n] = m.group(1)
        return n

    def attrval(self, o, path):
        for k in ((o, path), (sideless(o), path)):
            if k in self.vals:
                return self.vals[k]
        for (pat, p), v in self.vals.items():
            if pat.startswith("~") and p == path and \
                    re.fullmatch(pat[1:], sideless(o)):
                return v
        return NotImplemented

    def load(self, ai, loc, ty, st):
        o, path = loc
        if not self.isworld(o):
            return NotImplemented
        v = self.attrval(o, path)
        if v is not NotImplemented:
            return v
        sl = sideless(o)
        m = re.match(r"^\[(.*)/0\]$", path)
        if m and o.endswith("C.langs"):
            # a language's name, through its index
            return frozenset([("qs", sideless(m.group(1)) if
                               focused(m.group(1)) else m.group(1), 0)])
        if path.endswith(".tqh_first"):
            return self.follow(o + "." + path[:-10], 0, ty)
        if path.endswith(".tqe_next"):
            m = re.match(r"^(.*)\{(.)\}$", o)
            if not m:
                return frozenset([0, "P"])
            lst = m.group(1)
            want = self.links.get(lst.split(".")[-1], "entries")
            if path[:-9] != want:
                return frozenset([0, "P"])
            i = self.shape(lst).index(m.group(2))
            return self.follow(lst, i if m.group(2) in SUMMARY else i + 1,
                               ty)
        if path.endswith((".tqh_last", ".tqe_prev")):
            return POS
        return self.default(ai, o, path, ty, st)

    def default(self, ai, o, path, ty, st):
        t = plain(ty)
        sl = sideless(o)
        key = self.iskey(o, path)
        base = sl if key or self.shared else o
        last = path.split(".")[-1]
        rec = self.otype.get(o)
        if t == "char *":
            a = ("qs", base + "." + path, 0)
            if last in self.nullattrs or \
                    last == "name" and rec in self.nullnames:
                return frozenset([0, a])
            return frozenset([a])
        if t == "bit":
            return frozenset([0, "P"])
        m = re.match(r"struct (\w+) \*$", t)
        if m:
            return self.pointer(o, path, ty, m.group(1), last)
        ev = ai.enumvals(t)
        if ev:
            return ev
        if "*" in t or "[" in t:
            return frozenset([("p", o + "." + path, "")])
        if t.startswith("struct") or t.startswith("union"):
            return None
        if last == "lang":
            base = o
        return frozenset([("qn", base + "." + path, 0)])

    def iskey(self, o, path):
        return bool(KEYRE.match(o + "." + path)) and focused(o)

    def owner(self, o, rec):
        """Innermost enclosing object of a record type."""
        n = o
        while True:
            n, _, rest = n.rpartition(".")
            if not n:
                return None
            if self.otype.get(n) == rec:
                return n

    def pointer(self, o, path, ty, rec, last):
        n = None
        if last in ("parent", "cfg"):
            n = self.owner(o, rec)
        if n is None:
            n = self.named(o + "." + path, ty)
        if n.count(".") > self.maxdepth:
            return None
        p = ("p", n, "")
        if last in self.nullattrs:
            return frozenset([0, p])
        return frozenset([p])

    def track(self, o, path, ty):
        return False

    def strrel(self, x, y, caseless, n=None):
        """Possible results of comparing two string atoms."""
        qs = [isinstance(a, tuple) and a[0] in ("qs", "s") for a in (x, y)]
        if not all(qs):
            return "=!" if 0 not in (x, y) else ""
        if x[0] == "s" and y[0] == "s":
            a, b = x[1], y[1]
            if n is not None:
                a, b = a[:n], b[:n]
            if caseless:
                a, b = a.lower(), b.lower()
            return "=" if a == b else "!"
        if x[0] == "s" or y[0] == "s" or n is not None:
            return "=!"
        return qrel(x, y, caseless)

    def call(self, ai, fn, name, e, args, st):
        if name in ("strcmp", "strcasecmp"):
            if args[0] is None or args[1] is None:
                return [(st, None)]
            rel = set()
            for x in args[0]:
                for y in args[1]:
                    rel |= set(self.strrel(x, y, name == "strcasecmp"))
            out = []
            if "=" in rel:
                out.append((st, ZERO))
            if rel - {"="}:
                out.append((st, NONZERO))
            return out
        return None
