"""What a function writes to a stream, as text with holes.

A piece of output is rendered from the format and the abstract arguments:
string literals and known integers appear as text, a symbolic value as
\\u27e8id\\u27e9, anything unknown as \\u27e8?\\u27e9."""
import re, itertools
from absint import *

L, R = "\u27e8", "\u27e9"
HOLE = L + "?" + R
CONV = re.compile(r"%(?P<flags>[-+ #0']*)(?P<w>\d+|\*)?(?:\.(?P<p>\d+|\*)?)?"
                  r"(?P<l>hh|h|ll|l|z|j|t|L)?(?P<c>[diouxXcspgfGeEaA%])")

# function -> (stream argument or None, format argument, first value or None)
PRINTF = {"fprintf": (0, 1, 2), "printf": (None, 0, 1)}
PUTS = {"fputs": (0, 1), "puts": (0, None), "fputc": (0, 1), "putc": (0, 1),
        "putchar": (0, None)}


def textof(a, conv=""):
    """One atom as text."""
    if isinstance(a, tuple):
        if a[0] == "s":
            return a[1]
        if a[0] in ("qs", "qn"):
            return L + a[1] + R
        if a[0] == "p":
            return L + "&" + a[1] + ("." + a[2] if a[2] else "") + R
        return HOLE
    if isinstance(a, int):
        if conv == "c":
            return chr(a) if 0 < a < 256 else HOLE
        if conv == "s":
            return "(null)" if a == 0 else HOLE
        if conv == "x":
            return "%x" % a
        return str(a)
    return HOLE


def choices(v, conv="", limit=4):
    if v is None:
        return [HOLE]
    t = sorted({textof(a, conv) for a in v})
    return t if 0 < len(t) <= limit else [HOLE]


def render(fmt, args, limit=16):
    """All renderings of a format with abstract arguments; the arguments'
    atoms are taken independently."""
    parts = []
    i = pos = 0
    for m in CONV.finditer(fmt):
        parts.append([fmt[pos:m.start()]])
        pos = m.end()
        c = m.group("c")
        if c == "%":
            parts.append(["%"])
            continue
        for w in ("w", "p"):
            if m.group(w) == "*":
                i += 1
        parts.append(choices(args[i], c) if i < len(args) else [HOLE])
        i += 1
    parts.append([fmt[pos:]])
    n = 1
    for p in parts:
        n *= len(p)
    if n > limit:
        parts = [p if len(p) == 1 else [HOLE] for p in parts]
    return ["".join(x) for x in itertools.product(*parts)]


def missing(fmt, args):
    """Conversions for which %s receives nothing but NULL, or for which there
    is no argument."""
    out = []
    i = 0
    for m in CONV.finditer(fmt):
        c = m.group("c")
        if c == "%":
            continue
        for w in ("w", "p"):
            if m.group(w) == "*":
                i += 1
        if i >= len(args):
            out.append((m.group(0), None))
        elif c == "s" and args[i] is not None and 0 in args[i]:
            out.append((m.group(0), i))
        i += 1
    return out


class Emitter:
    """Mixin for models: every write becomes emit(ai, e, text, st)."""

    def emit(self, ai, e, text, st, stream):
        return st

    def nullarg(self, ai, e, fmt, what, st):
        pass

    def written(self, ai, e, texts, st, stream):
        return [(self.emit(ai, e, t, st, stream), POS) for t in texts]

    def spelled(self, v, st):
        """A pointer to a character array whose contents are known becomes
        the text."""
        if v is None or not any(isinstance(a, tuple) and a[0] == "p" and
                                a[1].startswith("v:") for a in v):
            return v
        out = set()
        for a in v:
            if not (isinstance(a, tuple) and a[0] == "p"):
                out.add(a)
                continue
            texts = [""]
            for i in range(64):
                b = st.f.get((a[1], "%s[%d]" % (a[2], i)))
                if b is None:
                    texts = None
                    break
                if b == ZERO:
                    break
                new = []
                for x in b:
                    t = textof(x, "c") if isinstance(x, int) else HOLE
                    new += [y + t for y in texts]
                texts = new
                if len(texts) > 8:
                    texts = None
                    break
            if texts is None:
                out.add(a)
            else:
                out |= {("s", t) for t in texts}
        return frozenset(out)

    def output(self, ai, fn, name, e, args, st):
        """None unless name is a writing primitive."""
        if name in PRINTF or name == "vfprintf" or name in PUTS:
            args = [self.spelled(v, st) for v in args]
        if name in PRINTF:
            si, fi, vi = PRINTF[name]
            stream = args[si] if si is not None else None
            fmts = args[fi]
            rest = list(args[vi:])
        elif name == "vfprintf":
            stream, fmts = args[0], args[1]
            rest = self.vaargs(st)
        elif name in PUTS:
            ti, si = PUTS[name]
            stream = args[si] if si is not None else None
            conv = "c" if name in ("fputc", "putc", "putchar") else "s"
            t = choices(args[ti], conv)
            if conv == "s" and args[ti] is not None and 0 in args[ti]:
                self.nullarg(ai, e, "%s", [("%s", ti)], st)
            if name == "puts":
                t = [x + "\n" for x in t]
            return self.written(ai, e, t, st, stream)
        else:
            return None
        if fmts is None:
            return self.written(ai, e, [HOLE], st, stream)
        texts = []
        for f in fmts:
            if isinstance(f, tuple) and f[0] == "s":
                if rest is None:
                    texts.append(CONV.sub(
                        lambda m: "%" if m.group("c") == "%" else HOLE, f[1]))
                    continue
                bad = missing(f[1], rest)
                if bad:
                    self.nullarg(ai, e, f[1], bad, st)
                texts += render(f[1], rest)
            else:
                texts.append(HOLE)
        return self.written(ai, e, sorted(set(texts)), st, stream)

    variadics = True

    def vaargs(self, st):
        n = st.f.get(("va:n", ""))
        if n is None:
            return None
        return [st.f.get(("va:%d" % i, "")) for i in range(min(n))]
