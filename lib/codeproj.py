"""Generated source with its layout taken away.

A Code machine drops comments and white space that separates nothing (one
space is left between two words), keeps string literals as they are, and hands
the rest to another machine."""
from text import ishole

QUOTES = {"C": "\"'", "JS": "\"'`", "RUST": '"'}


def isword(c):
    return c.isalnum() or c == "_" or ishole(c)


class Code:
    def __init__(self, lang, inner):
        self.quotes = QUOTES[lang]
        self.rust = lang == "RUST"
        self.inner = inner
        self.init = ("o", False, False, inner.init)
        self.cache = {}

    def run(self, q, text):
        for c in text:
            if q == 0:
                return 0
            k = (q, c)
            r = self.cache.get(k)
            if r is None:
                r = self.next(*q, c)
                if r[3] == 0:
                    r = 0
                self.cache[k] = r
            q = r
        return q

    def next(self, mode, word, pend, i, c):
        step = self.inner.step
        if mode == "/":
            if c == "*":
                return ("*", word, pend, i)
            if c == "/":
                return ("l", word, pend, i)
            i = step(i, "/")
            if i == 0:
                return ("o", False, False, 0)
            mode, word, pend = "o", False, False
        if mode == "l":
            return ("o" if c == "\n" else "l", word, True, i)
        if mode == "*":
            return ("**" if c == "*" else "*", word, True, i)
        if mode == "**":
            return ("o" if c == "/" else "**" if c == "*" else "*",
                    word, True, i)
        if mode[0] == "s":
            if len(mode) == 3:
                return (mode[:2], False, False, step(i, c))
            if c == "\\":
                return (mode + "e", False, False, step(i, c))
            return ("o" if c == mode[1] else mode, False, False, step(i, c))
        if mode == "'":
            return ("'e" if c == "\\" else "o", False, False, step(i, c))
        if mode == "'e":
            return ("o", False, False, step(i, c))
        if c.isspace():
            return ("o", word, True, i)
        if c == "/":
            return ("/", word, pend, i)
        w = isword(c)
        if w and word and pend:
            i = step(i, " ")
            if i == 0:
                return ("o", False, False, 0)
        i = step(i, c)
        if c in self.quotes:
            return ("s" + c, False, False, i)
        if c == "'" and self.rust:
            return ("'", False, False, i)
        return ("o", w, False, i)

    def accepts(self, q):
        return q != 0 and q[0] == "o" and self.inner.accepts(q[3])
