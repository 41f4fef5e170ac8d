"""SQL statements written as string expressions of a target language.

A Statements machine reads generated source holding a sequence of statements
(C: adjacent literals and macro calls; JavaScript and Rust: literals and calls
joined with +; each followed by a comma), checks that the expressions are well
formed in that language, and hands the text they denote to a machine for the
SQL: white space is one space between words and nothing elsewhere, code is
put between \\x01 and \\x02 without white space, a statement ends with ;"""
from text import *

DELIM = {"C": '"', "JS": "'", "RUST": '"'}
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
           "?'\"\x01\x02")
OPS = set("<>=!|&-/")


def kind(c):
    return "w" if c in WORD or ishole(c) else "o" if c in OPS else "p"


class Statements:
    def __init__(self, lang, inner):
        self.lang = lang
        self.delim = DELIM[lang]
        self.inner = inner
        # mode, previous kind, white space pending, operand seen, depth, inner
        self.init = ("o", "p", False, False, 0, inner.init)
        self.cache = {}

    def run(self, q, text):
        for c in text:
            if q == 0:
                return 0
            k = (q, c)
            r = self.cache.get(k)
            if r is None:
                r = self.cache[k] = self.step(q, c)
            q = r
        return q

    def put(self, prev, pend, i, c):
        """A character of SQL."""
        if c.isspace():
            return prev, True, i
        k = kind(c)
        if pend and k == prev and k in "wo":
            i = self.inner.step(i, " ")
        return k, False, self.inner.step(i, c)

    def raw(self, i, text):
        for c in text:
            i = self.inner.step(i, c)
        return i

    def step(self, q, c):
        mode, prev, pend, opnd, depth, i = q
        r = self.next(mode, prev, pend, opnd, depth, i, c)
        return 0 if r == 0 or r[5] == 0 else r

    def next(self, mode, prev, pend, opnd, depth, i, c):
        C = self.lang == "C"
        if mode == "s":
            if c == self.delim:
                return ("o", prev, pend, True, 0, i)
            if c == "\n":
                return 0
            if c == "\\":
                return ("e", prev, pend, opnd, 0, i)
            prev, pend, i = self.put(prev, pend, i, c)
            return ("s", prev, pend, opnd, 0, i)
        if mode == "e":
            if c not in "\\'\"":
                return 0
            prev, pend, i = self.put(prev, pend, i, c)
            return ("s", prev, pend, opnd, 0, i)
        if mode == "/":
            return ("m", prev, pend, opnd, 0, i) if c == "*" else 0
        if mode in "m*":
            if mode == "*" and c == "/":
                return ("o", prev, pend, opnd, 0, i)
            return ("*" if c == "*" else "m", prev, pend, opnd, 0, i)
        if c.isspace():
            return (mode, prev, pend, opnd, depth, i)
        if mode == "c" and depth > 0:
            depth += (c == "(") - (c == ")")
            return ("c", "w", False, opnd, depth, self.raw(i, c))
        if mode == "c" and (c in ",+" or c == self.delim):
            i = self.raw(i, "\x02")
            mode, opnd, prev, pend = "o", True, "w", False
        if mode == "c":
            depth += c == "("
            return ("c", "w", False, opnd, depth, self.raw(i, c))
        if c == self.delim:
            if opnd and not C:
                return 0
            return ("s", prev, pend, opnd, 0, i)
        if c == ",":
            if not opnd:
                return 0
            return ("o", "p", False, False, 0, self.raw(i, ";"))
        if c == "+":
            if C or not opnd:
                return 0
            return ("o", prev, pend, False, 0, i)
        if c == "/":
            return ("/", prev, pend, opnd, 0, i)
        if opnd and not C and c != ";":
            return 0
        prev, pend, i = self.put(prev, pend and c != ";", i, "\x01")
        return ("c", "w", False, opnd, 0, self.raw(i, c))

    def accepts(self, q):
        return q != 0 and q[0] == "o" and not q[3] and self.inner.accepts(q[5])
