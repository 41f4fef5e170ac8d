"""The documented grammar, as expressions whose steps record what the text
means.  A state is (rest, ctx): the expressions still to come and what is
expected of the parser so far."""


class Tok:
    """One token.  kind: "kw" (val: the word), "name", "int", "dec", "lit",
    or a punctuation mark; val is what the parser is given; act(ctx) returns
    the new context, REJECT or FREE."""

    def __init__(self, kind, val=None, act=None):
        self.kind, self.val, self.act = kind, val, act

    def key(self):
        return (self.kind, self.val)

    def __repr__(self):
        return "%s %s" % (self.kind, self.val)


class Seq:
    def __init__(self, *xs):
        self.xs = xs


class Alt:
    def __init__(self, *xs):
        self.xs = xs


class Star:
    def __init__(self, x):
        self.x = x


class Opt:
    def __init__(self, x):
        self.x = x


class End:
    """Checked when the text before it is complete."""

    def __init__(self, act):
        self.act = act


REJECT, FREE = "reject", "free"


def first(rest):
    """Tokens that may come next, each with what follows it.  rest is a
    linked list (head, tail) or None."""
    if rest is None:
        return
    h, t = rest
    if isinstance(h, Tok):
        yield h, t
    elif isinstance(h, Seq):
        r = t
        for x in reversed(h.xs):
            r = (x, r)
        yield from first(r)
    elif isinstance(h, Alt):
        for x in h.xs:
            yield from first((x, t))
    elif isinstance(h, Star):
        yield from first((h.x, rest))
        yield from first(t)
    elif isinstance(h, Opt):
        yield from first((h.x, t))
        yield from first(t)


def nullable(rest):
    while rest is not None:
        h, rest = rest
        if isinstance(h, (Star, Opt)):
            continue
        if isinstance(h, Seq):
            for x in reversed(h.xs):
                rest = (x, rest)
            continue
        if isinstance(h, Alt):
            return any(nullable((x, rest)) for x in h.xs)
        return False
    return True


def sepby(x, sep=","):
    return Seq(x, Star(Seq(Tok(sep), x)))
