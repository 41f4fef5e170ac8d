"""Fault propagation: inject (abstractly) one failure at every primitive of a
class and require that every API root reached from it reports failure."""
from absint import *
from front import Fatal

STDERR = ("p", "g:stderr!", "")
STDOUT = ("p", "g:stdout!", "")
M1 = frozenset([-1])

OUTPRIM = {  # name -> (index of the stream argument, failing value)
    "fprintf": (0, M1), "vfprintf": (0, M1), "fputs": (1, M1),
    "fputc": (1, M1), "putc": (1, M1), "fwrite": (3, ZERO),
    "printf": (None, M1), "puts": (None, M1), "putchar": (None, M1),
    "vprintf": (None, M1),
}
OUTOK = {"fwrite": POS}


def reaches(prog, names):
    """Keys of functions that can reach a call to one of names."""
    callers = {}
    for f in prog.funcs.values():
        for c in f.callees:
            callers.setdefault(c, []).append(f)
    hit = set()
    wl = list(names)
    seen = set(wl)
    while wl:
        n = wl.pop()
        for f in callers.get(n, ()):
            if f.key not in hit:
                hit.add(f.key)
                if f.name not in seen:
                    seen.add(f.name)
                    wl.append(f.name)
    return hit


class FaultModel(Model):
    limit = 48
    maxinc = 1
    tagname = "F"

    def __init__(self, prog, only=None):
        self.only = only
        self.sites = {}
        self.prog = prog

    def ctxarg(self, fn, i, v):
        if v is None:
            return None
        if all(isinstance(a, int) or a in ("N", "P") for a in v):
            return v
        if any(isinstance(a, tuple) and a[0] == "p" and
               (a[1].startswith(("v:", "g:", "root"))) for a in v):
            return v
        return None

    def load(self, ai, loc, ty, st):
        if loc[0] in ("g:stderr", "g:stdout", "g:stdin") and loc[1] == "":
            return frozenset([("p", loc[0] + "!", "")])
        return NotImplemented

    def prim(self, ai, name, e, args, st):
        """None, or (ok outcomes, failing outcomes)."""
        return None

    def faulted(self, st):
        return any(t[0] == self.tagname for t in st.tags)

    def call(self, ai, fn, name, e, args, st):
        if name is None:
            return None
        r = self.prim(ai, name, e, args, st)
        if r is None:
            return None
        ok, fail = r
        if not fail:
            return ok
        site = (e.file, e.line, e.id)
        self.sites[site] = (ai.cur.name, name)
        if self.faulted(st):
            return ok
        if self.only is not None and site not in self.only:
            return ok
        return ok + [(s.tag((self.tagname,)), v) for s, v in fail]


def run_root(prog, mk, fn, facts, isbad, maxsites=40):
    """Analyse one root; on a violation, find the responsible sites by
    re-analysis with only a subset of the sites failing."""
    def go(only):
        m = mk(only)
        ai = AI(prog, m)
        res = ai.run(fn, State(dict(facts), frozenset()))
        bad = [(s, v) for s, v in res if isbad(m, fn, s, v)]
        return m, ai, res, bad
    m, ai, res, bad = go(None)
    viol = []
    if bad:
        def split(sites):
            if len(viol) >= maxsites:
                return
            m2, ai2, r2, b2 = go(frozenset(sites))
            if not b2:
                return
            if len(sites) == 1:
                viol.append((sites[0], m.sites[sites[0]],
                             lost_in(prog, ai2, m2)))
                return
            h = len(sites) // 2
            split(sites[:h])
            split(sites[h:])
        split(sorted(m.sites))
        if not viol:
            viol.append((None, None, None))
    return m, ai, res, viol


def lost_in(prog, ai, m):
    """Innermost function in which the failure stops being distinguishable:
    some value it returns after the failure is also one it returns without."""
    for (fk, (facts, tags)), res in ai.memo.items():
        if any(t[0] == m.tagname for t in tags):
            continue
        bad, good = set(), set()
        for s, v in res:
            (bad if m.faulted(s) else good).update(
                v if v is not None else ("any",))
        if bad and (bad & good or not (bad - {"any"})):
            return prog.funcs[fk]
    return None


def public(prog):
    """Public API functions: prototypes in the installed ort*.h headers."""
    out = []
    for n, (h, line, ret, pt) in prog.protos.items():
        if h.startswith("ort") and h.endswith(".h"):
            f = prog.resolve(n, None)
            if f is not None:
                out.append(f)
    return sorted(out, key=lambda f: f.key)


def mains(prog):
    return sorted((f for f in prog.byname.get("main", [])),
                  key=lambda f: f.key)


THREEWAY = {"ort_lang_xliff_join", "ort_lang_xliff_update",
            "ort_lang_diff_sql"}


def api_success(fn, v):
    """May v be a success value of public function fn?"""
    if v is None:
        return True
    if fn.name in THREEWAY:
        return any(a == "P" or (isinstance(a, int) and a > 0) for a in v)
    return any(a != 0 for a in v)


def exit_success(fn, v):
    if v is None:
        return True
    if fn.file == "maindiff.c":
        # documented: 0 no differences, 1 differences, >1 error
        return any(a in (0, 1) for a in v)
    return 0 in v
