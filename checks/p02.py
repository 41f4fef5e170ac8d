"""P02: memory exhaustion is reported, never dereferenced."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from faults import *
from par import pmap

ALLOC = {"malloc", "calloc", "realloc", "reallocarray", "recallocarray",
         "strdup", "strndup", "XML_ParserCreate", "open_memstream"}
ALLOCINT = {"asprintf", "vasprintf"}
# library functions that dereference an argument unconditionally
DEREF = {"strlen": (0,), "strcmp": (0, 1), "strcasecmp": (0, 1),
         "strncmp": (0, 1), "memset": (0,), "memcpy": (0, 1),
         "strlcpy": (0, 1), "strlcat": (0, 1), "strtol": (0,),
         "fputs": (0,), "strchr": (0,), "strrchr": (0,), "snprintf": (0,),
         "memmove": (0, 1), "strtonum": (0,), "strdup": (0,)}


class Alloc(FaultModel):
    synpaths = True

    def __init__(self, prog, only, reach, api):
        super().__init__(prog, only)
        self.reach = reach
        self.api = api
        self.derefs = {}

    def opaque(self, name):
        return False

    def track(self, o, path, ty):
        return path.endswith("lasttype") and o.startswith("v:")

    def prim(self, ai, name, e, args, st):
        if self.faulted(st):
            for i in DEREF.get(name, ()):
                if i < len(args) and args[i] == ZERO:
                    self.derefs[(e.file, e.line, e.id)] = \
                        (ai.cur.name, name)
                    return [], []
        if name in ALLOC:
            return [(st, POS)], [(st, ZERO)]
        if name in ALLOCINT:
            return [(st, ANYUINT)], [(st, M1)]
        if name.startswith("ort_msg") and name != "ort_msgq_free":
            # a diagnostic may itself be lost
            return [(st, None)], []
        if name in self.api:
            f = self.api[name]
            if f is ai.cur:
                return None
            okv, badv = contract(f)
            return [(st, okv)], [(st, badv)]
        return None

    def nullderef(self, ai, e, st, definite):
        if definite and self.faulted(st):
            self.derefs[(e.file, e.line, e.id)] = (ai.cur.name, str(e))


def contract(f):
    """Values of a public function: (success, failure)."""
    if f.name in THREEWAY:
        return POS, M1
    return frozenset(["P"]), ZERO


def body(c):
    p = front.load()
    pub = {f.name: f for f in public(p)}
    rk = reaches(p, ALLOC | ALLOCINT)
    rn = {k[1] for k in rk}
    # public functions that can fail: they return something
    failing = {n: f for n, f in pub.items()
               if f.ret != "void" and f.key in rk}
    roots = [(f, False) for f in failing.values()]
    rm = reaches(p, ALLOC | ALLOCINT | set(failing))
    rmn = {k[1] for k in rm}
    for f in mains(p):
        if f.key in rm:
            roots.append((f, True))

    def one(r):
        fn, ismain = r

        def bad(m, fn, s, v):
            if not m.faulted(s):
                return False
            return exit_success(fn, v) if ismain else api_success(fn, v)
        derefs = {}

        def mk(only):
            m = Alloc(p, only, rmn if ismain else rn,
                      failing if ismain else {})
            m.derefs = derefs
            return m
        m, ai, res, viol = run_root(p, mk, fn, {}, bad)
        return (fn.key, fn.line, dict(m.sites), viol and
                [(s, w, (l.name, l.file, l.line) if l else None)
                 for s, w, l in viol], dict(derefs),
                len(ai.funcs_analysed), set(ai.nodes_analysed))
    sites, nodes = set(), set()
    for key, line, ms, viol, derefs, nf, nn in pmap(one, roots):
        sites |= set(ms)
        nodes |= nn
        file, name = key
        c.obligation(not viol and not derefs,
                     {"root": name, "file": file, "sites": len(ms),
                      "functions": nf})
        for s in ms:
            c.obligation(not any(v[0] == s for v in viol))
        for site, (fn, what) in derefs.items():
            c.violate("deref:%s:%s" % (site[0], fn),
                      "%s:%d: %s(): result of a failed allocation is used: "
                      "%s (reached from %s)" %
                      (site[0], site[1], fn, what, name))
        for site, who, lost in viol:
            if site is None:
                c.violate("%s:%s:?" % (file, name), "%s: lost failure" % name)
                continue
            c.violate("%s:%s:%s:%s" % (file, name, who[0], who[1]),
                      "%s:%d: failure of %s() in %s() does not make %s() "
                      "(%s) report failure%s" %
                      (site[0], site[1], who[1], who[0], name, file,
                       "; lost in %s() (%s:%d)" % lost if lost else ""))
    c.floor("roots", len(roots), 25)
    c.floor("allocation_sites", len(sites), 90)
    c.cov["cfg_nodes"] = len(nodes)
    return c.finish(
        "at every call of an allocating function reachable from a public "
        "function or program, assuming that the call fails makes the public "
        "function return its failure value (the program exit non-zero), and "
        "the null result is never dereferenced on the way",
        "interprocedural path-sensitive dataflow: one abstract failure is "
        "injected at each allocation site and followed through returns, "
        "stores and branches to the boundary; null dereferences on the "
        "failure path are reported with their site")


main("P02", body)
