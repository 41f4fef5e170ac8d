"""P01: an output failure is never reported as success."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from faults import *
from par import pmap


class Out(FaultModel):
    def __init__(self, prog, only, reach, main):
        super().__init__(prog, only)
        self.reach = reach
        self.main = main

    def opaque(self, name):
        return False

    def prim(self, ai, name, e, args, st):
        if name in ("fflush", "ferror", "fclose"):
            v = args[0] if args else None
            if v == frozenset([STDOUT]) or v == ZERO and name == "fflush":
                if name == "ferror":
                    return [(st, POS if self.faulted(st) else ZERO)], []
                clean = st.untag(lambda t: t[0] == "W")
                return [(clean, ZERO)], [(clean, M1)]
            return None
        if name not in OUTPRIM:
            return None
        i, bad = OUTPRIM[name]
        v = frozenset([STDOUT])
        if i is not None:
            v = args[i] if i < len(args) else None
            if v is not None and v == frozenset([STDERR]):
                return None
        ok = st
        if self.main and v is not None and STDOUT in v:
            ok = st.tag(("W",))
        return [(ok, OUTOK.get(name, ANYUINT))], [(ok, bad)]


def body(c):
    p = front.load()
    names = set(OUTPRIM) | {"fflush", "fclose"}
    rk = reaches(p, names)
    rn = {k[1] for k in rk}
    roots = []
    for f in public(p):
        if f.key in rk and any("FILE *" in t for _, t, _ in f.params) and \
                "FILE *" in "".join(t for _, t, _ in f.params) and \
                not f.name.startswith("ort_parse"):
            roots.append((f, False))
    for f in mains(p):
        if f.key in rk:
            roots.append((f, True))
    sites = set()
    nodes = set()
    funcs = set()
    def one(r):
        fn, ismain = r

        def bad(m, fn, s, v):
            if ismain:
                return exit_success(fn, v) and \
                    (m.faulted(s) or any(t[0] == "W" for t in s.tags))
            return m.faulted(s) and api_success(fn, v)
        m, ai, res, viol = run_root(
            p, lambda only: Out(p, only, rn, ismain), fn, {}, bad)
        return (fn.name, fn.file, fn.line, dict(m.sites),
                set(ai.nodes_analysed), set(ai.funcs_analysed),
                [(s, w, (l.name, l.file, l.line) if l else None)
                 for s, w, l in viol])
    for name, file, line, ms, nn, nf, viol in pmap(one, roots):
        sites |= set(ms)
        nodes |= nn
        funcs |= nf
        c.obligation(not viol, {"root": name, "file": file,
                                "write_sites": len(ms),
                                "functions": len(nf)})
        for site in ms:
            c.obligation(not any(v[0] == site for v in viol))
        for site, who, lost in viol:
            if site is None:
                c.violate("%s:%s:unflushed" % (file, name),
                          "%s:%d: %s() can return success with standard "
                          "output never flushed and checked" %
                          (file, line, name))
                continue
            c.violate("%s:%s:%s:%s" % (file, name, who[0], who[1]),
                      "%s:%d: failure of %s() in %s() does not make %s() "
                      "(%s) report failure%s" %
                      (site[0], site[1], who[1], who[0], name, file,
                       "; lost in %s() (%s:%d)" % lost if lost else ""))
    c.floor("roots", len(roots), 24)
    c.floor("write_sites", len(sites), 900)
    c.cov["cfg_nodes"] = len(nodes)
    c.cov["functions"] = len(funcs)
    c.assume += [
        "one failure at a time (the first one)",
        "a failing stdio call returns its documented failure value (-1/EOF; "
        "a short count for fwrite)",
        "functions reached only through expat callbacks write nothing"]
    return c.finish(
        "for each public function and main(): with any one write failing, "
        "every path returns the documented failure value; no main() returns "
        "success before checking that standard output was flushed",
        "interprocedural path-sensitive dataflow over return-value signs: "
        "each stdio write is a fault site, states carry a 'failed' tag, "
        "callee results are context-sensitive summaries")


main("P01", body)
