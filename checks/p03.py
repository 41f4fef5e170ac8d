"""P03: error diagnostics and rejection go together."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from faults import *
from par import pmap

DIAG = ("ort_msg", "ort_msgv")


class Diag(FaultModel):
    synpaths = True
    limit = 120
    zerofields = ("lasttype",)

    def synrefine(self, loc):
        return True

    def __init__(self, prog, only, reach, wrappers, errors):
        super().__init__(prog, only)
        self.reach = reach
        self.wrappers = wrappers
        self.errors = errors

    def opaque(self, name):
        return False

    def track(self, o, path, ty):
        return path.endswith("lasttype") and o.startswith("v:")

    def joinkey(self, st):
        return (st.tags, tuple(sorted((k, v) for k, v in st.f.items()
                                      if k[1].endswith("lasttype"))))

    def call(self, ai, fn, name, e, args, st):
        if name in DIAG:
            t = args[1] if len(args) > 1 else None
            if t is not None and t & self.errors:
                if not t <= self.errors:
                    return [(st, None), (st.tag(("F",)), None)]
                if ai.cur.name in self.wrappers:
                    return [(st.tag(("F",)), None)]
                site = (e.file, e.line, e.id)
                self.sites[site] = (ai.cur.name, name)
                if self.only is not None and site not in self.only:
                    return [(st, None)]
                return [(st.tag(("F",)), None)]
            if t is None:
                return [(st, None), (st.tag(("F",)), None)]
            return [(st, None)]
        if name in self.wrappers and ai.cur.name not in self.wrappers:
            f = self.prog.resolve(name, e.file)
            site = (e.file, e.line, e.id)
            self.sites[site] = (ai.cur.name, name)
            r = ai.inline(f, e, args, st)
            if self.only is not None and site not in self.only and \
                    not self.faulted(st):
                r = [(s.untag(lambda t: t[0] == "F"), v) for s, v in r]
            return r
        return None


class Tool(Model):
    """main(): what happens to a rejected configuration."""
    limit = 80
    maxinc = 1

    def __init__(self, prog, api):
        self.prog = prog
        self.api = api
        self.calls = {}
        self.early = {}

    def opaque(self, name):
        return name in self.api

    def load(self, ai, loc, ty, st):
        if loc[0] in ("g:stderr", "g:stdout", "g:stdin") and loc[1] == "":
            return frozenset([("p", loc[0] + "!", "")])
        return NotImplemented

    def obj(self, v):
        """The configuration a pointer argument denotes."""
        if v is None:
            return "?"
        for a in v:
            if isinstance(a, tuple) and a[0] == "p":
                return a[1]
        return "?"

    def call(self, ai, fn, name, e, args, st):
        if name == "ort_config_alloc":
            n = "alloc%d" % e.id
            return [(st, frozenset([("p", n, "")])), (st, ZERO)]
        if name not in self.api:
            return None
        f = self.api[name]
        self.calls[(e.file, e.line, e.id)] = name
        if name in ("ort_parse_file", "ort_parse_close"):
            o = self.obj(args[0] if args else None)
            return [(st.tag(("OK", o, name)), ONE),
                    (st.tag(("REJ", o), ("WAS",)), ZERO)]
        if name == "ort_write_msg_file":
            o = self.obj(args[1] if len(args) > 1 else None)
            return [(st.untag(lambda t: t == ("REJ", o)), None)]
        if f.ret != "void" and any("FILE *" in t for _, t, _ in f.params):
            if any(t[0] in ("REJ", "WAS") for t in st.tags):
                self.early[(e.file, e.line, e.id)] = name
            r = [(st, POS)]
            if name in THREEWAY:
                r += [(st.tag(("WAS",)), ZERO), (st, M1)]
                for i, a in enumerate(args):
                    if a and i < len(f.params) and \
                            "msgq" in f.params[i][1]:
                        r[1] = (r[1][0].tag(("REJ", self.obj(a))), ZERO)
            else:
                r += [(st, ZERO)]
            return r
        return None


def body(c):
    p = front.load()
    errors = frozenset(v for n, v in p.enums.get("msgtype", ())
                       if n in ("MSGTYPE_ERROR", "MSGTYPE_FATAL"))
    if len(errors) != 2:
        raise Fatal("anchor vanished: message severities")
    rk = reaches(p, DIAG)
    rn = {k[1] for k in rk}
    # small functions that do nothing but report
    wr = set()
    for f in p.funcs.values():
        if f.callees & set(DIAG) and len(f.nodes) <= 20:
            ks = {n.k for n in f.nodes}
            loops = False
            wr.add(f.name) if f.key in rk and f.name not in \
                {g.name for g in public(p)} else None
    pub = [f for f in public(p) if f.key in rk and f.ret != "void" and
           f.name not in DIAG]
    jobs = [("lib", f) for f in pub] + [("main", f) for f in mains(p)]
    api = {f.name: f for f in public(p)}

    def one(j):
        kind, fn = j
        if kind == "lib":
            def bad(m, fn, s, v):
                return m.faulted(s) and api_success(fn, v)
            m, ai, res, viol = run_root(
                p, lambda only: Diag(p, only, rn, wr, errors), fn, {}, bad,
                maxsites=8)
            # silent rejection
            silent = False
            if fn.name.startswith("ort_parse"):
                silent = any(not m.faulted(s) and
                             (v is None or 0 in v) for s, v in res)
            return (kind, fn.file, fn.name, fn.line, dict(m.sites),
                    [(s, w, (l.name, l.file, l.line) if l else None)
                     for s, w, l in viol], silent,
                    len(ai.nodes_analysed), len(ai.funcs_analysed))
        m = Tool(p, api)
        ai = AI(p, m)
        res = ai.run(fn, State({}, frozenset()))
        bad = []
        for s, v in res:
            rej = [t for t in s.tags if t[0] == "REJ"]
            if rej:
                bad.append("lost")
            if (rej or any(t[0] == "WAS" for t in s.tags)) and \
                    exit_success(fn, v):
                bad.append("exit")
        return (kind, fn.file, fn.name, fn.line, dict(m.calls), bad,
                dict(m.early), len(ai.nodes_analysed), len(ai.funcs_analysed))
    nsites = nodes = ntools = ncalls = 0
    for r in pmap(one, jobs):
        kind, file, name, line = r[:4]
        if kind == "lib":
            _, _, _, _, ms, viol, silent, nn, nf = r
            nsites += len(ms)
            nodes += nn
            c.obligation(not viol and not silent,
                         {"root": name, "file": file,
                          "diagnostic_sites": len(ms), "functions": nf})
            for s in ms:
                c.obligation(not any(v[0] == s for v in viol))
            for site, who, lost in viol:
                if site is None:
                    c.violate("accept:%s:?" % name, "%s() can succeed after "
                              "an error diagnostic" % name)
                    continue
                c.violate("accept:%s:%s:%s" % (name, who[0], who[1]),
                          "%s:%d: %s() succeeds although %s() reported an "
                          "error here through %s()%s" %
                          (site[0], site[1], name, who[0], who[1],
                           "; lost in %s() (%s:%d)" % lost if lost else ""))
            if silent:
                c.violate("silent:%s" % name,
                          "%s:%d: %s() can fail without any error "
                          "diagnostic" % (file, line, name))
        else:
            _, _, _, _, calls, bad, early, nn, nf = r
            nodes += nn
            if not any(n.startswith("ort_parse") for n in calls.values()):
                continue
            ntools += 1
            ncalls += len(calls)
            c.obligation(not bad and not early,
                         {"tool": file, "api_calls": len(calls)})
            if "exit" in bad:
                c.violate("exit:%s" % file,
                          "%s:%d: main() can exit successfully although the "
                          "configuration was rejected" % (file, line))
            if "lost" in bad:
                c.violate("unreported:%s" % file,
                          "%s:%d: main() can exit without printing the "
                          "diagnostics of a rejected configuration" %
                          (file, line))
            for site, n in early.items():
                c.violate("output:%s:%s" % (file, n),
                          "%s:%d: main() calls %s() for a rejected "
                          "configuration" % (site[0], site[1], n))
    c.floor("diagnostic_sites", nsites, 200)
    c.floor("tools", ntools, 12)
    c.floor("tool_api_calls", ncalls, 60)
    c.cov["cfg_nodes"] = nodes
    c.assume += ["diagnostics are issued through ort_msg()/ort_msgv()"]
    return c.finish(
        "an error or fatal diagnostic on a path makes the public function "
        "return failure; a parse/link failure has a diagnostic; a tool whose "
        "configuration was rejected prints its diagnostics, generates "
        "nothing and exits non-zero",
        "interprocedural path-sensitive dataflow: states are tagged at each "
        "error diagnostic and the tag is compared with the sign of the value "
        "each public function returns; tools are analysed against the "
        "contracts of the public functions they call")


main("P03", body)
