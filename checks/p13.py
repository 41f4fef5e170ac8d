"""P13: generated operations are open to exactly the roles given for them, and
roles change only as documented."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from common import *
from gen import *
from par import pmap
from codeproj import Code

GENS = {"C": ("ort_lang_c_source", "ORT_LANG_C_DB_SQLBOX"),
        "JS": ("ort_lang_nodejs", "ORT_LANG_NODEJS_DB"),
        "RUST": ("ort_lang_rust", None)}
T = "C.sq{s}"
# role trees: name -> parent; the reserved roles are always there
TREES = {"two levels": {"u": "all", "v": "u", "w": "u", "x": "w", "y": "all"},
         "flat": {"y": "all", "u": "all"},
         "chain": {"u": "all", "v": "u", "w": "v"},
         "empty": {}}
STYPES = ["STYPE_SEARCH", "STYPE_LIST", "STYPE_ITERATE", "STYPE_COUNT"]
KINDS = ["insert", "update", "delete"] + STYPES


def order(tree):
    """Roles as in the list of all roles."""
    out = ["none", "default", "all"]

    def go(p):
        for x in tree:
            if tree[x] == p:
                out.append(x)
                go(x)
    go("all")
    return out


def closure(tree, roles):
    """The roles that are one of these or below."""
    out = set()
    for x in order(tree):
        y = x
        while y is not None:
            if y in roles and x != "all":
                out.add(x)
            y = tree.get(y)
    return out


def config(prog, tree, lang):
    m = NameGen(prog)
    m.literals = True
    m.shapes["C.sq"] = "s"
    m.otype[T] = "strct"
    m.vals[(T, "name")] = frozenset([("s", "foo")])
    m.val(T, "cfg", "C")
    m.val(T, "doc", None)
    for l in ("sq", "uq", "dq", "aq", "nq", "rq"):
        m.shapes[T + "." + l] = ""
    m.shapes[T + ".fq"] = "in"
    for x, t, fl in (("i", "FTYPE_INT", ["FIELD_ROWID"]),
                     ("n", "FTYPE_INT", [])):
        o = T + ".fq{%s}" % x
        m.otype[o] = "field"
        m.vals[(o, "name")] = frozenset([("s", "f" + x)])
        m.val(o, "type", t)
        m.val(o, "parent", T)
        m.flags(o, fl)
        for k in ("ref", "enm", "bitf", "doc", "rolemap"):
            m.val(o, k, None)
        m.shapes[o + ".fvq"] = ""
    m.val(T, "ins", None)
    m.flags(T, [])
    for l in ("eq", "bq"):
        m.shapes["C." + l] = ""
    m.flags("C", [])
    m.otype["C.args"] = GENS[lang][0].replace("_source", "")
    if GENS[lang][1]:
        m.flags("C.args", [GENS[lang][1]])
        m.val("C.args", "header", None)
        m.val("C.args", "includes", 0)
    # the tree of roles: every role is named by its place
    paths = {}
    if tree is None:
        m.shapes["C.rq"] = m.shapes["C.arq"] = ""
        return m, paths
    names = order(tree)
    ids = {"none": "n", "default": "d", "all": "a"}
    ids.update({x: x for x in tree})
    m.shapes["C.rq"] = "nda"
    for x in names:
        p = tree.get(x)
        paths[x] = "C.rq{%s}" % ids[x] if p is None else \
            paths[p] + ".subrq{%s}" % ids[x]
    m.shapes["C.arq"] = "".join(ids[x] for x in names)
    for o, x in [(paths[x], x) for x in names] + \
            [("C.arq{%s}" % ids[x], x) for x in names]:
        m.otype[o] = "role"
        m.vals[(o, "name")] = frozenset([("s", x)])
        m.val(o, "parent", paths[tree[x]] if x in tree else None)
        m.val(o, "doc", None)
        m.shapes[o + ".subrq"] = "".join(y for y in tree if tree[y] == x)
    return m, paths


def operation(m, kind, paths, roles):
    """The operation under scrutiny, after another of its kind; its label in
    the target language is returned."""
    def rolemap(o, rs, given=True):
        if rs is None:
            m.val(o, "rolemap", None)
            return
        m.val(o, "rolemap", o + ".rolemap")
        m.otype[o + ".rolemap"] = "rolemap"
        ids = "123456"[:len(rs)]
        m.shapes[o + ".rolemap.rq"] = ids
        for i, r in zip(ids, rs):
            q = o + ".rolemap.rq{%s}" % i
            m.otype[q] = "rref"
            m.val(q, "role", paths[r])
    if kind == "insert":
        m.val(T, "ins", T + ".ins")
        m.otype[T + ".ins"] = "insert"
        rolemap(T + ".ins", roles)
        return "INSERT", "Insert"
    l = "sq" if kind in STYPES else "uq" if kind == "update" else "dq"
    m.shapes[T + "." + l] = "ab"
    for x in "ab":
        o = T + ".%s{%s}" % (l, x)
        m.otype[o] = "search" if l == "sq" else "update"
        m.val(o, "parent", T)
        m.vals[(o, "name")] = frozenset([("s", "op" + x)])
        m.val(o, "doc", None)
        rolemap(o, roles if x == "b" else None)
        if l == "sq":
            m.val(o, "type", kind)
            m.val(o, "limit", 0)
            m.val(o, "offset", 0)
            for k in ("dst", "aggr", "group"):
                m.val(o, k, None)
            for k in ("sntq", "ordq"):
                m.shapes[o + "." + k] = ""
        else:
            m.val(o, "type", "UP_MODIFY" if l == "uq" else "UP_DELETE")
            m.val(o, "flags", 0)
            m.shapes[o + ".mrq"] = "1" if l == "uq" else ""
            m.shapes[o + ".crq"] = ""
            if l == "uq":
                q = o + ".mrq{1}"
                m.otype[q] = "uref"
                m.val(q, "field", T + ".fq{n}")
                m.val(q, "mod", "MODTYPE_SET")
    n = {"sq": "BY_SEARCH", "uq": "UPDATE", "dq": "DELETE"}[l]
    t = {"sq": "BySearch", "uq": "Update", "dq": "Delete"}[l]
    return n + "_1", t + "1"


def perms(xs, sep=""):
    """As many of these as there are, in any order."""
    one = "(" + "|".join(xs) + ")"
    return one + "(%s%s){%d}" % (sep, one, len(xs) - 1) if len(xs) > 1 \
        else one


def opspec(lang, tree, roles, label):
    """(must match, [must not match])"""
    C, R_ = label
    if lang == "C":
        lab = r"STMT_foo_" + C
        call = r"if\(!sqlbox_role_hier_stmt\(hier,ROLE_(%s)," + lab + \
            r"\)\)goto err;"
        if tree is None:
            return ".*", [r".*(sqlbox_role|ROLE_|hier).*"]
        given = set(roles or ())
        ok = closure(tree, given)
        need = (given - {"all"}) | (
            {x for x in tree if tree[x] == "all"} if "all" in given else set())
        no = set(order(tree)) - ok
        # one machine for each role that is needed
        use = r".*sqlbox_role_hier_gen\(hier,&cfg\.roles,ROLE_default\)" \
            r".*sqlbox_alloc\(&cfg\).*"
        return [".*" + call % x + use for x in sorted(need)] or [use], \
            [r".*sqlbox_role_hier_stmt\(hier,ROLE_(%s),%s\).*" %
             ("|".join(sorted(no)), lab)]
    if lang == "JS":
        lab = r"ortstmt\.ortstmt\.STMT_foo_" + C + r"\)"
        who = r"this\.#role"
        run = r"\.(run|get|all|iterate)\("
        deny = r"process\.abort\(\);"
        guard = lambda xs: r"switch\(this\.#role\)\{" + perms(
            ["case ?['\"]%s['\"]:" % x for x in xs]) + \
            r"break;default:process\.abort\(\);\}"
    else:
        lab = r"stmt::Ortstmt::Foo" + R_ + r"\)"
        who = r"self\.role"
        run = r"\.(query|execute|insert)\("
        deny = r"panic!\([^)]*\);"
        guard = lambda xs: r"if!\(" + perms(
            [r"self\.role==Ortrole::%s" % x.title() for x in xs], r"\|\|") + \
            r"\)\{panic!\([^)]*\);?\}"
    never = [".*" + lab + ".*" + lab + ".*"]
    if tree is None:
        return [".*" + lab + ".*"], never + [
            ".*" + lab + "[^{}]*(" + deny + "|" + who + "[^,)]).*" + run +
            ".*"]
    ok = sorted(closure(tree, set(roles or ())))
    g = guard(ok) if ok else deny
    flat = r"[^{}]*"
    pat = r".*\{(" + flat + lab + flat + g + "|" + flat + g + \
        r"[^{}]*" + lab + r").*"
    never.append(".*" + lab + flat + run + flat + (
        r"(switch\(" + who if lang == "JS" else r"(if!\(" + who) +
        "|" + deny + ").*")
    return [pat], never


def transitions(lang, tree):
    if tree is None:
        return [".*"], [{"C": ".*ROLE_.*", "JS": r".*db_role\(.*",
                         "RUST": r".*Ortrole.*"}[lang]]
    anc = {}
    for x in tree:
        a = []
        y = tree[x]
        while y != "all":
            a.append(y)
            y = tree[y]
        anc[x] = a
    if lang == "C":
        blocks = [r"case ROLE_default:ctx->role=r;return;"]
        for x in tree:
            blocks.append(r"case ROLE_%s:" % x + (
                r"switch\(r\)\{" + perms(
                    ["case ROLE_%s:" % y for y in anc[x]]) +
                r"ctx->role=r;return;default:abort\(\);\}break;"
                if anc[x] else r"abort\(\);"))
        hier = []
        no = []
        for x in tree:
            for y in order(tree):
                t = r".*if\(!sqlbox_role_hier_child\(hier,ROLE_%s,ROLE_%s\)" \
                    r"\)goto err;.*sqlbox_role_hier_gen\(.*" % (y, x)
                (hier if tree[x] == y and y != "all" else no).append(t)
        no.append(r".*hier_child\(hier,[^,]*,ROLE_(none|default|all)\).*")
        return [r".*db_role\(struct ort\*ctx,enum ort_role r\)\{"
                r"if\(!sqlbox_role\(ctx->db,r\)\)exit\(EXIT_FAILURE\);"
                r"if\(r==ctx->role\)return;"
                r"if\(ctx->role==ROLE_none\)abort\(\);"
                r"if\(r==ROLE_none\)\{ctx->role=r;return;\}"
                r"switch\(ctx->role\)\{" + perms(blocks) +
                r"default:abort\(\);\}\}.*",
                r".*if\(!sqlbox_role_hier_sink\(hier,ROLE_none\)\)goto err;"
                r".*sqlbox_role_hier_gen\(.*ctx->role=ROLE_default;.*",
                r".*if\(!sqlbox_role_hier_start\(hier,ROLE_default\)\)"
                r"goto err;.*sqlbox_role_hier_gen\(.*",
                r".*db_role_current\(struct ort\*ctx\)\{return ctx->role;\}.*",
                ] + hier, no
    if lang == "JS":
        q = "['\"]%s['\"]"
        blocks = [r"case ?%s:this\.#role=newrole;return;" % q % "default"]
        for x in tree:
            blocks.append(
                r"case ?%s:switch\(newrole\)\{" % q % x + perms(
                    ["case ?%s:" % q % y for y in anc[x] + ["none"]]) +
                r"this\.#role=newrole;return;default:break;\}break;")
        return [r".*db_role\(newrole:string\):void\{"
                r"if\(this\.#role===newrole\)return;"
                r"if\(this\.#role==='none'\)process\.abort\(\);"
                r"if\(newrole==='all'\)process\.abort\(\);"
                r"switch\(this\.#role\)\{" + perms(blocks) +
                r"default:break;\}process\.abort\(\);\}.*",
                r".*#role:string='default';.*",
                r".*db_role_current\(\):string\{return this\.#role;\}.*"], []
    O = "Ortrole::%s"
    blocks = [r"Ortrole::Default=>\{self\.role=newrole;return;\},?"]
    for x in tree:
        blocks.append((O % x.title()) + r"=>\{if " + perms(
            ["newrole==" + O % y.title() for y in anc[x] + ["none"]],
            r"\|\|") + r"\{self\.role=newrole;return;\}\},?")
    return [r".*fn db_role\(&mut self,newrole:Ortrole\)\{"
            r"if self\.role==newrole\{return;\}"
            r"if self\.role==Ortrole::None\{panic!\([^)]*\);\}"
            r"match self\.role\{" + perms(blocks) +
            r"_=>\{\},?\}panic!\([^)]*\);\}.*",
            r".*role:Ortrole::Default,.*",
            r".*fn db_role_current\(&self\)->Ortrole\{return self\.role;\}.*",
            r".*enum Ortrole\{" + "".join(
                x.title() + "," for x in order(tree) if x != "all") +
            r"\}.*"], []


def body(c):
    prog = front.load()
    todo = []
    for lang in GENS:
        for tn, tree in list(TREES.items()) + [("none", None)]:
            todo.append(("transitions", lang, tn, tree, None))
            if tree is None:
                sets = [None]
            else:
                sets = [None, ("default",), ("all",), ("default", "all"),
                        ("all", "default")]
                sets += [(x,) for x in tree]
                if tn == "two levels":
                    sets += [("v", "w"), ("w", "v"), ("u", "default"),
                             ("y", "w", "default")]
            for kind in KINDS:
                for s in sets:
                    todo.append((kind, lang, tn, tree, s))
    want = os.environ.get("P13")
    if want:
        todo = [t for t in todo if want in "%s %s %s %s" % (
            t[0], t[1], t[2], t[4])]

    def one(x):
        kind, lang, tn, tree, roles = x
        m, paths = config(prog, tree, lang)
        if kind == "transitions":
            must, never = transitions(lang, tree)
        else:
            label = operation(m, kind, paths, roles)
            must, never = opspec(lang, tree, roles, label)
        if isinstance(must, str):
            must = [must]
        ms = [(p, Code(lang, Lang(p))) for p in must + never]
        m.machines = ms
        fn = prog.func(GENS[lang][0])
        if fn is None:
            raise Fatal(GENS[lang][0] + " is gone")
        bad = set()
        n = 0
        for st, v in m.runfn(fn, [ptr("C.args"), ptr("C"), None]):
            if v == ZERO:
                continue
            n += 1
            for i, (p, k) in enumerate(ms):
                if k.accepts(m.state(st, i)) != (i < len(must)):
                    bad.add(("missing: " if i < len(must) else
                             "not allowed: ") + p)
        if n == 0:
            bad.add("no path succeeds")
        return x, sorted(bad), n, sorted(m.ai.funcs_analysed)

    funcs = set()
    n = 0
    res = pmap(one, todo)
    for (kind, lang, tn, tree, roles), bad, k, fs in res:
        funcs |= set(fs)
        n += k
        what = "%s, roles %s given %s" % (
            kind, tn, ", ".join(roles) if roles else "no role")
        c.obligation(not bad, sample={"scenario": what, "language": lang})
        if bad:
            c.violate("role|%s|%s" % (what, lang),
                      "%s: %s interface: %s: %s" % (
                          GENS[lang][0], lang, what, bad[0][:500]))
    if not want:
        c.floor("scenarios", len(res), 500)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "in every generated interface, each operation runs its statement only "
        "after a check that admits exactly the roles given for it and those "
        "below them, and the function changing roles admits exactly the "
        "documented changes",
        "Dataflow over the whole generators on symbolic configurations; the "
        "text of each successful path, without comments and layout, is "
        "tracked through automata for what must and what must not be in it.")


if __name__ == "__main__":
    main("P13", body)
