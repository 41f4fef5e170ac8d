"""P05: what the parser makes of a configuration is what ort(5) says it
means."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
from common import *
from parsemodel import *
from par import pmap
import syntax

I64 = 2 ** 63 - 1
M = {}


def mac(n):
    return M[n]


def iv(i, lo=-I64, hi=I64, mul=1, add=0):
    return ("iv", i, lo, hi, mul, add)


def INT(i, lo=-I64, hi=I64, act=None):
    return Tok("int", (i, lo, hi), act)


def kw(w, act=None):
    return Tok("kw", w, act)


def name(i, act=None):
    return Tok("name", i, act)


def skip(*ks):
    """Tokens that are allowed, but followed up in other scenarios."""
    return Alt(*[Tok(k, None, NIX) for k in ks])


def lit(i, act=None):
    return Tok("lit", i, act)


SEMI = Tok(";")
REJ = lambda ctx: REJECT
NIX = lambda ctx: FREE


def attr(ctx, kind, a):
    return get(ctx, ("a", "N:" + kind, a))


def orflag(kind, flag):
    def f(ctx):
        v = attr(ctx, kind, "flags") or 0
        return put(ctx, (("a", "N:" + kind, "flags"), v | mac(flag)))
    return f


def doc(kind, i="Doc"):
    return Seq(kw("comment"), lit(i, once(kind, "doc", ("copy", i))))


# ------------------------------------------------------------- structures
def struct(*body, end=None, n="S"):
    return Seq(kw("struct"), name(n, new("strct", "C.sq", name=("low", n),
                                         cfg="C")),
               Tok("{"), *body, Tok("}"), Tok(";", None, end))


def newfield(n="F"):
    return name(n, new("field", "N:strct.fq", name=("low", n),
                       parent="N:strct"))


OTHER = Tok("name", "other", NIX)
PLAIN = Seq(kw("field"), newfield("Fa"), Alt(
    SEMI, skip(":"), OTHER))
P1 = Seq(PLAIN, Opt(skip("}")))


# ----------------------------------------------------------------- fields
def resolve1(rtype, member, **kv):
    r = {member + "__" + k: v for k, v in kv.items()}
    return resolves(rtype, **r)


ALIASES = [("bit", "FTYPE_BIT"), ("bits", "FTYPE_BITFIELD"),
           ("bitfield", "FTYPE_BITFIELD"), ("blob", "FTYPE_BLOB"),
           ("date", "FTYPE_DATE"), ("double", "FTYPE_REAL"),
           ("real", "FTYPE_REAL"), ("email", "FTYPE_EMAIL"),
           ("enum", "FTYPE_ENUM"), ("epoch", "FTYPE_EPOCH"),
           ("int", "FTYPE_INT"), ("integer", "FTYPE_INT"),
           ("password", "FTYPE_PASSWORD"), ("passwd", "FTYPE_PASSWORD"),
           ("struct", "FTYPE_STRUCT"), ("text", "FTYPE_TEXT"),
           ("txt", "FTYPE_TEXT")]


def rowid(ty, ref):
    def f(ctx):
        fl = attr(ctx, "field", "flags") or 0
        if ref:
            return FREE
        if ty != "FTYPE_INT" or fl & mac("FIELD_NULL"):
            return REJECT
        if attr(ctx, "strct", "rowid") or fl & mac("FIELD_UNIQUE"):
            return FREE
        return put(orflag("field", "FIELD_ROWID")(ctx),
                   (("a", "N:strct", "rowid"), "N:field"))
    return f


def unique(ty, ref):
    def f(ctx):
        fl = attr(ctx, "field", "flags") or 0
        if ty == "FTYPE_STRUCT" or fl & mac("FIELD_ROWID"):
            return FREE
        return orflag("field", "FIELD_UNIQUE")(ctx)
    return f


def null(ty, ref):
    def f(ctx):
        fl = attr(ctx, "field", "flags") or 0
        if fl & mac("FIELD_ROWID"):
            return REJECT
        if ty == "FTYPE_STRUCT":
            return FREE
        return orflag("field", "FIELD_NULL")(ctx)
    return f


def action(word, ty, ref):
    bad = not ref or ty == "FTYPE_STRUCT"
    alts = [kw(w, sets("field", **{word: u}))
            for u, w in syntax.UPACT.items()]
    return Seq(kw(word, REJ if bad else None), Alt(*alts))


def default(ty):
    def hasdef(act):
        def f(ctx):
            fl = attr(ctx, "field", "flags") or 0
            if fl & mac("FIELD_HASDEF"):
                return FREE
            return acts(orflag("field", "FIELD_HASDEF"), act)(ctx)
        return f
    k = syntax.DEFAULT.get(ty)
    if k is None:
        return Seq(kw("default", REJ), SEMI)
    if k == "integer":
        x = INT("D", act=hasdef(sets("field", def__integer=iv("D"))))
    elif k == "decimal":
        x = Alt(INT("D", act=hasdef(sets("field", def__decimal=iv("D")))),
                Tok("dec", "Dd", hasdef(sets("field", def__decimal=(
                    "qn", "tok:Dd", 0)))))
    elif k == "string":
        x = lit("Dl", hasdef(sets("field", def__string=("copy", "Dl"))))
    elif k == "date":
        z = ["0"]

        def s(a):
            return [str(a)]
        want = ("qn", "date" + repr([
            s(iv("Y", 1900 - 1900, 3000 - 1900, 1, -1900)),
            s(iv("Mo", 0, 11, -1, -1)), s(iv("Da", 1, 31, -1, 0)),
            z, z, z, ["-1"]]), 0)
        x = Seq(INT("Y", 1900, 3000), INT("Mo", -12, -1),
                INT("Da", -31, -1, hasdef(sets("field",
                                               def__integer=want))))
    else:
        x = name("De", hasdef(acts(
            sets("field", def__integer="any", def__string="any",
                 def__decimal="any"),
            resolve1("RESOLVE_FIELD_DEFAULT_EITEM", "field_def_eitem",
                     result="N:field", name=("copy", "De")))))
    return Seq(kw("default"), x)


def limit(ty):
    k = syntax.LIMIT.get(ty)
    if k is None:
        return Seq(kw("limit", REJ), SEMI)
    alts = []
    for v, w in syntax.VTYPE.items():
        def mk(i, val, k=k):
            return sets("fvalid", **{"d__value__" + k: val})
        lo = 0 if k == "len" else -I64
        num = [INT("L" + w, lo, I64, mk("L" + w, iv("L" + w, lo, I64)))]
        if k == "len":
            num.append(INT("Ln", -I64, -1, REJ))
        if k == "decimal":
            num.append(Tok("dec", "Ld" + w, mk("Ld" + w, ("qn", "tok:Ld" + w,
                                                         0))))
        alts.append(Seq(kw(w, acts(
            lambda ctx: FREE if get(ctx, ("v", "lim")) else
            put(ctx, (("v", "lim"), 1)),
            new("fvalid", "N:field.fvq", type=v))), Alt(*num)))
    return Seq(kw("limit"), Alt(*alts))


def endfield(ty):
    def f(ctx):
        fl = attr(ctx, "field", "flags") or 0
        acts_ = [attr(ctx, "field", a) for a in ("actup", "actdel")]
        if "UPACT_DEFAULT" in acts_ and not fl & (
                mac("FIELD_NULL") | mac("FIELD_HASDEF")):
            return REJECT
        if "UPACT_NULLIFY" in acts_ and not fl & mac("FIELD_NULL"):
            return REJECT
        if ty == "FTYPE_PASSWORD":
            ctx = put(ctx, (("v", "cfgflags"), mac("CONFIG_HAS_PASS")))
        return ctx
    return f


def fieldtail(alias, ty, ref, opts):
    tyact = sets("field", type=ty)
    head = [kw(alias, tyact)]
    if ty == "FTYPE_STRUCT":
        if ref:
            head = [kw(alias, REJ)]
        else:
            head = [kw(alias, acts(tyact, new("ref", None, parent="N:field"),
                                   sets("field", ref="N:ref"))),
                    name("Rs", resolve1("RESOLVE_FIELD_STRUCT",
                                        "field_struct", result="N:ref",
                                        sfield=("copy", "Rs")))]
    elif ty == "FTYPE_ENUM":
        head.append(name("En", resolve1("RESOLVE_FIELD_ENUM", "field_enum",
                                        result="N:field",
                                        name=("copy", "En"))))
    elif ty == "FTYPE_BITFIELD":
        head.append(name("Bf", resolve1("RESOLVE_FIELD_BITS", "field_bits",
                                        result="N:field",
                                        name=("copy", "Bf"))))
    elif ty == "FTYPE_BLOB":
        head[0] = kw(alias, acts(tyact, sets("strct", flags=mac(
            "STRCT_HAS_BLOB"))))
    o = {"rowid": lambda: kw("rowid", rowid(ty, ref)),
         "unique": lambda: kw("unique", unique(ty, ref)),
         "null": lambda: kw("null", null(ty, ref)),
         "noexport": lambda: kw("noexport", orflag("field",
                                                   "FIELD_NOEXPORT")),
         "actdel": lambda: action("actdel", ty, ref),
         "actup": lambda: action("actup", ty, ref),
         "default": lambda: default(ty), "limit": lambda: limit(ty),
         "comment": lambda: doc("field")}
    return Seq(*head, Star(Alt(*[o[x]() for x in opts])),
               Tok(";", None, endfield(ty)))


VTYPE_OF = {w: v for v, w in syntax.VTYPE.items()}
OPTSETS = [("rowid", "unique", "null", "noexport"),
           ("actdel", "null", "default"), ("actup", "null", "default"),
           ("actdel", "actup"),
           ("default", "noexport", "limit"), ("limit", "unique"),
           ("comment", "null"), ("comment", "rowid", "limit"),
           ("comment", "default", "actup")]


def foreign(f="F"):
    return Seq(Tok(":", None, acts(new("ref", None, parent="N:field",
                                       source="N:field"),
                                   sets("field", ref="N:ref"))),
               name("Ts"), Tok("."),
               name("Tf", resolve1("RESOLVE_FIELD_FOREIGN", "field_foreign",
                                   result="N:ref", tstrct=("copy", "Ts"),
                                   tfield=("copy", "Tf"))))


def fieldscen():
    out = []
    for alias, ty in ALIASES:
        for ref in (False, True):
            for opts in OPTSETS:
                x = [kw("field"), newfield()]
                if ref:
                    x.append(Alt(foreign(), Tok(";", None, NIX)))
                x.append(Alt(fieldtail(alias, ty, ref, opts),
                             Tok(";", None, NIX), Tok(":", None, NIX)))
                out.append(("field %s%s: %s" % (
                    "reference " if ref else "", alias, "/".join(opts)),
                    struct(Seq(*x))))
    out.append(("field without type", struct(
        Seq(kw("field"), newfield(), Alt(OTHER, Seq(
            Opt(foreign()), SEMI))),
        Opt(Seq(kw("field"), newfield("G"), Opt(skip(";")), kw("text", sets(
            "field", type="FTYPE_TEXT")), SEMI)))))
    return out


def limitscen():
    """Limits in sequence: only one with the operator and value of another
    is refused."""
    out = []
    for alias, ty in ALIASES:
        k = syntax.LIMIT.get(ty)
        if k is None or ty == "FTYPE_BITFIELD":
            continue
        for w1 in ("ge", "lt"):
            def lim(n, prev):
                def mk(w, v):
                    return (lambda ctx: REJECT) if (w, v) in prev else sets(
                        "fvalid%d" % n, **{"d__value__" + k: v})
                ws = {w1: (3, 5, 7), "le": (5,)} if prev else {w1: (5,)}
                return Seq(kw("limit"), Alt(*[Seq(kw(w, new(
                    "fvalid%d" % n, "N:field.fvq", type=VTYPE_OF[w])), Alt(
                        *[Tok("int", v, mk(w, v)) for v in vs],
                        *([Tok("dec", "other", NIX)] if k == "decimal"
                          else [])))
                    for w, vs in ws.items()]))
            fl = {} if ty != "FTYPE_BLOB" else {
                "flags": mac("STRCT_HAS_BLOB")}
            alsos = Alt(*[Tok(t, v, NIX) for t, v in (
                (";", None), ("name", "other"))])
            out.append(("limits %s %s" % (alias, w1), struct(Seq(
                kw("field"), newfield(), Alt(Seq(kw(alias, acts(
                    sets("field", type=ty), sets("strct", **fl))),
                    Alt(Seq(lim(0, ()), Alt(Seq(lim(1, {(w1, 5)}), Alt(
                        Tok(";", None, endfield(ty)), alsos.xs[1])), *alsos.xs)), *alsos.xs)),
                    Tok(":", None, NIX), *alsos.xs)))))
    return out


# ---------------------------------------------------------------- queries
def chain(pre, kind, list_, rtype, member, extra=None, uname=False,
          hasname=True, depth=3):
    """A dotted field name, and what is recorded of it."""
    ids = [pre + str(i) for i in range(1, depth + 1)]

    def want(n):
        f = []
        for x in ids[:n]:
            f += [".", x]
        a = {"fname": ("buf", tuple(f[1:]))}
        if uname:
            a["uname"] = ("buf", tuple("_" if x == "." else x
                                       for x in f[1:]))
        if hasname:
            a["name"] = ("buf", tuple(f[1:-2])) if n > 1 else None
        return a

    def res(n):
        return resolves(rtype, **{member + "__names": (
            "names", tuple(ids[:n])), member + "__result": "N:" + kind})

    def step(n):
        def f(ctx):
            if n == 1:
                ctx = new(kind, list_, parent="N:search", **want(1))(ctx)
                if extra:
                    ctx = extra(ctx)
                    if ctx in (REJECT, FREE):
                        return ctx
            else:
                ctx = res(n - 1)(sets(kind, **want(n))(ctx), -1)
            return res(n)(ctx)
        if n == 1:
            f.news = ("N:" + kind,)
        return f

    x = None
    for n in range(depth, 0, -1):
        t = name(ids[n - 1], step(n))
        x = Seq(t, Opt(Seq(Tok("."), x))) if x else \
            Seq(t, Opt(skip(".")))
    return x


STY = {"search": "STYPE_SEARCH", "list": "STYPE_LIST",
       "iterate": "STYPE_ITERATE", "count": "STYPE_COUNT"}


def term(pre="A", depth=3, single=False):
    ops = [kw(w, sets("sent", op=o)) for o, w in syntax.OPTYPE.items()]
    return Seq(chain(pre, "sent", "N:search.sntq", "RESOLVE_SENT",
                     "struct_sent", uname=True, depth=depth),
               Opt(Alt(*ops)), *([Opt(skip(","))] if single else []))


def only(a):
    """A parameter about whose repetition nothing is said."""
    def f(ctx):
        if attr(ctx, "search", a) is not None:
            return FREE
        return ctx
    return f


def param(p, depth=2):
    if p == "name":
        return Seq(kw("name", only("name")),
                   name("Qn", sets("search", name=("low", "Qn"))))
    if p == "comment":
        return doc("search")
    if p == "limit":
        return Seq(kw("limit", only("limit")),
                   Alt(INT("Ql", 1, I64, sets("search", limit=iv(
                       "Ql", 1, I64))), INT("Qx", -I64, -1, REJ)),
                   Opt(Seq(Tok(","), Alt(
                       INT("Qo", 0, I64, sets("search", offset=iv(
                           "Qo", 0, I64))), INT("Qy", -I64, -1, REJ)))))
    if p in ("minrow", "maxrow"):
        op = "AGGR_" + p.upper()
        return Seq(kw(p, only("aggr")),
                   chain("G", "aggr", None, "RESOLVE_AGGR", "struct_aggr",
                         acts(sets("aggr", op=op),
                              sets("search", aggr="N:aggr")), depth=depth))
    if p == "grouprow":
        return Seq(kw(p, only("group")),
                   chain("H", "group", None, "RESOLVE_GROUPROW",
                         "struct_grouprow", sets("search", group="N:group"),
                         depth=depth))
    if p == "order1":
        return Seq(kw("order"), chain(
            "O", "ord", "N:search.ordq", "RESOLVE_ORDER", "struct_order",
            depth=1), Opt(kw("desc", sets("ord", op="ORDTYPE_DESC"))),
            Opt(skip(",")))
    if p == "order":
        o = Seq(chain("O", "ord", "N:search.ordq", "RESOLVE_ORDER",
                      "struct_order", depth=depth),
                Opt(Alt(kw("asc", sets("ord", op="ORDTYPE_ASC")),
                        kw("desc", sets("ord", op="ORDTYPE_DESC")))))
        return Seq(kw("order"), sepby(o))
    if p == "distinct":
        return Seq(kw(p, only("dst")), Alt(
            Tok(".", None, acts(new("dstnct", None, parent="N:search",
                                    strct="N:strct", fname=("s", ".")),
                                sets("search", dst="N:dstnct"))),
            chain("K", "dstnct", None, "RESOLVE_DISTINCT", "struct_distinct",
                  sets("search", dst="N:dstnct"), hasname=False,
                  depth=depth)))
    raise Fatal(p)


def endquery(ty):
    def f(ctx):
        if bool(attr(ctx, "search", "group")) != \
                bool(attr(ctx, "search", "aggr")):
            return REJECT
        d = attr(ctx, "search", "dst")
        if d and attr(ctx, "dstnct", "strct") is None:
            return ctx
        fl = {"list": "STRCT_HAS_QUEUE",
              "iterate": "STRCT_HAS_ITERATOR"}.get(ty)
        return orflag("strct", fl)(ctx) if fl else ctx
    return f


def query(ty, terms, params, depth=2):
    end = Tok(";", None, endquery(ty))
    tail = []
    if params:
        ps = Star(Alt(*[param(p, depth) for p in params]))
        tail = [Opt(Seq(Tok(":"), ps))]
    head = kw(ty, new("search", "N:strct.sq", type=STY[ty],
                      parent="N:strct"))
    if terms and not isinstance(terms, Opt):
        terms = Alt(terms, skip(";", ":"))
    elif not terms:
        terms = Opt(OTHER)
    end = [end] if params else [Alt(end, skip(":"))]
    return Alt(Seq(head, *([terms] if terms else []), *tail, *end),
               skip("}"))


def brief(ty):
    """A query with one term or a name."""
    return Seq(kw(ty, new("search", "N:strct.sq", type=STY[ty],
                          parent="N:strct")),
               Alt(Seq(chain("A", "sent", "N:search.sntq", "RESOLVE_SENT",
                             "struct_sent", uname=True, depth=1),
                       Opt(skip(",", ":"))),
                   Seq(Tok(":"), Opt(skip(";")), kw("name"), name("Qn", sets(
                       "search", name=("low", "Qn")))), skip(";")),
               Tok(";", None, endquery(ty)))


def queryscen():
    out = []
    for ty in STY:
        out.append(("%s terms" % ty, struct(
            PLAIN, query(ty, sepby(term("A", 3 if ty == "search" else 2)),
                         None))))
        for ps in (("name", "comment"), ("limit", "name"),
                   ("minrow", "grouprow"), ("maxrow", "grouprow", "name"),
                   ("order",), ("order1", "limit"), ("distinct", "name"),
                   ("order1", "name"), ("minrow", "maxrow"), ("comment", "grouprow")):
            t = term("A", 1, True)
            t = t if ty == "search" else Opt(t)
            out.append(("%s %s" % (ty, "/".join(ps)), struct(
                PLAIN, query(ty, t, ps))))
        if ty != "search":
            out.append(("%s bare" % ty, struct(
                PLAIN, query(ty, None, ("name",)), query(
                    ty, None, ("name",)))))
    out.append(("several queries", struct(
        PLAIN, *[Alt(*[brief(t) for t in STY], skip("}")) for i in "12"])))
    return out


# ------------------------------------------------------- update and delete
def uref(q, pre, member, rtype, more):
    def a(ctx):
        return ctx
    return Seq(name(pre, acts(
        new("uref", "N:update." + q, parent="N:update"),
        resolve1(rtype, member, result="N:uref", name=("copy", pre)))),
        Opt(Alt(*more)))


def update(what, full=True):
    crq = uref("crq", "Uc", "struct_up_const", "RESOLVE_UP_CONSTRAINT",
               [kw(w, sets("uref", op=o)) for o, w in syntax.OPTYPE.items()])
    mrq = uref("mrq", "Um", "struct_up_mod", "RESOLVE_UP_MODIFIER",
               [kw(w, sets("uref", mod=o)) for o, w in syntax.MODTYPE.items()])
    if full:
        crq, mrq = sepby(crq), sepby(mrq)
    else:
        crq, mrq = Seq(crq, Opt(skip(","))), Seq(mrq, Opt(skip(",")))
    ps = Star(Alt(Seq(kw("name", lambda ctx: FREE if attr(
        ctx, "update", "name") else ctx), name("Un", sets(
            "update", name=("low", "Un")))), doc("update")))
    tail = [Opt(Seq(Tok(":"), ps) if full else skip(":"))]
    if what == "update":
        return Seq(kw("update", new("update", "N:strct.uq",
                                    type="UP_MODIFY", parent="N:strct")),
                   Alt(mrq, skip(";", ":")),
                   Opt(Seq(Tok(":"), Opt(crq), *tail)), SEMI)
    return Seq(kw("delete", new("update", "N:strct.dq", type="UP_DELETE",
                                parent="N:strct")),
               Opt(crq), *tail, SEMI)


def updscen():
    nm = Seq(kw("name"), name("Un", sets("update", name=("low", "Un"))))
    up = kw("update", new("update", "N:strct.uq", type="UP_MODIFY",
                          parent="N:strct"))
    allup = Seq(kw("field"), newfield(), Alt(SEMI, skip(":"), OTHER),
                Opt(skip("}")), up, Opt(OTHER),
                Opt(Seq(Tok(":"), Opt(OTHER), Opt(Seq(Tok(":"), Opt(nm))))), SEMI)
    noup = Seq(kw("field"), newfield(), Alt(
        skip(";", ":"), OTHER,
        Seq(kw("int", sets("field", type="FTYPE_INT")), Opt(skip(";")), kw(
            "rowid", rowid("FTYPE_INT", False)), SEMI),
        Seq(kw("struct", acts(sets("field", type="FTYPE_STRUCT"), new(
            "ref", None, parent="N:field"), sets("field", ref="N:ref"))),
            name("Rs", resolve1("RESOLVE_FIELD_STRUCT", "field_struct",
                                result="N:ref", sfield=("copy", "Rs"))),
            SEMI)),
        Opt(skip("}")), up, Alt(SEMI, skip(":"), OTHER))

    def endall(ctx):
        return acts(lambda c: put(c, (("a", "N:update", "flags"),
                                      mac("UPDATE_ALL"))),
                    new("uref", "N:update.mrq", parent="N:update",
                        field="N:field"))(ctx)
    endall.news = ("N:uref",)
    return [("update", struct(P1, update("update"))),
            ("delete", struct(P1, update("delete"))),
            ("update without fields", struct(allup, end=endall)),
            ("update of a struct with nothing to set", struct(
                noup, end=lambda c: put(c, (("a", "N:update", "flags"),
                                            mac("UPDATE_ALL"))))),
            ("updates and deletes", struct(PLAIN, *[Alt(
                update("update", False), update("delete", False), skip("}"))
                for i in "12"]))]


# -------------------------------------------------- other struct statements
def uniquestmt():
    def f(n):
        def g(ctx):
            k = min(n if n else get(ctx, ("v", "uf"), 0) + 1, 2)
            return put(ctx, (("v", "uf"), k))
        return acts(new("nref", "N:unique.nq", parent="N:unique"),
                    resolve1("RESOLVE_UNIQUE", "struct_unique",
                             result="N:nref", name=("copy", "Nf")), g)
    return Seq(kw("unique", new("unique", "N:strct.nq", parent="N:strct")),
               name("Nf", f(1)), Opt(Seq(Tok(","), name("Nf", f(0)), Opt(skip(",")))),
               Tok(";", None, lambda ctx: ctx if get(ctx, ("v", "uf")) > 1
                   else REJECT))


def insert():
    return Seq(kw("insert", acts(
        lambda ctx: FREE if attr(ctx, "strct", "ins") else ctx,
        new("insert", None, parent="N:strct"),
        sets("strct", ins="N:insert"))), SEMI)


NAMED = {"ROLEMAP_COUNT", "ROLEMAP_DELETE", "ROLEMAP_ITERATE",
         "ROLEMAP_LIST", "ROLEMAP_SEARCH", "ROLEMAP_UPDATE"}


def rolestmt(nroles, bodies):
    ids = ["Ro%d" % i for i in range(1, nroles + 1)]
    hd = []
    for i in ids:
        if hd:
            hd.append(Alt(Tok(","), skip("{")))
        hd.append(Alt(name(i), kw("none", REJ)))
    alts = []
    for t, w in syntax.ROLEMAPT.items():
        if t not in bodies:
            continue

        def end(nm, t=t):
            rm = dict(struct_rolemap__type=t, struct_rolemap__result=
                      "N:rolemap")
            if nm:
                rm["struct_rolemap__name"] = ("copy", nm)
            a = acts(new("rolemap", "N:strct.rq", parent="N:strct", type=t),
                     new("rref", "N:rolemap.rq", parent="N:rolemap"),
                     resolves("RESOLVE_ROLEMAP", **rm),
                     *[resolves("RESOLVE_ROLE", struct_role__result="N:rref",
                                struct_role__name=("copy", i))
                       for i in ids])
            return a
        semi = Tok(";", None, end(None))
        # the map is made when its name's end is seen
        named = name("Rn", None), Tok(";", None, end("Rn"))
        if t in NAMED:
            alts.append(Seq(kw(w), Alt(Seq(*named), Tok(";", None, REJ))))
        elif t == "ROLEMAP_NOEXPORT":
            alts.append(Seq(kw(w), Alt(Seq(*named), semi)))
        else:
            alts.append(Seq(kw(w), Alt(name("Rn", REJ), semi)))
    return Seq(kw("roles"), *hd, Opt(skip(",")), Tok("{"), Star(Alt(*alts)), Tok("}"), SEMI)


def mergescen():
    """Two assignments of roles: one map for each operation and name."""
    out = []
    pairs = [("ALL", 0, "ALL", 0), ("ALL", 0, "INSERT", 0),
             ("INSERT", 0, "INSERT", 0), ("NOEXPORT", 0, "NOEXPORT", 0),
             ("NOEXPORT", 0, "NOEXPORT", 1), ("NOEXPORT", 1, "NOEXPORT", 0),
             ("NOEXPORT", 1, "NOEXPORT", 1), ("NOEXPORT", 1, "NOEXPORT", 2),
             ("UPDATE", 1, "UPDATE", 1), ("UPDATE", 1, "UPDATE", 2),
             ("UPDATE", 1, "DELETE", 1), ("SEARCH", 1, "LIST", 1),
             ("LIST", 1, "LIST", 1), ("ITERATE", 1, "ITERATE", 2)]
    for t1, n1, t2, n2 in pairs:
        one = (t1, n1) == (t2, n2)

        def stmt(k, t, n, ids):
            t = "ROLEMAP_" + t
            m = 0 if k == 0 or one else 1
            nm = "Rn%d" % k if n else None
            rm = dict(struct_rolemap__type=t,
                      struct_rolemap__result="N:rolemap%d" % m)
            if nm:
                rm["struct_rolemap__name"] = ("copy", nm)
            a = []
            if k == 0 or not one:
                a += [new("rolemap%d" % m, "N:strct.rq", parent="N:strct",
                          type=t), resolves("RESOLVE_ROLEMAP", **rm)]
            for i, (r, x) in enumerate(ids):
                a += [new("rref%d" % x, "N:rolemap%d.rq" % m,
                          parent="N:rolemap%d" % m),
                      resolves("RESOLVE_ROLE", struct_role__result=
                               "N:rref%d" % x,
                               struct_role__name=("copy", r))]
            return Seq(kw(syntax.ROLEMAPT[t]), *([name(nm)] if nm else [
                ]), Tok(";", None, acts(*a)))

        def rolesof(ids, *body):
            x = []
            for i in ids:
                x += [Tok(",")] * bool(x) + [name(i)]
            return Seq(kw("roles"), *x, Tok("{"), *body, Tok("}"), SEMI)

        if one:
            two = []
            for k in (0, 1):
                x = "N:strct%d" % k
                nm = "Rn%d" % k if n1 else None
                rm = dict(struct_rolemap__type="ROLEMAP_" + t1,
                          struct_rolemap__result="N:rolemap%d" % k)
                if nm:
                    rm["struct_rolemap__name"] = ("copy", nm)
                a = acts(new("rolemap%d" % k, x + ".rq", parent=x,
                             type="ROLEMAP_" + t1),
                         resolves("RESOLVE_ROLEMAP", **rm),
                         new("rref%d" % k, "N:rolemap%d.rq" % k,
                             parent="N:rolemap%d" % k),
                         resolves("RESOLVE_ROLE", struct_role__result=
                                  "N:rref%d" % k,
                                  struct_role__name=("copy", "Ra%d" % k)))
                i, f = "S%d" % k, "Fa%d" % k
                two.append(Seq(
                    kw("struct"), name(i, new("strct%d" % k, "C.sq", name=(
                        "low", i), cfg="C")), Tok("{"),
                    kw("field"), name(f, new("field", x + ".fq", name=(
                        "low", f), parent=x)), SEMI,
                    kw("roles"), name("Ra%d" % k), Tok("{"),
                    kw(syntax.ROLEMAPT["ROLEMAP_" + t1]),
                    *([name(nm)] if nm else []), Tok(";", None, a),
                    Tok("}"), SEMI, Tok("}"), SEMI))
            out.append(("merge not %s" % t1, Seq(*two),
                        {("Rn0", "Rn1")}, {}))
        what = "%s%s, %s%s" % (t1, n1 or "", t2, n2 or "")
        same = {("Rn0", "Rn1")} if n1 == n2 else set()
        out.append(("merge %s" % what, struct(
            PLAIN, rolesof(["Ra", "Rb"], stmt(0, t1, n1, [
                ("Ra", 0), ("Rb", 1)])),
            rolesof(["Rc"], stmt(1, t2, n2, [("Rc", 2)]))), same, {}))
        if not one:
            out.append(("merge in one %s" % what, struct(
                PLAIN, rolesof(["Ra"], stmt(0, t1, n1, [("Ra", 0)]),
                               stmt(1, t2, n2, [("Ra", 1)]))), same, {}))
    return out


def otherscen():
    out = [("unique", struct(P1, uniquestmt())),
           ("insert", struct(P1, insert(), Opt(insert()))),
           ("comment", struct(PLAIN, Star(Seq(doc("strct"), SEMI)))),
           ("empty struct", struct(end=REJ)),
           ("empty struct with comment", struct(doc("strct"), SEMI,
                                                end=REJ))]
    for t in syntax.ROLEMAPT:
        out.append(("roles %s" % t, struct(P1, rolestmt(1, [t]))))
    out.append(("roles, two", struct(P1, rolestmt(2, [
        "ROLEMAP_INSERT", "ROLEMAP_SEARCH"]))))
    out.append(("roles, three", struct(P1, rolestmt(3, [
        "ROLEMAP_NOEXPORT"]))))
    return out


# ------------------------------------------------- enumerations, bitfields
def label(lst):
    """jslabel[.lang] "text": languages 0 (none) and lang1 are known."""
    def lab(l):
        def f(ctx):
            used = get(ctx, ("v", "labs:" + lst), ())
            if len(used) > 1:
                return FREE
            if l in used:
                return REJECT
            ctx = new("label", lst, lang=l, label=("copy", "Lt"))(ctx)
            if l == 2:
                ctx = put(ctx, (("v", "newlang"), 1))
            return put(ctx, (("v", "labs:" + lst),
                             tuple(sorted(used + (l,)))))
        f.news = ("N:label",)
        return f
    texts = lambda l: Alt(lit("Lt", lab(l)), lit("Lempty", REJ))
    return Seq(kw("jslabel"), Alt(
        texts(0),
        Seq(Tok("."), Alt(Seq(kw("lang1"), texts(1)),
                          Seq(name("Lnew", lambda ctx: FREE if get(
                              ctx, ("v", "newlang")) else ctx), texts(2))))))


def nolabels(lst):
    return lambda ctx: put(ctx, (("v", "labs:" + lst), None))


def labelblock(word, lst):
    return Alt(skip("}"), Seq(kw(word), Opt(skip(";")), label(lst),
                              Star(label(lst)), SEMI))


def item(kind, parent, q, val, extra):
    return Seq(kw("item"), name("It", acts(
        new(kind, parent + "." + q, name=("low", "It"), parent=parent),
        nolabels("N:%s.labels" % kind))),
        *([Alt(val, skip(";"))] if kind == "eitem" else [val]), Star(Alt(*extra)), SEMI)


def block(w, o, lst, body, empty=False):
    return Seq(kw(w), name("E", new(o, lst, name=("low", "E"))),
               Tok("{"), body, Tok("}"), Tok(";", None, REJ if empty
                                             else None))


def enumscen():
    val = Alt(INT("V", -I64 + 1, I64 - 1, sets("eitem", value=iv(
        "V", -I64 + 1, I64 - 1))), INT("Vm", I64, I64, REJ))
    auto = Seq()
    out = []
    L = "N:eitem.labels"
    it = lambda v, x: item("eitem", "N:enm", "eq", v, x)
    d = doc("eitem")

    def mark(ctx):
        return put(ctx, (("a", "N:eitem", "flags"), mac("EITEM_AUTO")),
                   (("a", "N:eitem", "value"), "any"))
    autoit = lambda x: Seq(kw("item"), name("It", acts(
        new("eitem", "N:enm.eq", name=("low", "It"), parent="N:enm"),
        nolabels(L), mark)), Opt(Tok("int", ("other", 0, 9), NIX)), Star(Alt(*x)), SEMI)
    out.append(("enum item", block("enum", "enm", "C.eq", it(val, [d]))))
    out.append(("enum items", block("enum", "enm", "C.eq", Seq(
        it(val, [d]), Opt(skip("}")), it(INT("W", -99, 99, sets(
            "eitem", value=iv("W", -99, 99))), [])))))
    out.append(("enum automatic item", block("enum", "enm", "C.eq",
                                             autoit([d]))))
    out.append(("enum labels", block("enum", "enm", "C.eq", it(
        INT("W", -99, 99, sets("eitem", value=iv("W", -99, 99))),
        [label(L), d]))))
    out.append(("enum comment", block("enum", "enm", "C.eq", Seq(
        it(val, []), Star(Seq(doc("enm"), SEMI))))))
    out.append(("enum isnull", block("enum", "enm", "C.eq", Seq(
        it(val, []), labelblock("isnull", "N:enm.labels_null")))))
    out.append(("empty enum", block("enum", "enm", "C.eq", Opt(
        Seq(doc("enm"), SEMI)), True)))
    return out


def bitscen():
    val = Alt(INT("V", 0, 63, sets("bitidx", value=iv("V", 0, 63))),
              INT("Vm", 64, I64, REJ), INT("Vn", -I64, -1, REJ))
    L = "N:bitidx.labels"
    it = lambda v, x: item("bitidx", "N:bitf", "bq", v, x)
    w0 = INT("W", 0, 63, sets("bitidx", value=iv("W", 0, 63)))
    d = doc("bitidx")
    out = []
    for w in ("bits", "bitfield"):
        b = lambda x, e=False: block(w, "bitf", "C.bq", x, e)
        out.append((w + " item", b(it(val, [d]))))
        out.append((w + " items", b(Seq(it(val, [d]), Opt(skip("}")), it(w0, [])))))
        out.append((w + " labels", b(it(w0, [label(L), d]))))
        out.append((w + " comment", b(Seq(it(val, []), Star(
            Seq(doc("bitf"), SEMI))))))
        out.append((w + " isnull", b(Seq(it(w0, []), labelblock(
            "isnull", "N:bitf.labels_null")))))
        out.append((w + " isunset", b(Seq(it(w0, []), labelblock(
            "isunset", "N:bitf.labels_unset")))))
        out.append(("empty " + w, b(Opt(Seq(doc("bitf"), SEMI)), True)))
    return out


# --------------------------------------------------------- what is repeated
def dupscen():
    """Names given twice are refused, also if the letter case differs."""
    out = []
    C = ("C.sq", "C.eq", "C.bq")
    for w, o, lst, body in (
            ("struct", "strct", "C.sq", PLAIN), ("enum", "enm", "C.eq", None),
            ("bits", "bitf", "C.bq", None)):
        for other in C:
            if w == "struct":
                g = Seq(kw("struct"), name("S", REJ), Tok("{"), PLAIN,
                        Tok("}"), SEMI)
            else:
                g = Seq(kw(w), name("S", REJ), Tok("{"), kw("item"),
                        name("It"), INT("V", 0, 9), SEMI, Tok("}"), SEMI)
            out.append(("%s named as another of %s" % (w, other), g,
                        {("S", other + "{!}.name")}, {other: "<!>"}))
    pre = lambda t, o: {(t, "prior:N:%s{!}.name" % o)}
    out.append(("fields of one name", struct(
        Seq(kw("field"), newfield("F"), SEMI), Opt(skip("}")),
        Seq(kw("field"), name("G", REJ), SEMI)),
        {("F", "G")} | pre("G", "strct.fq"), {}, True))
    out.append(("fields of one name, another between", struct(
        Seq(kw("field"), newfield("F"), SEMI), Opt(skip("}")),
        Seq(kw("field"), newfield("H"), SEMI), Opt(skip("}")),
        Seq(kw("field"), name("G", REJ), SEMI)),
        pre("G", "strct.fq"), {}, True))
    q = lambda n, act=None: Seq(
        kw("list", new("search", "N:strct.sq", type="STYPE_LIST",
                       parent="N:strct")), Alt(Tok(":"), skip(";"), OTHER),
        Alt(kw("name"), skip(";")),
        name(n, act or sets("search", name=("low", n))),
        Tok(";", None, endquery("list")))
    out.append(("queries of one name", struct(
        P1, q("Q"), Opt(skip("}")), q("R", REJ)),
        {("Q", "R")} | pre("R", "strct.sq"), {}, True))
    for w, t, lst in (("delete", "UP_DELETE", "dq"),
                      ("update", "UP_MODIFY", "uq")):
        f = sets("update", flags=mac("UPDATE_ALL")) if lst == "uq" else \
            (lambda c: c)
        u = lambda n, act=None: Seq(
            kw(w, acts(new("update", "N:strct." + lst, type=t,
                           parent="N:strct"), f)),
            *([Alt(Tok(":"), skip(";"), OTHER)] * (2 if lst == "uq" else 1)),
            Alt(kw("name"), skip(";")),
            name(n, act or sets("update", name=("low", n))), SEMI)
        out.append((w + "s of one name", struct(
            Seq(kw("field"), newfield("F"), Alt(
                skip(";", ":"), OTHER, Seq(kw("int", sets(
                    "field", type="FTYPE_INT")), Opt(skip(";")), kw(
                        "rowid", rowid("FTYPE_INT", False)), SEMI))),
            Opt(skip("}")), u("Q"), Opt(skip("}")), u("R", REJ)),
            {("Q", "R")} | pre("R", "strct." + lst), {}, True))
    for w, o, q_, v in (("enum", "enm", "eq", 1), ("bits", "bitf", "bq", 1)):
        k = {"enm": "eitem", "bitf": "bitidx"}[o]
        it = lambda n, i, act=None, vact=None: Seq(
            kw("item"), name(n, act or new(k, "N:%s.%s" % (o, q_),
                                           name=("low", n),
                                           parent="N:" + o)),
            *([Opt(skip(";"))] if o == "enm" else []),
            INT(i, 0, 63, vact or sets(k, value=iv(i, 0, 63))), SEMI)
        lst = {"enm": "C.eq", "bitf": "C.bq"}[o]
        out.append((w + " items of one name", block(w, o, lst, Seq(
            it("I", "V"), Opt(skip("}")), it("J", "W", REJ))),
            {("I", "J")} | pre("J", "%s.%s" % (o, q_)), {}, True))
        out.append((w + " items of one value", block(w, o, lst, Seq(
            it("I", "V"), Opt(skip("}")), it("J", "V", None, REJ))),
            {("V", "prior:N:%s.%s{!}.value" % (o, q_))}, {}, True))
    return out


# ------------------------------------------------------------------ roles
def role(k, parent, n, *sub, act=None):
    o = "N:role%d" % k
    if act is None:
        def act(ctx):
            d = {"name": ("low", n), "parent": "N:role%d" % parent}
            kv = [(("a", o, a), v) for a, v in d.items()]
            return put(ctx, (("in", o), ("C.arq", "N:role%d.subrq" % parent)),
                       *kv)
        act.news = (o,)
    d = Seq(kw("comment"), lit("Doc", lambda ctx: put(
        ctx, (("a", o, "doc"), ("copy", "Doc")))))
    return Seq(kw("role"), name(n, act), Opt(d), *(
        [Opt(skip(";")), Tok("{"), *sub, Tok("}")] if sub else
        [Opt(skip("{"))]), SEMI)


def roles(*xs):
    def act(ctx):
        for i, n in enumerate(("none", "default", "all")):
            o = "N:role%d" % i
            ctx = put(ctx, (("in", o), ("C.arq", "C.rq")),
                      (("a", o, "name"), ("s", n)))
        return ctx
    act.news = ("N:role0", "N:role1", "N:role2")
    return Seq(kw("roles", act), Tok("{"), *xs, Tok("}"), SEMI)


def rolescen():
    no = Opt(skip("}"))
    out = [("one role", roles(Opt(role(3, 2, "A")))),
           ("two roles", roles(no, role(3, 2, "A"), no, role(4, 2, "B"))),
           ("nested roles", roles(no, role(
               3, 2, "A", no, role(4, 3, "B", no, role(5, 4, "Bb")), no,
               role(6, 3, "Cc")), no, role(7, 2, "D"))),
           ("roles twice", Seq(roles(no, role(3, 2, "A")), Opt(Seq(
               kw("roles", REJ), Tok("{"), Opt(Seq(kw("role"), name("B"),
                                                   SEMI)), Tok("}"), SEMI))))]
    for w in ("none", "default", "all"):
        out.append(("role named " + w, roles(
            no, kw("role"), Alt(kw(w, REJ), skip("name")), SEMI)))
    dup = role(5, 2, "R", act=REJ)
    out += [("roles of one name", roles(
        no, role(3, 2, "A"), no, dup), {("A", "R")}, {}),
        ("roles of one name, one nested", roles(
            no, role(3, 2, "A", no, role(4, 3, "B")), no, dup),
         {("B", "R")}, {}),
        ("role named as its parent", roles(
            no, role(3, 2, "A", no, dup)), {("A", "R")}, {})]
    return out


def topscen():
    def strct():
        return struct(PLAIN)

    def enum():
        return block("enum", "enm", "C.eq", Seq(Opt(skip("}")), Seq(
            kw("item"), name("It", new("eitem", "N:enm.eq", name=(
                "low", "It"), parent="N:enm")), Opt(skip(";")),
            INT("V", 0, 63, sets("eitem", value=iv("V", 0, 63))),
            SEMI)))

    bad = Opt(Seq(Alt(kw("role", REJ), kw("field", REJ),
                      kw("comment", REJ)), SEMI))
    return [("top level: struct", Seq(strct(), bad)),
            ("top level: enum", Seq(enum(), bad)),
            ("top level: struct, enum", Seq(strct(), Opt(Seq(enum(), bad)))),
            ("top level: enum, struct", Seq(enum(), Opt(Seq(strct(), bad))))]


# scenarios all of whose sentences are refused
NOTEXT = "field reference struct|.* of one |.* named as |role named |empty "


def body(c):
    prog = front.load()
    for n in ("FIELD_ROWID", "FIELD_UNIQUE", "FIELD_NULL", "FIELD_NOEXPORT",
              "FIELD_HASDEF", "STRCT_HAS_QUEUE", "STRCT_HAS_ITERATOR",
              "STRCT_HAS_BLOB", "UPDATE_ALL", "CONFIG_HAS_PASS",
              "EITEM_AUTO"):
        M[n] = prog.macro(n)
        if not isinstance(M[n], int):
            raise Fatal("no macro " + n)
    if prog.func("ort_parse_file") is None:
        raise Fatal("ort_parse_file is gone")
    scens = fieldscen() + limitscen() + queryscen() + updscen() + otherscen() + \
        enumscen() + bitscen() + dupscen() + \
        rolescen() + topscen() + mergescen()
    pick = os.environ.get("P05")
    if pick:
        scens = [s for s in scens if pick in s[0]]

    def one(sc):
        import time
        t = time.time()
        m = Parse(prog, sc[1])
        if sc[0].startswith("merge "):
            m.numbered |= {"rolemap", "rref", "resolve"}
            if " not " in sc[0]:
                m.numbered.add("strct")
            m.sparse = True
        if sc[0].startswith("limits "):
            m.numbered.add("fvalid")
        if len(sc) > 2:
            m.same = sc[2]
            m.shapes.update(sc[3])
            if len(sc) > 4:
                m.prior = "<!>"
        bad, refused = m.parse()
        return (sc[0], sorted(bad), sorted(refused.items(), key=str),
                len(m.tokens), m.results, sorted(m.ai.funcs_analysed),
                time.time() - t, m.accepted)

    funcs, ntok, nres = set(), 0, 0
    slow = []
    for what, bad, ref, nt, nr, fs, t, acc in pmap(one, scens):
        funcs |= set(fs)
        ntok += nt
        nres += nr
        slow.append((t, what))
        if not acc and not re.match(NOTEXT, what):
            bad.append("no such input is taken to its end")
        c.obligation(not bad and not ref, sample={"scenario": what,
                                                  "tokens": nt})
        for b in bad:
            c.violate("parse|%s|%s" % (what, b), "ort_parse_file(), %s: %s" %
                      (what, b))
        for s, r in ref:
            c.violate("refused|%s|%s" % (what, s),
                      "%s, %s: input that ort(5) allows is refused (%s)" %
                      (s, what, r))
    if os.environ.get("P05T"):
        for t, w in sorted(slow)[-12:]:
            print("%.1f %s" % (t, w))
    if not pick:
        c.floor("scenarios", len(scens), 300)
    c.cov["tokens"] = ntok
    c.cov["outcomes"] = nres
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "on every path of ort_parse_file over the token sequences of a "
        "scenario, documented input is accepted and recorded as documented "
        "and other input is refused",
        "Abstract interpretation of the parser against the grammar of "
        "ort(5): each request for a token yields every token allowed there "
        "and one of each kind that is not.")


if __name__ == "__main__":
    main("P05", body)
