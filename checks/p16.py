"""P16: what the validators of generated interfaces accept."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import p13, p14
from p13 import T
from common import *
from gen import *
from par import pmap
from codeproj import Code

GENS = {"C": "ort_lang_c_source", "H": "ort_lang_c_header",
        "JS": "ort_lang_nodejs"}
TYPES = p14.TYPES
LIMITED = [t for t in TYPES if t not in ("STRUCT", "ENUM", "BITFIELD")]
OPS = {"GE": (">=", "<"), "LE": ("<=", ">"), "GT": (">", "<="),
       "LT": ("<", ">="), "EQ": ("==", "!=")}
BASE = {"BIT": "bit", "DATE": "date", "EPOCH": "int", "INT": "int",
        "REAL": "double", "TEXT": "string", "PASSWORD": "string",
        "EMAIL": "email", "ENUM": "int", "BITFIELD": "int", "BLOB": None}
ITEMS = {"x": 3, "y": -4, "w": 0}
NATIVE = {"TEXT": "string", "PASSWORD": "string", "EMAIL": "string",
          "REAL": "number", "BLOB": "Buffer", "ENUM": r"ortns\.en"}


def config(prog, lang, fs):
    """fs: (name, type, null, limits), a limit being an operator and value."""
    m = p14.config(prog, None, "JS" if lang == "JS" else "C",
                   [f[:3] + (True,) for f in fs])
    if lang == "JS":
        m.flags("C.args", ["ORT_LANG_NODEJS_VALID"])
    else:
        m.flags("C.args", ["ORT_LANG_C_VALID_KCGI"])
        m.val("C.args", "guard", None)
        m.val("C.args", "header", None)
    m.shapes[T + ".sq"] = ""
    m.shapes["C.eq{e}.eq"] = "".join(ITEMS)
    for i, v in ITEMS.items():
        o = "C.eq{e}.eq{%s}" % i
        m.otype[o] = "eitem"
        m.val(o, "value", v)
        m.val(o, "doc", None)
        m.vals[(o, "name")] = frozenset([("s", "i" + i)])
    for x, t, null, ls in fs:
        o = T + ".fq{%s}" % x
        m.shapes[o + ".fvq"] = "abcd"[:len(ls)]
        for i, (op, v) in zip("abcd", ls):
            r = o + ".fvq{%s}" % i
            m.otype[r] = "fvalid"
            m.val(r, "type", "VALIDATE_" + op)
            if t != "REAL":
                m.val(r, "d.value." + ("len" if t in TEXTS + ["BLOB"]
                                       else "integer"), v)
    return m


TEXTS = ["TEXT", "PASSWORD", "EMAIL"]


def checks(subject, ls, real, fail, js=False, big=False):
    """Refusing if a limit does not hold, in any order."""
    import itertools
    out = []
    for op, v in ls:
        y, n = OPS[op]
        if js:
            y, n = y.replace("==", "==="), n.replace("!=", "!==")
        # how reals are spelled is not judged
        v = "[^()]+" if real else "%d" % v
        if big:
            v = r"BigInt\('?%s'?\)" % v
        out.append(r"if\((%s%s%s|!\(%s%s%s\))\)%s" % (
            subject, n, v, subject, y, v, fail))
    return "(" + "|".join("".join(p) for p in itertools.permutations(out)) + \
        ")" if out else ""


def own(f):
    return f[1] == "ENUM" or bool(f[3])


def source(fs):
    fs = [f for f in fs if f[1] != "STRUCT"]
    bad = r"return 0;"
    res = []
    for x, t, null, ls in fs:
        if not own((x, t, null, ls)):
            continue
        out = r"valid_foo_f%s\(struct kpair\*p\)\{" % x
        if BASE[t]:
            out += r"if\(!kvalid_%s\(p\)\)" % BASE[t] + bad
        if t == "ENUM":
            out += r"switch\(p->parsed\.i\)\{%sbreak;default:%s\}" % (
                "".join("case ?%d:" % v for v in ITEMS.values()), bad)
        s = r"p->parsed\.i"
        if t == "REAL":
            s = r"p->parsed\.d"
        elif t in TEXTS + ["BLOB"]:
            s = "p->valsz"
        out += checks(s, ls, t == "REAL", bad)
        res.append((r".*valid_foo_f%s\(struct kpair\*p\)\{.*" % x,
                    ".*" + out + r"return 1;\}.*"))
    tab = "".join(r'\{%s,"foo-f%s"\},' % (
        "valid_foo_f" + f[0] if own(f) else
        "kvalid_" + BASE[f[1]] if BASE[f[1]] else "NULL", f[0]) for f in fs)
    res.append((".*", r".*const struct kvalid valid_keys\[VALID__MAX\]=\{"
                r'\{kvalid_int,"bar-fz"\},' + tab + r"\};.*"))
    return res


def header(fs):
    fs = [f for f in fs if f[1] != "STRUCT"]
    return [(".*", r".*enum valid_keys\{VALID_BAR_FZ,%sVALID__MAX,?\};"
             r"extern const struct kvalid valid_keys\[VALID__MAX\];.*" %
             "".join("VALID_FOO_F%s," % f[0].upper() for f in fs))] + [
        (".*", r".*int valid_foo_f%s\(struct kpair\*p\);.*" % f[0])
        for f in fs if own(f)]


def js(fs):
    bad = "return null;"
    res = []
    for x, t, null, ls in fs:
        if t == "STRUCT":
            continue
        out = r"'foo-f%s':\(v\)=>\{if\(typeof v==='undefined'\|\|" \
            r"v===null\)" % x + bad
        if t == "BLOB":
            c = checks(r"nv\.length", ls, False, bad, True)
            out += (r"const nv:Buffer=Buffer\.from\(v\);" + c + "return nv;" if
                    c else r"(const nv:Buffer=Buffer\.from\(v\);return nv;|"
                    r"return Buffer\.from\(v\);)")
        elif t in ("TEXT", "PASSWORD"):
            out += r"const nv:string=v\.toString\(\);" + checks(
                r"Buffer\.byteLength\(nv\)", ls, False, bad, True) + \
                "return nv;"
        elif t == "EMAIL":
            out += r"if\(!validator\.isEmail\(v\.trim\(\)\)\)" + bad + \
                r"const em:string\|false=validator\.normalizeEmail\(" \
                r"v\.trim\(\)\);"
            if ls:
                out += r"if\(typeof\(?em\)?!=='string'\)" + bad + checks(
                    r"Buffer\.byteLength\(em\)", ls, False, bad, True) + \
                    "return em;"
            else:
                out += r"(return typeof\(?em\)?==='string'\?em:null;|" \
                    r"if\(typeof\(?em\)?!=='string'\)return null;return em;)"
        elif t == "REAL":
            out += r"let nv:number;if\(!validator\.isDecimal\(v\.toString\(" \
                r"\)\.trim\(\),\{locale:'en-US'\}\)\)" + bad + \
                r"nv=parseFloat\(v\);if\(isNaN\(nv\)\)" + bad + checks(
                    "nv", ls, True, bad, True) + "return nv;"
        elif t == "DATE":
            out += r"if\(!validator\.isDate\(v\.trim\(\),\{format:'YYYY-MM" \
                r"-DD',strictMode:true\}\)\)" + bad + \
                r"const nd:Date\|null=validator\.toDate\(v\.trim\(\)\);" \
                r"if\(nd===null\)" + bad + \
                r"const nv:bigint=BigInt\(nd\.getTime\(\)/1000\);" + checks(
                    "nv", ls, False, bad, True, True) + "return nv;"
        elif t == "ENUM":
            out += r"if\(!\(<any>Object\)\.values\(ortns\.en\)\.includes\(" \
                r"v\.toString\(\)\.trim\(\)\)\)" + bad + \
                r"return<ortns\.en>v\.toString\(\)\.trim\(\);"
        else:
            lo, hi = {"BIT": (r"BigInt\(0\)", r"BigInt\(64\)"),
                      "BITFIELD": ("minInt", "maxUint")}.get(
                          t, ("minInt", "maxInt"))
            out += r"if\(v\.toString\(\)\.trim\(\)\.length===0\)" + bad + \
                r"let nv:bigint;try\{nv=BigInt\(v\);\}catch\(er\)\{" + bad + \
                r"\}if\(nv<%s\|\|nv>%s\)" % (lo, hi) + bad + (
                    r"nv=BigInt\.asIntN\(64,nv\);" if t == "BITFIELD"
                    else "") + checks("nv", ls, False, bad, True, True) + \
                "return nv;"
        res.append((".*", ".*" + out + r"\},.*"))
    fs = [f for f in fs if f[1] != "STRUCT"]
    res.append((".*", r".*interface ortValidType\{'bar-fz':[^;]*;" + "".join(
        r"'foo-f%s':\(v\?:any\)=>%s\|null;" % (f[0], NATIVE.get(
            f[1], "bigint")) for f in fs) + r"\}.*"))
    return res


def scenarios():
    n = ("n", "INT", False, ())
    e = ("e", "ENUM", False, ())
    for lang in GENS:
        for t in TYPES:
            for null in (False, True):
                yield lang, (("x", t, null, ()), n)
                yield lang, (n, ("x", t, null, ()), ("y", t, not null, ()))
        for t in LIMITED:
            for op in OPS:
                for v in (7, 0) if t in TEXTS + ["BLOB"] else (7, -3):
                    yield lang, (n, ("x", t, False, ((op, v),)))
            yield lang, (("x", t, True, (("GT", 2), ("LE", 30))), n)
            yield lang, (("x", t, False, (("GE", 1), ("LT", 9))),
                         ("y", t, False, ()), ("w", t, True, (("EQ", 5),)))


def body(c):
    prog = front.load()
    todo = list(scenarios())
    want = os.environ.get("P16")
    if want:
        todo = [t for t in todo if want in "%s %s" % t]

    def one(a):
        lang, fs = a
        m = config(prog, lang, fs)
        must = {"C": source, "H": header, "JS": js}[lang](fs)
        ms = [(p, Code("JS" if lang == "JS" else "C", Lang(p)))
              for y in must for p in y]
        m.machines = ms
        fn = prog.func(GENS[lang])
        if fn is None:
            raise Fatal(GENS[lang] + " is gone")
        bad = set()
        seen = set()
        n = 0
        for st, v in m.runfn(fn, [ptr("C.args"), ptr("C"), None]):
            if v == ZERO:
                continue
            n += 1
            r = [k.accepts(m.state(st, i)) for i, (p, k) in enumerate(ms)]
            for i, (p, q) in enumerate(must):
                if r[2 * i] and r[2 * i + 1]:
                    seen.add(i)
                elif r[2 * i]:
                    bad.add("missing: " + q)
        bad |= {"missing: " + q for i, (p, q) in enumerate(must)
                if i not in seen}
        if n == 0:
            bad.add("no path succeeds")
        return a, sorted(bad), sorted(m.ai.funcs_analysed)

    funcs = set()
    res = pmap(one, todo)
    for (lang, fs), bad, fns in res:
        funcs |= set(fns)
        what = ", ".join(t.lower() + (" null" if null else "") + "".join(
            " limit %s %d" % (op.lower(), v) for op, v in ls)
            for x, t, null, ls in fs)
        c.obligation(not bad, sample={"scenario": what, "language": lang})
        if bad:
            c.violate("valid|%s|%s" % (what, lang),
                      "%s: fields %s: %s" % (GENS[lang], what, bad[0][:700]))
    if not want:
        c.floor("scenarios", len(res), 400)
    c.cov["functions analysed"] = sorted(funcs)
    return c.finish(
        "in C and JavaScript, each field has a validator, which accepts the "
        "values of its type that meet all of its limits",
        "Dataflow over the whole generators on symbolic configurations; the "
        "text of each successful path, without comments and layout, is "
        "tracked through automata for each validator.")


if __name__ == "__main__":
    main("P16", body)
