"""C21: builtin operators against their definitions in tests/eo-definitions.eo."""
import os
from ..engine import Part, Discard
from ..build import REPO
from ..eo import *
from ..gen import *
from ..sx import parse
from . import c06

ID = "C21"
RULE = ("an evaluation is one ground expression over eo:: operators compared with the expression in which these operators "
        "are replaced by the programs and macros of tests/eo-definitions.eo; non-trivial if an argument of a list operator "
        "has at least two elements or is not a list, or for the other operators if an argument is not a plain constant; "
        "distinct by expression and declarations")
TECHNIQUE = 'property-based testing: differential testing of builtin operators against executable definitions from the repository'
NOTE = 'The definitions are read from the repository at run time; the program $eo_nil that they presuppose is generated from the declared operators.'
ASSUMPTIONS = ["list operators are right associative with a nil terminator, the only kind that the definitions are written for",
               "eo::gt is compared on arguments of one kind only ($eo_gt declares both of one type; what eo::gt does on mixed kinds is undocumented)",
               "results are compared with eo::is_eq and eo::is_ok, which are judged by C08"]

DEFS = os.path.join(REPO, "tests", "eo-definitions.eo")

HDR = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const Real Type)
(declare-consts <rational> Real)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const e Bool)
(declare-const g (-> U U U))
(declare-const h (-> U Int))
(declare-const L Type)
(declare-const nilL L)
(declare-const eo_List Type)
(declare-const eo_List_nil eo_List)
(declare-parameterized-const eo_List_cons ((T Type :implicit)) (-> T eo_List eo_List) :right-assoc-nil eo_List_nil)
(declare-parameterized-const Q ((x eo_List)) (-> Bool Bool) :binder eo_List_cons)
"""
for _t, _p in (("Bool", "p"), ("U", "a"), ("L", "l")):
    HDR += "".join("(declare-const %s%d %s)\n" % (_p, i, _t) for i in range(5))

# operators whose element and list types agree are the only ones that list_nth is defined for
KINDS = [k for k in c06.KINDS if k[0] != "Str"] + [("Any", "eo_List", C("eo_List_nil"))]
SAME = ("list_nth",)


def gen_ops(s):
    ops = []
    for i in range(s.r(1, 3)):
        et, lt, nil = s.pick(KINDS)
        w = s.pick([1, 4, 8]) if et == "BV" else 0
        if lt == "eo_List":
            if any(o["et"] == "Any" for o in ops):
                continue
            ops.append({"name": "eo_List_cons", "et": et, "lt": lt, "nil": nil, "attr": "right-assoc-nil", "w": 0})
            continue
        ops.append({"name": "f%d" % i, "et": et, "lt": lt, "nil": ('y', w, 0) if et == "BV" else nil,
                    "attr": "right-assoc-nil", "w": w})
    return ops


def decls(ops):
    return "".join(c06.decl(o) for o in ops if o["et"] != "Any")


def nilprog(ops):
    out = ["(program $eo_nil ((T Type) (U Type) (V Type) (W Type) (Any Type) (m Int))\n  :signature ((-> T U V) W) Any\n  ("]
    for o in ops:
        if o["et"] == "BV":
            out.append("(($eo_nil %s (BitVec m)) (eo::to_bin m 0))" % o["name"])
        else:
            out.append("(($eo_nil %s %s) %s)" % (o["name"], o["lt"], pv(o["nil"])))
    if not any(o["et"] == "Any" for o in ops):
        out.append("(($eo_nil eo_List_cons eo_List) eo_List_nil)")
    return "\n   ".join(out) + "))\n"


def elem(s, o, ops, depth):
    t = o["et"]
    if t == "Any":
        o2 = dict(s.pick([x for x in ops if x["et"] != "Any"] or [o]))
        t = o2["et"] if o2["et"] != "Any" else "U"
        if t == "BV":
            return ('y', o2["w"], s.n(min(4, 1 << o2["w"])))
    return c06.gen_elem(s, t, [x for x in ops if x["et"] != "Any"], depth, o["w"])


def seq(s, o, ops):
    n = s.w([(3, s.r(0, 3)), (4, s.r(2, 6)), (1, s.r(5, 12))])
    return [elem(s, o, ops, 1) for _ in range(n)]


def lst(s, o, ops):
    return build(c06.mop(o), o["nil"], seq(s, o, ops))


def arg(s, o, ops):
    m = s.n(12)
    if m < 9:
        return lst(s, o, ops)
    if m == 9 and o["et"] not in ("BV", "Any"):
        return build(c06.mop(o), c06.gen_elem(s, o["lt"], ops, 1, o["w"]), seq(s, o, ops))
    if m == 10 and o["et"] not in ("BV", "Any"):
        p = s.pick(ops)
        if p["et"] not in ("BV", "Any"):
            return lst(s, p, ops)
    return elem(s, o, ops, 1)


LISTNAMES = [n for n in LISTOPS if n != "nil"]


def list_query(s, ops):
    """(text with % for the prefix, non-trivial)"""
    o = s.pick(ops)
    name = s.pick([n for n in LISTNAMES if n not in SAME or o["et"] == o["lt"] or o["et"] == "BV"])
    mo = c06.mop(o)
    sf = lambda v: c06.surface(s, v, ops)

    def sub(x):
        """the text of a list, here and there computed by another operator"""
        if s.p(25):
            es = elems(mo, o["nil"], x)
            if es is not None:
                m = s.n(5)
                if m == 0:
                    i = s.r(0, len(es))
                    return "(%%list_concat %s %s %s)" % (o["name"], sf(build(mo, o["nil"], es[:i])), sub(build(mo, o["nil"], es[i:])))
                if m == 1:
                    return "(%%list_rev %s %s)" % (o["name"], sub(build(mo, o["nil"], es[::-1])))
                if m == 2 and es:
                    return "(%%cons %s %s %s)" % (o["name"], sf(es[0]), sub(build(mo, o["nil"], es[1:])))
                if m == 3:
                    return "(%%list_setof %s %s)" % (o["name"], sf(x))
                return "(%%list_%s %s %s %s)" % (s.pick(["diff", "inter"]), o["name"], sf(x), sf(arg(s, o, ops)))
        return sf(x)
    if name == "cons":
        a = [elem(s, o, ops, 1), arg(s, o, ops)]
        txt = [sf(a[0]), sub(a[1])]
    elif LISTOPS[name] == 2:
        a = [arg(s, o, ops)]
        txt = [sub(a[0])]
    elif name == "list_nth":
        x = arg(s, o, ops)
        n = len(elems(mo, o["nil"], x) or [])
        k = s.w([(6, s.r(0, max(0, n - 1))), (1, n), (1, n + 1), (1, -1), (1, 2 ** 32), (1, 2 ** 64), (1, -2 ** 33)])
        a = [x, Z(k)]
        txt = [sub(x), pv(Z(k))]
        if s.p(20):
            txt[1] = "(%%list_len %s %s)" % (o["name"], sf(arg(s, o, ops)))
        if s.p(4):
            txt[1] = s.pick(["true", "\"0\"", "a1", "#b00", "0/1"])
    elif name in ("list_find", "list_erase", "list_erase_all"):
        x = arg(s, o, ops)
        es = elems(mo, o["nil"], x)
        y = s.pick(es) if es and s.p(70) else elem(s, o, ops, 1)
        a = [x, y]
        txt = [sub(x), sf(y)]
    else:
        x = arg(s, o, ops)
        es = elems(mo, o["nil"], x)
        m = s.n(4)
        if es is None or m == 0:
            y = arg(s, o, ops)
        elif m == 1:
            y = build(mo, o["nil"], s.perm(es))
        elif m == 2:
            y = build(mo, o["nil"], s.perm(s.sub(es) + [elem(s, o, ops, 1)]))
        else:
            y = build(mo, o["nil"], s.perm(es + s.sub(es)))
        a = [x, y] if s.p(70) else [y, x]
        txt = [sub(x) for x in a]
    if s.p(4) and ops[0]["et"] == "Bool":
        txt[-1 if name != "list_nth" else 0] = "(eo::not e)"
    nt = any(len(elems(mo, o["nil"], x) or [1, 1]) >= 2 for x in a if x[0] == 'a')
    f = o["name"]
    if s.p(3):
        f = "g"         # not a list operator
    return "(%%%s %s %s)" % (name, f, " ".join(txt)), nt


def gterm(s, depth):
    m = s.n(14)
    if m < 5 or depth == 0 and m > 8:
        v = glit(s, s.pick("zqysb"))
        return pv(v), v
    if m < 9:
        return s.pick(["p0", "p1", "a0", "a1", "nilL", "Int", "Type", "Bool", "g", "h", "Q", "eo_List_cons", "BitVec"]), C("x")
    if m == 9:
        return "(eo::var \"%s\" %s)" % (s.pick("xyz"), s.pick(["Bool", "U", "Int", "(-> U U)"])), C("x")
    if m == 10:
        return "(%s %s %s)" % ("g", s.pick(["a0", "a1"]), s.pick(["a0", "a1"])), C("x")
    if m == 11:
        return "(Q ((x Bool) (y U)) %s)" % s.pick(["x", "p0", "false"]), C("x")
    if m == 12:
        return s.pick(["(BitVec 3)", "(-> Int U)", "(h a0)", "(g a0)", "(eo_List_cons a0 p0)", "(eo_List_cons 1 eo_List_nil)"]), C("x")
    return s.pick(["(eo::not e)", "(eo::add a0 a1)", "(eo::list_len g a0)", "(eo::to_z e)"]), C("x")


def plain_query(s, depth=2):
    name = s.pick(["eq", "eq", "is_eq", "is_eq", "is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var", "gt", "gt", "cmp"])

    def t(d, like=None):
        if like is None and d > 0 and s.p(25):
            q, _ = plain_query(s, d - 1)
            return q, ('b', True)
        if like is not None and like[0] in "zqys" and s.p(80):
            v = glit(s, like[0], like[1] if like[0] == 'y' else None)
            return pv(v), v
        return gterm(s, d)
    if name == "gt":
        k = s.pick("zq")
        a = [pv(glit(s, k)), pv(glit(s, k))]
        if s.p(30):
            a[1] = a[0]
        if s.p(15):
            a = s.pick([["a0", "a1"], ["true", "false"], ["\"a\"", "\"b\""], ["(h a0)", "1"], ["(BitVec 1)", "(BitVec 2)"]])
        nt = True
    elif name in ("eq", "is_eq", "cmp"):
        x, v = t(depth)
        y, w = t(depth, v)
        if s.p(35):
            y = x
        a = [x, y] if s.p(80) else [y, x]
        nt = v != C("x") or w != C("x")
    else:
        x, v = t(depth)
        a = [x]
        nt = True
    return "(%%%s %s)" % (name, " ".join(a)), nt


def gen(s):
    ops = gen_ops(s)
    qs = []
    for _ in range(s.r(12, 30)):
        t, nt = list_query(s, ops) if s.p(75) else plain_query(s)
        qs.append((t, nt, s.w([(6, 0), (2, 1), (1, 2)])))
    return ops, qs



def check(case, env):
    ops, qs = case
    q = Queries()
    hdr = HDR + decls(ops) + nilprog(ops) + "(include \"eo-definitions.eo\")\n"
    dd = decls(ops)
    for i, (t, nt, mode) in enumerate(qs):
        a = t.replace("%", "eo::")
        b = t.replace("%", "$eo_")
        if mode and not t.startswith("(%is_"):
            # one of them evaluated when a program is applied (which does not happen to stuck arguments; is_* accept these)
            c = [x.text for x in parse(t)[0].kids]
            k = 2 if c[0][1:] in LISTOPS else 1
            n = len(c) - k
            v = ["x%d" % j for j in range(n)]
            hdr += "(program r%d ((R Type) %s) :signature (%s) R (((r%d %s) (%s%s %s))))\n" % (
                i, " ".join("(T%d Type) (x%d T%d)" % (j, j, j) for j in range(n)), " ".join("T%d" % j for j in range(n)),
                i, " ".join(v), "$eo_" if mode == 1 else "eo::", c[0][1:], " ".join(c[1:k] + v))
            x = "(r%d %s)" % (i, " ".join(c[k:]))
            if mode == 1:
                b = x.replace("%", "$eo_")
            else:
                a = x.replace("%", "eo::")
        q.true("(eo::or (eo::is_eq %s %s) (eo::and (eo::not (eo::is_ok %s)) (eo::not (eo::is_ok %s))))" % (a, b, a, b), dd + t, nt)
        n = t[2:t.index(" ")]
        env.notes[n] = env.notes.get(n, 0) + 1
    with open(DEFS) as f:
        defs = f.read()
    return q.run(env, hdr, extra={"eo-definitions.eo": defs})


PARTS = [Part("definitions", gen, check, 5000, 100000)]
