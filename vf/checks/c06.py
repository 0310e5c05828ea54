"""C06: list operators against sequences and multisets."""
from ..engine import Part, Discard
from ..eo import *

ID = "C06"
RULE = ("an evaluation is one query about one application of a list operator, whose value or stuckness was predicted "
        "from Python lists; non-trivial if a list argument has at least two elements or is not a list of the operator; "
        "distinct by query and operator declaration")
TECHNIQUE = 'property-based testing: list operators on generated lists against Python sequences and multisets, plus algebraic laws'
NOTE = 'Random search over operators with all four nil attributes (both element orders), random signatures and lists, including terms that are not lists.'
ASSUMPTIONS = ["results are observed through eo::is_eq, eo::is_ok and :requires (C08, C01)",
               "lists of up to 40 elements here (longer ones in C20)",
               "for left associative operators the first element is the outermost one, as eo::cons adds it; "
               "eo::list_concat and eo::list_rev keep the order in which the application is written"]

HDR = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const U Type)
(declare-const e Bool)
(declare-const g (-> U U U))
(declare-const L Type)
(declare-const nilL L)
"""
for _t, _p in (("Bool", "p"), ("U", "a"), ("L", "l")):
    HDR += "".join("(declare-const %s%d %s)\n" % (_p, i, _t) for i in range(5))

# kind of operator: element type, list type, nil (value or None for parametric), nil text
KINDS = [
    ("Bool", "Bool", FALSE), ("Bool", "Bool", TRUE), ("U", "U", C("a0")), ("Int", "Int", Z(0)), ("Int", "Int", Z(1)),
    ("Str", "Str", ('s', ())), ("Int", "L", C("nilL")), ("U", "L", C("nilL")), ("L", "L", C("nilL")), ("BV", "BV", None),
    ("U", "U", app(C("g"), C("a0"), C("a1"))),
]


def gen_ops(s):
    ops = []
    for i in range(s.r(1, 3)):
        et, lt, nil = s.pick(KINDS)
        attr = s.pick(list(NILATTRS))
        w = s.pick([1, 4, 8]) if et == "BV" else 0
        ops.append({"name": "f%d" % i, "et": et, "lt": lt, "nil": ('y', w, 0) if et == "BV" else nil, "attr": attr, "w": w})
    return ops


def decl(o):
    at = ":" + ATTRTEXT.get(o["attr"], o["attr"])
    left = o["attr"].startswith("left")
    if o["et"] == "BV":
        return ("(declare-parameterized-const %s ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) %s (eo::to_bin m 0))\n"
                % (o["name"], at))
    tys = (o["lt"], o["et"]) if left else (o["et"], o["lt"])
    return "(declare-const %s (-> %s %s %s) %s %s)\n" % (o["name"], tys[0], tys[1], o["lt"], at, pv(o["nil"]))


def gen_elem(s, t, ops, depth, w=0):
    c = [o for o in ops if o["lt"] == t and o["w"] == w]
    if depth > 0 and c and s.p(25):
        return gen_list(s, s.pick(c), ops, depth - 1)
    if s.p(12):
        n = [o["nil"] for o in c]
        if n:
            return s.pick(n)
    if t == "Bool":
        return s.pick([C("p0"), C("p1"), C("p2"), TRUE, FALSE])
    if t == "U":
        return s.pick([C("a0"), C("a1"), C("a2"), app(C("g"), C("a0"), C("a1")), C("a3")])
    if t == "L":
        return s.pick([C("l0"), C("l1"), C("nilL"), C("l2")])
    if t == "Int":
        return Z(s.r(0, 4))
    if t == "Str":
        return s.pick([S("a"), S("b"), S(""), S("ab")])
    if t == "BV":
        return ('y', w, s.n(min(1 << w, 4)))
    raise ValueError(t)


def mop(o):
    return Op(o["name"], o["attr"], o["nil"])


def gen_seq(s, o, ops, depth):
    n = s.w([(3, s.r(0, 3)), (4, s.r(2, 6)), (1, s.r(5, 12)), (0 if depth else 0, 0)])
    if s.p(4):
        n = s.r(10, 40)
    return [gen_elem(s, o["et"], ops, depth, o["w"]) for _ in range(n)]


def gen_list(s, o, ops, depth):
    return build(mop(o), o["nil"], gen_seq(s, o, ops, depth))


def gen_arg(s, o, ops):
    """mostly lists of o"""
    m = s.n(12)
    if m < 9:
        return gen_list(s, o, ops, 1)
    if m == 9 and o["et"] != "BV":
        # ends in something else than nil
        return build(mop(o), gen_elem(s, o["lt"], ops, 1, o["w"]), gen_seq(s, o, ops, 0))
    if m == 10:
        p = s.pick(ops)
        if p["et"] != "BV" and o["et"] != "BV":
            return gen_list(s, p, ops, 0)
    return gen_elem(s, o["lt"], ops, 1, o["w"])


def surface(s, v, ops):
    """print v, here and there in n-ary syntax"""
    f, xs = spine(v)
    if len(xs) == 2 and f[0] == 'c':
        for o in ops:
            if o["name"] == f[1]:
                es = elems(mop(o), o["nil"], v)
                if es and len(es) >= (2 if "ns" in o["attr"] else 1) and s.p(70):
                    es = es[::-1] if o["attr"].startswith("left") else es
                    return "(%s %s)" % (f[1], " ".join(surface(s, x, ops) for x in es))
    return pv(v)


def gen(s):
    ops = gen_ops(s)
    qs = []
    for _ in range(s.r(15, 40)):
        o = s.pick(ops)
        name = s.pick(list(LISTOPS))
        if name == "nil":
            t = {"BV": "(BitVec %d)" % o["w"]}.get(o["lt"], o["lt"])
            a = [None]
            txt = [t]
        else:
            if name == "cons":
                a = [gen_elem(s, o["et"], ops, 1, o["w"]), gen_arg(s, o, ops)]
            elif LISTOPS[name] == 2:
                a = [gen_arg(s, o, ops)]
            elif name == "list_nth":
                x = gen_arg(s, o, ops)
                n = len(elems(mop(o), o["nil"], x) or [])
                k = s.w([(6, s.r(0, max(0, n - 1))), (1, n), (1, n + 1), (1, -1), (1, None),
                         (2, s.pick([2 ** 16, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, -2 ** 32, -2 ** 64]) + s.r(0, max(0, n - 1)))])
                a = [x, Z(k) if k is not None else s.pick([TRUE, S("0"), ('y', 2, 0), C("a1")])]
            elif name in ("list_find", "list_erase", "list_erase_all"):
                x = gen_arg(s, o, ops)
                es = elems(mop(o), o["nil"], x)
                y = s.pick(es) if es and s.p(70) else gen_elem(s, o["et"], ops, 1, o["w"])
                a = [x, y]
            else:
                x = gen_arg(s, o, ops)
                es = elems(mop(o), o["nil"], x)
                m = s.n(4)
                if es is None or m == 0:
                    y = gen_arg(s, o, ops)
                elif m == 1:
                    y = build(mop(o), o["nil"], s.perm(es))
                elif m == 2:
                    y = build(mop(o), o["nil"], s.perm(s.sub(es) + [gen_elem(s, o["et"], ops, 1, o["w"])]))
                else:
                    y = build(mop(o), o["nil"], s.perm(es + s.sub(es)))
                a = [x, y]
                if s.p(30):
                    a = [y, x]
            txt = [surface(s, x, ops) for x in a]
        qs.append((o["name"], name, a, txt, s.n(3)))
    # an operator without a list attribute never evaluates
    for _ in range(s.r(0, 2)):
        name = s.pick(list(LISTOPS))
        qs.append(("g", name, [C("a0")] * (LISTOPS[name] - 1), ["a0"] * (LISTOPS[name] - 1), 0))
    # nor do lists with an element that failed to evaluate
    for _ in range(s.r(0, 3)):
        o = s.pick(ops)
        if o["et"] == "Bool":
            name = s.pick([n for n in LISTOPS if n != "nil"])
            st = "(eo::not e)"
            x = "(%s %s)" % (o["name"], " ".join(s.perm([st] + ["p%d" % s.n(3) for _ in range(s.r(1, 4))])))
            y = "(%s p0 p1)" % o["name"]
            z = {"cons": [s.pick(["p0", st]), x], "list_nth": [x, str(s.n(3))], "list_find": s.pick([[x, "p0"], [y, st]]),
                 "list_erase": s.pick([[x, "p0"], [y, st]]), "list_erase_all": s.pick([[x, "p0"], [y, st]])}.get(name)
            z = z or ([x] if LISTOPS[name] == 2 else s.perm([x, y]))
            qs.append((o["name"], name, None, z, 0))
    return ops, qs


def check(case, env):
    ops, qs = case
    sig = Sig()
    mops = {o["name"]: mop(o) for o in ops}
    q = Queries()
    hdr = HDR + "".join(decl(o) for o in ops)
    decls = {o["name"]: decl(o) for o in ops}
    for i, (f, name, a, txt, mode) in enumerate(qs):
        if f not in mops or a is None:
            v, nt = STUCK, True
        else:
            o = mops[f]
            if name == "nil":
                v, nt = o.term, True
            else:
                v = listop(name, o, o.term, a)
                nt = any(len(elems(o, o.term, x) or [1, 1]) >= 2 for x in a if x[0] == 'a')
        if mode == 2 and name != "nil" and a is not None:
            # through a program
            n = len(txt)
            hdr += "(program r%d ((R Type) %s %s) :signature (%s) R (((r%d %s) (eo::%s %s %s))))\n" % (
                i, " ".join("(T%d Type)" % j for j in range(n)), " ".join("(x%d T%d)" % (j, j) for j in range(n)),
                " ".join("T%d" % j for j in range(n)), i, " ".join("x%d" % j for j in range(n)), name, f,
                " ".join("x%d" % j for j in range(n)))
            t = "(r%d %s)" % (i, " ".join(txt))
        else:
            t = "(eo::%s %s %s)" % (name, f, " ".join(txt))
        before = len(q.items)
        q.value(t, v, nt)
        # distinct by the declaration of the operator as well
        for j in range(before, len(q.items)):
            q.items[j] = (q.items[j][0], decls.get(f, f) + q.items[j][0], nt)
        kind = "predicted stuck" if v is STUCK else "predicted value"
        env.notes[kind] = env.notes.get(kind, 0) + 1
        env.notes[name] = env.notes.get(name, 0) + 1
    return q.run(env, hdr)


# relations between the operators on arbitrary lists (no model)
def gen_laws(s):
    ops = gen_ops(s)[:1]
    o = ops[0]
    return ops, [tuple(surface(s, gen_list(s, o, ops, 1), ops) for _ in range(3)) for _ in range(s.r(5, 20))]


def check_laws(case, env):
    ops, trs = case
    o = ops[0]
    f = o["name"]
    q = Queries()
    left = o["attr"].startswith("left")
    for x, y, z in trs:
        L = lambda n, *a: "(eo::list_%s %s %s)" % (n, f, " ".join(a))
        eq = lambda a, b: q.true("(eo::is_eq %s %s)" % (a, b), decl(o) + a + b)
        eq(L("concat", x, L("concat", y, z)), L("concat", L("concat", x, y), z))
        eq(L("rev", L("rev", x)), x)
        eq(L("rev", L("concat", x, y)), L("concat", L("rev", y), L("rev", x)))
        eq(L("len", L("concat", x, y)), "(eo::add %s %s)" % (L("len", x), L("len", y)))
        eq(L("meq", L("concat", x, y), L("concat", y, x)), "true")
        eq(L("meq", L("concat", L("diff", x, y), L("inter", x, y)), x), "true")
        eq(L("minclude", L("inter", x, y), y), "true")
        eq(L("setof", L("setof", x)), L("setof", x))
        eq(L("meq", x, y), "(eo::and %s %s)" % (L("minclude", x, y), L("minclude", y, x)))
    return q.run(env, HDR + "".join(decl(p) for p in ops))


PARTS = [Part("model", gen, check, 6000, 150000),
         Part("laws", gen_laws, check_laws, 1500, 40000)]
