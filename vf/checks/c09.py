"""C09: attribute syntax denotes its documented curried term."""
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *
from .c01 import mutate_value
from .c07 import glist, value
from . import c24

ID = "C09"
RULE = ("an evaluation is one surface term compared with an explicitly curried term (equal ones must be identical, different "
        "ones must not); non-trivial if an operator with an attribute is applied; distinct by signature and text")
TECHNIQUE = ("property-based testing: surface applications of operators with every attribute against explicit curried terms "
             "built by a reference desugarer (differential)")
NOTE = ("Random search over signatures with all attributes, nested, with list parameters in definitions, and with nil "
        "terminators that depend on the type. The explicit side is written with _ only, so that no desugaring is trusted. "
        "Binders are compared with lists of variables as in C24.")
ASSUMPTIONS = ["identity of terms is observed through eo::is_eq (C08, C19)"]


def gen(s):
    w = gen_world(s, s.r(2, 5))
    w.one = True
    ts = []
    for _ in range(s.r(10, 30)):
        t = s.pick(SORTS)
        x = gen_term(s, w, t, s.r(1, 4))
        if x[0] != 'A':
            o = s.pick(w.ops)
            x = gen_op(s, w, o, lambda u: gen_term(s, w, u, s.r(0, 2)))
            t = o[3]
        ts.append((t, x, s.n(4)))
    muts = [s.n(1 << 16) for _ in ts]
    m = Model(w.sig)
    out = []
    for t, x, k in ts:
        try:
            v = m.eval(x)
        except Fuel:
            continue
        if v is STUCK:
            continue
        u = mutate_value(s, w, v) if k == 0 else m.eval(gen_term(s, w, t, 1)) if k == 1 else None
        out.append((x, v, u))
    # definitions with list parameters
    defs = []
    for i in range(s.r(0, 4)):
        params, order = {}, []
        for t in s.sub(SORTS, 1, 3):
            params[t] = ["x_" + t]
            order.append(("x_" + t, t, False))
        ls = [o for o in w.ops if o[1] in NILATTRS]
        for o in s.sub(ls, 1, 3):
            params["list " + o[0]] = ["l_" + o[0]]
            params.setdefault("lists " + o[3], []).append("l_" + o[0])
            order.append(("l_" + o[0], o[3], True))
            if s.p(60):
                params["list " + o[0]].append("m_" + o[0])
                params["lists " + o[3]].append("m_" + o[0])
                order.append(("m_" + o[0], o[3], True))
        al = [o for o in w.ops if o[1] == "arg-list"]
        for o in s.sub(al, 0, 2) if al else ():
            c = w.argcons[o[0]]
            for x in "lm"[:s.r(1, 2)]:
                params.setdefault("list " + c[0], []).append(x + "_" + c[0])
                order.append((x + "_" + c[0], c[3], True))
        t = s.pick(SORTS)
        o = s.pick([x for x in w.ops if "list " + x[0] in params or x[0] in w.argcons
                    and "list " + w.argcons[x[0]][0] in params] or w.ops)
        body = gen_op(s, w, o, lambda u: gen_term(s, w, u, s.r(0, 2), params, False, (), 20), params)
        order = s.perm(order)
        calls = []
        for _ in range(s.r(1, 4)):
            calls.append([glist(s, w, q[2:], 2) if l and (u not in SORTS or s.p(85)) else gen_term(s, w, u, s.r(0, 2)) for q, u, l in order])
        defs.append(("dm%d" % i, order, body, calls))
    return w, out, defs


def check(case, env):
    w, out, defs = case
    m = Model(w.sig)
    q = Queries()
    sigkey = "".join(d for d in w.decls if ":" in d)
    for x, v, u in out:
        if len(pv(v)) > 3000:
            continue
        t = ps(x)
        q.true("(eo::is_eq %s %s)" % (t, pv(v)), sigkey + t)
        if u is not None and u is not STUCK and u != v and len(pv(u)) < 3000:
            q.true("(eo::not (eo::is_eq %s %s))" % (t, pv(u)), sigkey + t + pv(u))
        o = w.sig.ops.get(x[1][1]) if x[0] == 'A' else None
        k = "%s/%d" % (o.attr, len(x[2])) if o else "function"
        env.notes[k] = env.notes.get(k, 0) + 1
    txt = ""
    for n, order, body, calls in defs:
        txt += "(define %s (%s) %s)\n" % (n, " ".join("(%s %s%s)" % (q_, u, " :list" if l else "") for q_, u, l in order), ps(body))
        lists = frozenset(q_ for q_, _, l in order if l)
        for c in calls:
            try:
                vs = [value(m, a) for a in c]
                if STUCK in vs:
                    continue
                m.fuel = 3000
                v = m.ev(body, {q_: x for (q_, _, _), x in zip(order, vs)}, lists)
            except Fuel:
                continue
            t = "(%s %s)" % (n, " ".join(pv(x) for x in vs))
            if len(t) > 3000 or v is not STUCK and len(pv(v)) > 3000:
                continue
            if v is STUCK:
                q.true("(eo::not (eo::is_ok %s))" % t, sigkey + txt + t)
            else:
                q.true("(eo::is_eq %s %s)" % (t, pv(v)), sigkey + txt + t)
            k = "define with lists: %s" % ("stuck" if v is STUCK else "value")
            env.notes[k] = env.notes.get(k, 0) + 1
    if not q.items:
        raise Discard()
    return q.run(env, w.text + txt)


# ----- nil terminators that depend on the type

PSIG = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool) :chainable and)
(declare-parameterized-const distinct ((T Type :implicit)) (-> T T Bool) :pairwise and)
(declare-const Seq (-> Type Type))
(declare-parameterized-const seq.empty ((T Type)) (Seq T))
(declare-parameterized-const seq.unit ((T Type :implicit)) (-> T (Seq T)))
(declare-const Set (-> Type Type))
(declare-parameterized-const set.empty ((T Type)) (Set T))
"""
POPS = [  # name, attribute, nil text, kind
    ("bvor", "right-assoc-nil", "(eo::to_bin n 0)", "bv"),
    ("bvand", "right-assoc-nil", "(eo::not (eo::to_bin n 0))", "bv"),
    ("bvadd", "left-assoc-nil", "(eo::to_bin n 0)", "bv"),
    ("bvmul", "right-assoc-non-singleton-nil", "(eo::to_bin n 1)", "bv"),
    ("bvxor", "left-assoc-non-singleton-nil", "(eo::to_bin n 0)", "bv"),
    ("seq.++", "right-assoc-nil", "(seq.empty T)", "seq"),
    ("seq.rev", "left-assoc-nil", "(seq.empty T)", "seq"),
    ("set.union", "right-assoc-nil", "(set.empty T)", "set"),
]


def gen_par(s):
    ops = s.sub(POPS, 2, 6)
    consts = []
    for wd in s.sub([0, 1, 2, 3, 4, 7, 64], 1, 3):
        for i in range(s.r(1, 3)):
            consts.append(("b%d_%d" % (wd, i), ("bv", wd)))
    base = [("bv", c[1][1]) for c in consts] + [("Int",), ("Bool",)]
    for i in range(s.r(1, 4)):
        t = (s.pick(["seq", "set"]), s.pick(base))
        if s.p(25):
            t = (s.pick(["seq", "set"]), t)
        for j in range(s.r(1, 2)):
            consts.append(("e%d_%d" % (i, j), t))
    terms = []
    for _ in range(s.r(6, 20)):
        x = gen_pt(s, ops, consts, None, s.r(1, 3))
        if x is not None:
            terms.append(x)
    return ops, consts, terms, [s.n(8) for _ in terms]


def tytext(t):
    return "(BitVec %d)" % t[1] if t[0] == "bv" else t[0] if len(t) == 1 else "(%s %s)" % ({"seq": "Seq", "set": "Set"}[t[0]], tytext(t[1]))


def nilval(op, t):
    if op[3] == "bv":
        n = t[1]
        return {"bvor": 0, "bvand": (1 << n) - 1, "bvadd": 0, "bvmul": 1 % (1 << n), "bvxor": 0}[op[0]]
    return None


def niltext(op, t):
    if op[3] == "bv":
        n = t[1]
        if n == 0:
            return "(eo::to_bin 0 0)"
        return "#b" + bin(nilval(op, t))[2:].zfill(n)
    return "(%s %s)" % ("seq.empty" if t[0] == "seq" else "set.empty", tytext(t[1]))


def gen_pt(s, ops, consts, t, d):
    """(surface text, explicit text, type)"""
    if t is None:
        t = s.pick([c[1] for c in consts])
    cands = [o for o in ops if o[3] == t[0]]
    if d <= 0 or not cands or s.p(15):
        c = [n for n, u in consts if u == t]
        if t[0] == "seq" and s.p(30):
            # unit of an element
            e = [n for n, u in consts if u == t[1]]
            if e:
                x = s.pick(e)
                return "(seq.unit %s)" % x, "(_ seq.unit %s)" % x, t
        if t[0] == "bv" and t[1] and s.p(30):
            v = "#b" + "".join(s.pick("01") for _ in range(t[1]))
            return v, v, t
        if not c:
            return None
        x = s.pick(c)
        return x, x, t
    op = s.pick(cands)
    k = s.w([(3, 2), (3, 3), (2, 1), (1, 4)])
    args = [gen_pt(s, ops, consts, t, d - 1) for _ in range(k)]
    if None in args:
        return None
    sf = "(%s %s)" % (op[0], " ".join(a[0] for a in args))
    return sf, curry(op, [a[1] for a in args], t), t


def curry(op, xs, t):
    if "non-singleton" in op[1] and len(xs) == 1:
        return xs[0]
    r = niltext(op, t)
    if op[1].startswith("left"):
        for x in xs:
            r = "(_ (_ %s %s) %s)" % (op[0], r, x)
    else:
        for x in reversed(xs):
            r = "(_ (_ %s %s) %s)" % (op[0], x, r)
    return r


def check_par(case, env):
    ops, consts, terms, modes = case
    sig = PSIG
    for n, a, nil, k in ops:
        if k == "bv":
            sig += "(declare-parameterized-const %s ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec n)) :%s %s)\n" % (n, a, nil)
        else:
            ty = "(Seq T)" if k == "seq" else "(Set T)"
            sig += "(declare-parameterized-const %s ((T Type :implicit)) (-> %s %s %s) :%s %s)\n" % (n, ty, ty, ty, a, nil)
    for n, t in consts:
        sig += "(declare-const %s %s)\n" % (n, tytext(t))
    q = Queries()
    opm = {o[0]: o for o in ops}
    for (sf, ex, t), m in zip(terms, modes):
        q.true("(eo::is_eq %s %s)" % (sf, ex))
        q.true("(eo::is_eq (eo::typeof %s) %s)" % (sf, tytext(t)))
        if m == 0:
            for o in ops:
                if o[3] == t[0]:
                    q.true("(eo::is_eq (eo::nil %s (eo::typeof %s)) %s)" % (o[0], sf, niltext(o, t)))
        elif m == 1:
            o = opm.get(sf[1:].split(" ")[0])
            if o and ex != sf and ex.startswith("(_ (_ %s" % o[0]):
                # the same application through a program whose parameters have types that depend on it
                p = "(bv%s)" % o[0]
                q.true("(eo::is_eq (eo::list_len %s %s) (eo::list_len %s %s))" % (o[0], sf, o[0], ex))
        elif m == 2:
            q.true("(eo::is_eq (= %s %s) (_ (_ = %s) %s))" % (sf, ex, ex, sf))
            q.true("(eo::is_eq (= %s %s %s) (_ (_ and (_ (_ = %s) %s)) (_ (_ and (_ (_ = %s) %s)) true)))" % (sf, ex, sf, ex, sf, ex, ex))
        elif m == 3:
            q.true("(eo::is_eq (distinct %s) true)" % sf)
            q.true("(eo::is_eq (distinct %s %s %s) (_ (_ and (_ (_ distinct %s) %s)) (_ (_ and (_ (_ distinct %s) %s)) (_ (_ and (_ (_ distinct %s) %s)) true))))" %
                   ((sf,) * 3 + (ex,) * 6))
    # the nil terminator is computed when the type becomes known
    progs = ""
    for o in ops:
        if o[3] != "bv":
            continue
        progs += "(program mk%s ((n Int) (x (BitVec n)) (y (BitVec n))) :signature ((BitVec n) (BitVec n)) (BitVec n) (((mk%s x y) (%s x y))))\n" % ((o[0],) * 3)
        progs += "(program ml%s ((n Int) (x (BitVec n)) (y (BitVec n) :list)) :signature ((BitVec n) (BitVec n)) (BitVec n) (((ml%s x y) (%s x y))))\n" % ((o[0],) * 3)
        left = o[1].startswith("left")
        for sf, ex, t in terms:
            if t[0] == "bv":
                q.true("(eo::is_eq (mk%s %s %s) %s)" % (o[0], sf, ex, curry(o, [ex, ex], t)))
                c = [x for x in terms if x[2] == t and x[1].startswith("(_ (_ %s" % o[0])]
                if c and not left:
                    y = c[len(sf) % len(c)]
                    if "non-singleton" not in o[1]:
                        q.true("(eo::is_eq (ml%s %s %s) (_ (_ %s %s) %s))" % (o[0], sf, y[0], o[0], ex, y[1]))
    r = q.run(env, sig + progs)
    return r


# ----- applications to many arguments

MANY = """(declare-const U Type)
(declare-const L Type)
(declare-const nl L)
(declare-const nu U)
(declare-const lc (-> U L L) :right-assoc-nil nl)
(declare-const ll (-> L U L) :left-assoc-nil nl)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const dna (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const rn (-> U U U) :right-assoc-nil nu)
(declare-const ln (-> U U U) :left-assoc-nil nu)
(declare-const rs (-> U U U) :right-assoc-non-singleton-nil nu)
(declare-const ls (-> U U U) :left-assoc-non-singleton-nil nu)
(declare-const ra (-> U U U) :right-assoc)
(declare-const la (-> U U U) :left-assoc)
(declare-const ca (-> U U Bool) :chainable and)
(declare-const cl (-> U U Bool) :chainable dna)
(declare-const pa (-> U U Bool) :pairwise and)
(declare-const pl (-> U U Bool) :pairwise dna)
(declare-const al (-> L Bool) :arg-list lc)
(declare-const ar (-> L Bool) :arg-list ll)
(declare-const c0 U)
(declare-const c1 U)
(declare-const c2 U)
(declare-const c3 U)
(declare-const c4 U)
(declare-const c5 U)
"""


def fold(op, xs, nil, left):
    if left:
        r = nil
        for x in xs:
            r = x if r is None else "(_ (_ %s %s) %s)" % (op, r, x)
    else:
        r = nil
        for x in reversed(xs):
            r = x if r is None else "(_ (_ %s %s) %s)" % (op, x, r)
    return r


def many_val(op, xs):
    """the explicit term; lists are given as ('list', elements)"""
    es = []
    for x in xs:
        es += x[1] if isinstance(x, tuple) else [x]
    if op in ("rn", "ln"):
        return fold(op, es, "nu", op == "ln")
    if op in ("rs", "ls"):
        return "nu" if not es else es[0] if len(es) == 1 else fold(op, es, "nu", op == "ls")
    if op in ("ra", "la"):
        return fold(op, es, None, op == "la")
    if op in ("al", "ar"):
        return "(_ %s %s)" % (op, fold("lc", es, "nl", False) if op == "al" else fold("ll", es, "nl", True))
    ps_ = list(zip(es, es[1:])) if op[0] == "c" else [(es[i], es[j]) for i in range(len(es)) for j in range(i + 1, len(es))]
    ps_ = ["(_ (_ %s %s) %s)" % (op, x, y) for x, y in ps_]
    return ps_[0] if len(ps_) == 1 else fold("and" if op[1] == "a" else "dna", ps_, "true", op[1] == "l")


def gen_many(s):
    out = []
    for _ in range(s.r(3, 8)):
        op = s.pick(["rn", "ln", "rs", "ls", "ra", "la", "ca", "cl", "pa", "pl", "al", "ar"])
        lists = op in ("rn", "ln", "rs", "ls", "al", "ar") and s.p(70)
        k = s.w([(3, s.r(3, 8)), (2, s.r(5, 12)), (1, s.r(12, 40))])
        if op[0] == "p":
            k = min(k, 15)
        xs = []
        for _ in range(k):
            if lists and s.p(60):
                xs.append(("list", ["c%d" % s.n(6) for _ in range(s.w([(4, 0), (3, 1), (2, 2), (1, 5)]))]))
            else:
                xs.append("c%d" % s.n(6))
        out.append((op, xs, s.p(50), s.n(k)))
    return out


def check_many(case, env):
    q = Queries()
    txt = ""
    for i, (op, xs, prog, j) in enumerate(case):
        ex = many_val(op, xs)
        env.notes[op] = env.notes.get(op, 0) + 1
        if any(isinstance(x, tuple) for x in xs):
            env.notes["with list parameters"] = env.notes.get("with list parameters", 0) + 1
            lop = {"al": "lc", "ar": "ll"}.get(op, op)
            lt = "L" if op[0] == "a" else "U"
            nil = "nl" if op[0] == "a" else "nu"
            ps_, body, args = [], [], []
            for x in xs:
                if isinstance(x, tuple):
                    n = "l%d" % len(ps_)
                    ps_.append((n, lt, " :list"))
                    body.append(n)
                    args.append(fold(lop, x[1], nil, lop[0] == "l" and lop != "lc"))
                elif len(x) and prog and x in ("c0", "c1"):
                    n = "l%d" % len(ps_)
                    ps_.append((n, "U", ""))
                    body.append(n)
                    args.append(x)
                else:
                    body.append(x)
            rt = "Bool" if op[0] == "a" else "U"
            if prog:
                txt += "(program m%d (%s)\n :signature (%s) %s\n (((m%d %s) (%s %s))))\n" % (
                    i, " ".join("(%s %s%s)" % p for p in ps_), " ".join(p[1] for p in ps_), rt, i, " ".join(p[0] for p in ps_),
                    op, " ".join(body))
            else:
                txt += "(define m%d (%s) (%s %s))\n" % (i, " ".join("(%s %s%s)" % p for p in ps_), op, " ".join(body))
            sf = "(m%d %s)" % (i, " ".join(args))
        else:
            sf = "(%s %s)" % (op, " ".join(xs))
        q.true("(eo::is_eq %s %s)" % (sf, ex), txt[-300:] + sf)
        # a different argument makes a different term
        ys = list(xs)
        if isinstance(ys[j], tuple):
            ys[j] = ("list", ys[j][1] + ["c3"])
        else:
            ys[j] = "c0" if ys[j] != "c0" else "c1"
        if len(ys) > 1 or op[0] not in "cp":
            q.true("(eo::not (eo::is_eq %s %s))" % (sf, many_val(op, ys)), txt[-300:] + sf + "/")
    return q.run(env, MANY + txt)


PARTS = [Part("many_arguments", gen_many, check_many, 1500, 40000),
         Part("desugaring", gen, check, 4000, 100000),
         Part("dependent_nil", gen_par, check_par, 2500, 50000),
         Part("binders", c24.gen, c24.check, 3000, 60000)]
