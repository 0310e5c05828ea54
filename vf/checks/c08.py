"""C08: core operators, equality, order and the propagation of failed evaluations."""
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *
from ..gen import glit

ID = "C08"
RULE = ("an evaluation is one query about a core operator on ground terms whose answer was predicted, one instance of an "
        "order law, or one file that must be rejected because its conclusion is stuck; non-trivial if a compound or stuck "
        "term is involved; distinct by query text and signature")
TECHNIQUE = 'property-based testing: core operators on generated terms against a reference model; order laws as metamorphic relations'
NOTE = 'Random search over random signatures and ground terms; stuck subterms are planted in random contexts and must propagate; conclusions that are stuck must be rejected.'
ASSUMPTIONS = ["answers are observed through steps whose rule requires (eo::is_eq ..) etc. to equal true; "
               "positive and negative queries are mixed so that a constant answer cannot pass",
               "for boolean connectives etc. see C05; eo::var in binders see C24"]


def stuck_term(s, w, t, depth=1):
    """surface term of sort t that does not evaluate"""
    c = s.n(9)
    p = ('S', s.pick(w.consts["Bool"]))
    if c == 0 and t == "Int":
        return E("add", ('S', s.pick(w.consts["Int"])), ('L', Z(1)))
    if c == 1 and t == "Bool":
        return E(s.pick(["not", "is_neg"]), p)
    if c == 2 and t == "Str":
        return E("concat", ('S', s.pick(w.consts["Str"])), ('L', S("a")))
    if c == 3:
        x, y = [('S', n) for n in s.perm(w.consts["U"])[:2]]
        return E("requires", x, y, gen_term(s, w, t, depth))
    if c == 4:
        return ('P', "nomatch" + t, (gen_term(s, w, "U", depth),))
    if c == 5 and t == "Int":
        return E("zdiv", ('L', Z(s.r(0, 3))), ('L', Z(0)))
    if c == 6 and t in "UV":
        ls = [o for o in w.ops if o[1] in NILATTRS and o[3] == t]
        if ls:
            o = s.pick(ls)
            return E("list_nth", ('S', o[0]), ('L', w.sig.ops[o[0]].term), ('L', Z(s.r(0, 2)))) if o[2] == t else \
                E("list_rev", ('S', o[0]), ('A', ('S', "unk" + t), (gen_term(s, w, t, 0),)))
    return E("ite", p, gen_term(s, w, t, depth), gen_term(s, w, t, depth))


def ctx(s, w, t, hole, depth):
    """(surface term of some sort having the hole of sort t strictly below, its sort)"""
    for _ in range(depth):
        fs = [f for f in w.fns if t in f[1]]
        os_ = [o for o in w.ops if o[2] == t or o[3] == t and o[1] in NILATTRS]
        m = s.n(10)
        if m < 3 and fs:
            f = s.pick(fs)
            i = s.pick([i for i, u in enumerate(f[1]) if u == t])
            hole = ('A', ('S', f[0]), tuple(hole if j == i else gen_term(s, w, u, 1) for j, u in enumerate(f[1])))
            t = f[2]
        elif m < 6 and os_:
            o = s.pick([o for o in os_ if o[2] == t] or os_)
            if o[2] == t:
                done = [False]
                k = s.r(2, 3)
                i = s.n(k)
                args = [hole if j == i else gen_term(s, w, o[2], 1) for j in range(k)]
                if o[1] in ("right-assoc", "left-assoc"):
                    last = 0 if o[1] == "left-assoc" else k - 1
                    if i == last and o[3] != t:
                        i = (i + 1) % k
                        args = [hole if j == i else gen_term(s, w, o[2], 1) for j in range(k)]
                    if i != last:
                        args[last] = gen_term(s, w, o[3], 1)
                hole = ('A', ('S', o[0]), tuple(args))
                t = o[3]
        elif m == 6:
            hole = E("eq", *s.perm([hole, gen_term(s, w, t, 1)]))
            t = "Bool"
        elif m == 7:
            hole = ('P', "idp" + t, (hole,))
        elif m == 8:
            hole = E("requires", hole, hole, gen_term(s, w, "U", 1)) if s.p(50) else \
                E("requires", ('L', TRUE), ('L', TRUE), hole)
            if hole[2][0] != ('L', TRUE) or hole[2][2] is None:
                t = "U"
        else:
            c = E("eq", hole, gen_term(s, w, t, 0))
            hole = E("ite", c, gen_term(s, w, "V", 1), gen_term(s, w, "V", 1))
            t = "V"
    return hole, t


def world(s):
    w = gen_world(s)
    for t in SORTS:
        w.declare("(declare-const unk%s (-> %s %s))" % (t, t, t))
        w.sig.ops["unk" + t] = Op("unk" + t)
        w.declare("(program nomatch%s ((x %s)) :signature (U) %s (((nomatch%s uNO) %s)))" %
                  (t, t, t, t, w.consts[t][0]) if False else
                  "(declare-const uNO%s U)\n(program nomatch%s ((x %s)) :signature (U) %s (((nomatch%s uNO%s) %s)))" % (
                      t, t, t, t, t, t, w.consts[t][0]))
        w.sig.progs["nomatch" + t] = [((('S', "uNO" + t),), ('S', w.consts[t][0]))]
        w.sig.params["nomatch" + t] = ["x"]
        w.declare("(program idp%s ((x %s)) :signature (%s) %s (((idp%s x) x)))" % (t, t, t, t, t))
        w.sig.progs["idp" + t] = [((('S', "x"),), ('S', "x"))]
        w.sig.params["idp" + t] = ["x"]
    return w


def gen(s):
    w = world(s)
    qs = []
    pool = {t: [gen_term(s, w, t, s.r(0, 3)) for _ in range(3)] for t in SORTS}

    def any_term(t, stuckness):
        if s.p(stuckness):
            x = stuck_term(s, w, t)
            return x
        return s.pick(pool[t]) if s.p(60) else gen_term(s, w, t, s.r(0, 3), None, s.p(20))
    for _ in range(s.r(15, 40)):
        t = s.pick(SORTS)
        op = s.pick(["eq", "is_eq", "is_eq", "is_ok", "ite", "requires", "typeof", "nameof", "is_z", "is_q", "is_bin", "is_str",
                     "is_bool", "is_var", "ctx", "ctx", "var"])
        st = s.pick([0, 0, 30, 60])
        if op in ("eq", "is_eq"):
            x = any_term(t, st)
            u = t if s.p(85) else s.pick(SORTS)
            y = x if s.p(30) else any_term(u, st)
            qs.append((op, E(op, x, y)))
        elif op == "is_ok":
            qs.append((op, E(op, any_term(t, 50))))
        elif op == "ite":
            c = gen_cond(s, w, 1, None, ()) if s.p(70) else any_term("Bool", 30)
            qs.append((op, E(op, c, any_term(t, st), any_term(t, st))))
        elif op == "requires":
            x = any_term(t, st)
            qs.append((op, E(op, x, x if s.p(50) else any_term(t, st), any_term(s.pick(SORTS), st))))
        elif op == "typeof":
            x = any_term(t, st)
            qs.append((op, ("typeof", x, t)))
        elif op == "nameof":
            m = s.n(4)
            if m == 0:
                qs.append((op, E(op, ('S', s.pick(w.consts[t])))))
            elif m == 1:
                qs.append((op, E(op, ('S', s.pick(w.fns)[0]))))
            elif m == 2:
                qs.append((op, E(op, ('S', s.pick(["U", "V", "Int", "Str"])))))
            else:
                x = any_term(t, st)
                qs.append((op, E(op, x)))
        elif op in ("is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var"):
            m = s.n(4)
            if m == 0:
                x = ('L', glit(s))
            elif m == 1:
                x = E("var", ('L', S(s.pick("xyz"))), ('S', t))
            else:
                x = any_term(t, st)
            qs.append((op, E(op, x)))
        elif op == "var":
            n1, n2 = s.pick("xyz"), s.pick("xyz")
            t2 = s.pick(SORTS)
            qs.append((op, E("is_eq", E("var", ('L', S(n1)), ('S', t)), E("var", ('L', S(n2)), ('S', t2)))))
            qs.append((op, E("nameof", E("var", ('L', S(n1)), ('S', t)))))
        else:
            h = stuck_term(s, w, t)
            c, _ = ctx(s, w, t, h, s.r(1, 3))
            qs.append(("ctx", c))
            h = gen_term(s, w, t, 1)
            c, _ = ctx(s, w, t, h, s.r(1, 3))
            qs.append(("ctx", c))
    return w, qs


def check(case, env):
    w, qs = case
    m = Model(w.sig, 5000)
    q = Queries()
    for op, t in qs:
        try:
            if t[0] == "typeof":
                v = m.eval(t[1])
                txt = "(eo::typeof %s)" % ps(t[1])
                if v is STUCK:
                    q.stuck(txt)
                else:
                    q.true("(eo::is_eq %s %s)" % (txt, t[2]))
                    other = [u for u in SORTS if u != t[2]][len(txt) % 4]
                    q.true("(eo::not (eo::is_eq %s %s))" % (txt, other))
                    if v[0] == 'a' and v[1][0] != 'c':
                        # a partial application
                        f, xs = spine(v)
                        sig = [a for n, a, r in w.fns if n == f[1]]
                        if sig and len(xs) == len(sig[0]):
                            q.true("(eo::is_eq (eo::typeof %s) (-> %s %s))" % (pv(v[1]), sig[0][-1], t[2]))
                continue
            v = m.eval(t)
            if v is not STUCK and len(pv(v)) > 3000:
                continue
        except (Fuel, RecursionError):
            continue
        txt = ps(t)
        nt = len(txt) > 20
        q.value(txt, v, nt)
        k = "%s %s" % (op, "stuck" if v is STUCK else "true" if v == TRUE else "false" if v == FALSE else "value")
        env.notes[k] = env.notes.get(k, 0) + 1
    if not q.items:
        raise Discard()
    return q.run(env, w.text)


# ----- order

def gen_order(s):
    w = world(s)
    terms = []
    for _ in range(s.r(4, 8)):
        m = s.n(10)
        if m == 0:
            terms.append(('L', glit(s)))
        elif m == 1:
            terms.append(('S', s.pick(SORTS)))
        elif m == 2:
            terms.append(('S', s.pick(w.fns)[0]))
        else:
            terms.append(gen_term(s, w, s.pick(SORTS), s.r(0, 3)))
    idx = [(s.n(len(terms)), s.n(len(terms)), s.n(len(terms))) for _ in range(s.r(10, 30))]
    return w, terms, idx, s.n(4)


def check_order(case, env):
    w, terms, idx, mode = case
    m = Model(w.sig)
    q = Queries()
    try:
        vs = [m.eval(t) for t in terms]
    except Fuel:
        raise Discard()
    ts = [ps(t) for t in terms]
    order = "".join(ts)
    for i, j, k in idx:
        a, b, c = ts[i], ts[j], ts[k]
        if vs[i] == vs[j]:
            q.true("(eo::not (eo::cmp %s %s))" % (a, b))
            q.true("(eo::is_eq (eo::hash %s) (eo::hash %s))" % (a, b))
            q.true("(eo::eq %s %s)" % (a, b))
        else:
            q.true("(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))" % (a, b, b, a))
            q.true("(eo::not (eo::is_eq (eo::hash %s) (eo::hash %s)))" % (a, b))
            q.true("(eo::not (eo::eq %s %s))" % (a, b))
        q.true("(eo::is_z (eo::hash %s))" % a)
        q.true("(eo::is_eq (eo::cmp %s %s) (eo::is_neg (eo::add (eo::neg (eo::hash %s)) (eo::hash %s))))" % (a, b, a, b))
        # transitivity
        q.true("(eo::or (eo::not (eo::and (eo::cmp %s %s) (eo::cmp %s %s))) (eo::cmp %s %s))" % (a, b, b, c, a, c))
    if mode:
        # the hash of a term stays what it was
        d = "".join("(define hs%d () (eo::hash %s))\n" % (i, t) for i, t in enumerate(ts))
        for i, t in enumerate(ts):
            q.true("(eo::is_eq hs%d (eo::hash %s))" % (i, t), order + t)
        return q.run(env, w.text + d)
    return q.run(env, w.text)


# ----- the order on many terms

def gen_many(s):
    n = s.w([(6, s.r(260, 700)), (3, s.r(700, 3000)), (1, s.r(66000, 70000))])
    mode = s.n(3)          # constants, applications, numerals are compared
    pre = s.n(3)           # how the terms get their hashes
    def idx():
        m = s.n(4)
        return s.n(n) if m < 2 else s.n(min(n, 10)) if m == 2 else n - 1 - s.n(min(n, 10))
    ps_ = []
    for _ in range(s.r(60, 150)):
        i = idx()
        # distances at which a truncated hash would repeat
        d = s.pick([1, 128, 255, 256, 257, 512, 65536])
        j = (i + d) % n if s.p(30) else idx()
        ps_.append((i, j, idx()))
    return n, mode, pre, ps_


def check_many(case, env):
    n, mode, pre, trs = case
    w = ["(declare-const U Type)\n(declare-const Int Type)\n(declare-consts <numeral> Int)\n(declare-const k (-> U U))\n"]
    if mode < 2:
        w.append("".join("(declare-const c%d U)\n" % i for i in range(n)))
    term = [lambda i: "c%d" % i, lambda i: "(k c%d)" % i, lambda i: str(i)][mode]
    if pre == 0:
        w.append("".join("(define g%d () (eo::hash %s))\n" % (i, term(i)) for i in range(n)))
    elif pre == 1:
        w.append("".join("(define g%d () (eo::cmp %s %s))\n" % (i, term(i), term(i + 1)) for i in range(0, n - 1, 2)))
    q = Queries()
    for i, j, k in trs:
        a, b, c = term(i), term(j), term(k)
        key = "%d %d " % (mode, pre)
        if i == j:
            q.true("(eo::not (eo::cmp %s %s))" % (a, b), key + a + b)
        else:
            q.true("(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))" % (a, b, b, a), key + a + b)
            q.true("(eo::not (eo::is_eq (eo::hash %s) (eo::hash %s)))" % (a, b), key + "h" + a + b)
        q.true("(eo::is_eq (eo::cmp %s %s) (eo::is_neg (eo::add (eo::neg (eo::hash %s)) (eo::hash %s))))" % (a, b, a, b), key + "n" + a + b)
        q.true("(eo::or (eo::not (eo::and (eo::cmp %s %s) (eo::cmp %s %s))) (eo::cmp %s %s))" % (a, b, b, c, a, c),
               key + "t" + a + b + c)
    env.notes["many terms: %s" % ("> 65536" if n > 65536 else "> 256")] = env.notes.get(
        "many terms: %s" % ("> 65536" if n > 65536 else "> 256"), 0) + 1
    return q.run(env, "".join(w))


# ----- nothing stuck is a conclusion

def gen_reject(s):
    w = world(s)
    t = s.pick(SORTS)
    h = stuck_term(s, w, t)
    for _ in range(20):
        c, u = ctx(s, w, t, h, s.r(0, 2))
        if u == "Bool":
            break
    else:
        c = stuck_term(s, w, "Bool")
    return w, c, s.n(8)


def check_reject(case, env):
    w, c, mode = case
    m = Model(w.sig, 5000)
    try:
        if m.eval(c) is not STUCK:
            raise Discard()
    except Fuel:
        raise Discard()
    t = ps(c)
    good = "p0"
    hdr = w.text + "(declare-rule r ((x Bool)) :args (x) :conclusion x)\n" \
        "(declare-rule re ((x Bool)) :conclusion-explicit x)\n" \
        "(declare-rule rp ((x Bool)) :premises (x) :conclusion x)\n"

    def text(t):
        return [hdr + "(step s0 :rule r :args (%s))\n" % t,
                hdr + "(step s0 %s :rule r :args (%s))\n" % (t, t),
                hdr + "(step s0 %s :rule re)\n" % t,
                hdr + "(declare-rule r0 ((x Bool)) :args (x) :conclusion %s)\n(step s0 :rule r0 :args (true))\n" % t,
                hdr + "(declare-rule r0 ((x Bool)) :args (x) :conclusion (eo::ite x %s %s))\n(step s0 :rule r0 :args (true))\n" % (t, t),
                hdr + "(declare-rule r0 ((x Bool)) :args (x) :requires ((x x)) :conclusion (eo::requires x true %s))\n(step s0 %s :rule r0 :args (true))\n" % (t, t),
                hdr + "(declare-rule r0 () :conclusion %s)\n(step s0 :rule r0)\n" % t,
                hdr + "(program pr ((x Bool)) :signature (Bool) Bool (((pr x) %s)))\n(declare-rule r0 ((x Bool)) :args (x) :conclusion (pr x))\n(step s0 :rule r0 :args (true))\n" % t,
                ][mode]
    r = env.run({"a.eo": text(t)}, "a.eo")
    if r.verdict != "reject":
        raise Violation("a conclusion that does not evaluate must be rejected, but: %s" % r.show(), {"a.eo": text(t)}, "ethos a.eo")
    r = env.run({"a.eo": text(good)}, "a.eo")
    if r.verdict != "correct":
        raise Violation("the same step with the conclusion p0 must be accepted, but: %s" % r.show(), {"a.eo": text(good)}, "ethos a.eo")
    return [(text(t), True), (text(good), False)]


# ----- builtin operators applied to a wrong number of arguments, in programs

ARITY = {1: ["is_ok", "typeof", "nameof", "hash", "not", "neg", "is_neg", "len", "to_z", "to_q", "to_str", "is_z", "is_q", "is_bin",
             "is_str", "is_bool", "is_var", "dt_constructors", "dt_selectors"],
         2: ["is_eq", "var", "eq", "zdiv", "zmod", "qdiv", "to_bin", "find", "cmp", "gt", "list_len", "list_rev", "list_setof",
             "list_singleton_elim", "nil"],
         3: ["requires", "ite", "ite", "ite", "cons", "list_find", "list_erase", "list_erase_all", "list_nth", "list_minclude",
             "list_meq", "list_diff", "list_inter", "list_concat", "extract"]}


def gen_arity(s):
    """(program body, arguments, expected value) with a malformed application below is_ok, a stuck context or an unused branch"""
    out = []
    vals = ["true", "false", "0", "1", "3", '"a"', "#b01", "a", "b", "(k a)", "f", "-1/2"]
    for _ in range(s.r(5, 20)):
        n = s.r(1, 3)
        op = s.pick(ARITY[n])
        k = s.pick([i for i in range(1, 6) if i != n and not (op == "extract" and i == 2)])
        if op == "requires" and k > 3:
            k = s.r(1, 2)
        def leaf():
            return s.pick(["x0", "x1", "x0", "x1", s.pick(vals)])
        a = []
        for i in range(k):
            m = s.n(8)
            a.append(leaf() if m < 6 else "(k2 %s %s)" % (leaf(), leaf()) if m == 6 else "(eo::eq %s %s)" % (leaf(), leaf()))
        if "list" in op or op in ("nil", "cons"):
            a[0] = "and"
        bad = "(eo::%s %s)" % (op, " ".join(a))
        d = s.r(0, 2)
        for _ in range(d):
            bad = s.pick(["(k2 %s x1)", "(k2 x0 %s)", "(eo::eq x0 %s)", "(eo::not %s)", "(eo::requires true true %s)", "(idq %s)",
                          "(eo::ite %s x0 x1)", "(k2 %s %s)"]).replace("%s", bad)
        w = s.n(6)
        body, want = [("(eo::is_ok %s)" % bad, "false"), ("(eo::is_eq %s x0)" % bad, "false"), (bad, None),
                      ("(eo::ite true x0 %s)" % bad, "x0"), ("(eo::ite false %s x1)" % bad, "x1"),
                      ("(eo::ite (eo::is_ok %s) x0 x1)" % bad, "x1")][w]
        out.append((body, [s.pick(vals), s.pick(vals)], want, op, k))
    return out, s.p(50)


AHEAD = """(declare-const U Type)
(declare-const Int Type)
(declare-const Real Type)
(declare-const Str Type)
(declare-const Bin Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <string> Str)
(declare-consts <binary> Bin)
(declare-const a U)
(declare-const b U)
(declare-const f (-> U Bool))
(declare-const k (-> U U))
(declare-parameterized-const k2 ((T Type :implicit) (S Type :implicit)) (-> T S U))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(program idq ((T Type) (x T)) :signature (T) T (((idq x) x)))
"""


def check_arity(case, env):
    qs, through = case
    q = Queries()
    txt = [AHEAD]
    for i, (body, args, want, op, k) in enumerate(qs):
        txt.append("(program hp%d ((T Type) (S Type) (R Type) (x0 T) (x1 S))\n :signature (T S) %s\n (((hp%d x0 x1) %s)))\n" % (
            i, "T" if want == "x0" and "is_ok" not in body else "S" if want == "x1" and "is_ok" not in body else "Bool", i, body))
        t = "(hp%d %s)" % (i, " ".join(args))
        if through:
            t = "(idq %s)" % t
        env.notes["eo::" + op] = env.notes.get("eo::" + op, 0) + 1
        if want is None:
            q.true("(eo::not (eo::is_ok %s))" % t, body + t)
        else:
            v = args[int(want[1])] if want in ("x0", "x1") else want
            q.true("(eo::is_eq %s %s)" % (t, v), body + t)
    return q.run(env, "".join(txt))


PARTS = [Part("wrong_arity", gen_arity, check_arity, 700, 20000),
         Part("core", gen, check, 3000, 80000),
         Part("order", gen_order, check_order, 1200, 30000),
         Part("order_many", gen_many, check_many, 150, 4000),
         Part("stuck_conclusions", gen_reject, check_reject, 1500, 30000)]
