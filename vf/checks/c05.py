"""C05: literal operators against exact integer/rational/bitvector/string arithmetic."""
from ..engine import Part, Discard
from ..eo import *
from ..gen import *

ID = "C05"
RULE = ("an evaluation is one query about one operator application (or nested expression) whose value or "
        "stuckness was predicted by the model; non-trivial if the operator is applied to at least one literal other "
        "than 0/1/true/false/empty, or is predicted stuck because of kind, domain or arity; distinct by query text")
TECHNIQUE = 'property-based testing: generated literal expressions against an exact-arithmetic reference model'
NOTE = 'Random search: every eo:: literal operator on generated literals (with boundary values) compared with a Python model written from the manual. Values where the manual leaves a choice (zdiv/zmod sign convention, hexadecimal results) are compared leniently.'
ASSUMPTIONS = ["eo::is_eq, eo::is_ok and :requires, through which results are observed, are judged by C08 and C01",
               "bit widths up to 4096, strings up to 64 characters, integers up to about 2^250",
               "either documented behaviour is accepted where the manual is silent or contradicts itself: eo::gt on bitvectors, "
               "neg/concat/extract/to_bin on hexadecimals, to_bin of a negative numeral, to_z/to_q of decimals, "
               "floor or Euclidean division by a negative numeral"]

UN = {"not": "byx", "neg": "zqdy", "is_neg": "zqd", "len": "ys", "to_z": "zqys", "to_q": "zq", "to_str": "zqdyxs"}
SAMEW = {"and": "byx", "or": "byx", "xor": "byx", "add": "zqdyx", "mul": "zqdyx", "zdiv": "zyx", "zmod": "zyx",
         "qdiv": "zqd", "gt": "zqd", "concat": "ys"}


def args_for(s, op):
    """arguments mostly of the right kinds"""
    if op in UN:
        return [glit(s, s.pick(UN[op]))]
    if op in SAMEW:
        k = s.pick(SAMEW[op])
        n = s.w([(6, 2), (2, 3), (1, 4), (1, 7)]) if op in NARY else 2
        w = 4 * s.r(1, 4) if k == 'x' else gwidth(s)
        return [glit(s, k, w) for _ in range(n)]
    if op == "extract":
        if s.p(50):
            v = glit(s, 'y')
            n = v[1]
        else:
            v = ('s', gstr(s))
            n = len(v[1])
        def idx():
            return s.w([(6, s.r(0, max(0, n - 1))), (1, n), (1, n - 1), (1, n + 1), (1, -1), (1, gint(s))])
        return [v, Z(idx()), Z(idx())]
    if op == "find":
        t = gstr(s, s.r(0, 8))
        if s.p(60) and t:
            i = s.r(0, len(t) - 1)
            u = t[i:s.r(i, len(t))]
        else:
            u = gstr(s, s.r(0, 3))
        return [('s', t), ('s', u)]
    if op == "to_bin":
        w = s.w([(6, s.r(0, 12)), (1, 32), (1, 64), (1, 65), (1, 200), (1, -1), (1, 2 ** 32), (1, 2 ** 64 + 3)])
        return [Z(w), glit(s, s.pick("zyy"))]
    raise ValueError(op)


def expr(s, depth, op=None):
    """surface term; arguments are literals or nested expressions of a fitting kind"""
    op = op or s.pick(LITOPS)
    a = args_for(s, op)
    m = s.n(10)
    if m == 9:      # a wrong kind, a missing or an extra argument
        q = s.n(3)
        if q == 0:
            a[s.n(len(a))] = glit(s)
        elif q == 1 and len(a) > 1:
            a.pop(s.n(len(a)))
        else:
            a.insert(s.n(len(a) + 1), glit(s))
    out = []
    for v in a:
        if depth > 0 and s.p(35):
            out.append(wrap(s, v, depth - 1))
        else:
            out.append(lit(v))
    return E(op, *out)


def wrap(s, v, depth):
    """an expression, most often of the same kind as v"""
    k = v[0]
    if k in "yx":
        w = v[1]
        o = s.pick(["not", "and", "or", "xor", "add", "mul", "zdiv", "zmod"])
        if k == 'y' and s.p(30):
            o = s.pick(["neg", "concat", "extract", "to_bin"])
        if o in ("not", "neg"):
            return E(o, lit(v))
        if o == "concat" and w > 1:
            c = s.r(1, w - 1)
            return E(o, lit(('y', w - c, v[2] >> c)), lit(('y', c, v[2] & ((1 << c) - 1))))
        if o == "extract":
            e = s.r(0, 5)
            return E(o, lit(('y', w + e, (v[2] << e) | s.n(1 << e) if e else v[2])), lit(Z(e)), lit(Z(e + w - 1)))
        if o == "to_bin":
            return E(o, lit(Z(w)), lit(s.pick([Z(v[2]), v, ('y', w + 3, v[2])])))
        if o in ("and", "or", "xor", "add", "mul", "zdiv", "zmod"):
            return E(o, lit(v), lit((k, w, gbv(s, w))))
        return lit(v)
    if k == 's':
        o = s.n(3)
        if o == 0 and v[1]:
            i = s.r(0, len(v[1]))
            return E("concat", lit(('s', v[1][:i])), lit(('s', v[1][i:])))
        if o == 1:
            return E("to_str", glit_t(s))
        return E("extract", lit(v), lit(Z(s.r(0, 3))), lit(Z(s.r(0, 9))))
    if k == 'b':
        o = s.pick(["not", "and", "is_neg", "or", "xor"])
        if o == "not":
            return E(o, lit(v))
        if o == "is_neg":
            return E(o, lit(glit(s, s.pick("zqd"))))
        return E(o, lit(v), lit(B(s.p(50))))
    if k == 'z' and s.p(50):
        o = s.pick(["len", "to_z", "zdiv", "zmod", "find"])
        return expr(s, depth, o)
    if k == 'q' and s.p(50):
        return expr(s, depth, s.pick(["qdiv", "to_q"]))
    o = s.pick(["add", "mul", "neg"])
    return E(o, lit(v)) if o == "neg" else E(o, lit(v), lit(glit(s, k)))


def glit_t(s):
    return lit(glit(s, s.pick("zqyx")))


TRIV = {Z(0), Z(1), TRUE, FALSE, ('s', ())}


def gen_batch(s):
    n = s.r(20, 60)
    return [expr(s, s.r(0, 3)) for _ in range(n)]


def nontriv(t):
    def lits(u):
        if u[0] == 'L':
            yield u[1]
        else:
            for x in u[2]:
                yield from lits(x)
    return any(l not in TRIV for l in lits(t))


def check_batch(case, env):
    m = Model(Sig())
    q = Queries()
    for t in case:
        try:
            v = m.eval(t)
        except Fuel:
            continue
        txt = ps(t)
        if len(txt) > 4000:
            continue
        try:
            q.value(txt, v, nontriv(t))
            if v is not STUCK and v[0] != 'alt':
                w = mutate(v)
                q.notequal(txt, w, nontriv(t))
        except Fuel:
            continue
        env.notes["op " + t[1]] = env.notes.get("op " + t[1], 0) + 1
        env.notes["predicted stuck" if v is STUCK else "predicted choice" if v[0] == 'alt' else "predicted value"] = \
            env.notes.get("predicted stuck" if v is STUCK else "predicted choice" if v[0] == 'alt' else "predicted value", 0) + 1
    if not q.items:
        raise Discard()
    return q.run(env, LITSIG)


def mutate(v):
    k = v[0]
    if k == 'b':
        return B(not v[1])
    if k == 'z':
        return Z(v[1] + 1)
    if k in 'qd':
        return (k, v[1] + 1)
    if k in 'yx':
        if v[1] == 0:
            return ('y', 1, 0)
        return (k, v[1], v[2] ^ 1)
    return ('s', v[1] + (97,))


# laws that need no model: identities on random literals

def gen_laws(s):
    return [(s.n(10), glit(s, 'z'), glit(s, 'z'), glit(s, 'z'), gwidth(s), s.n(1 << 30), s.n(1 << 30), gstr(s), gstr(s),
             gfrac(s), gfrac(s)) for _ in range(s.r(10, 30))]


def check_laws(case, env):
    q = Queries()
    for c, a, b, d, w, x, y, s1, s2, f, g in case:
        a_, b_, d_ = pv(a), pv(b), pv(d)
        x_, y_ = pv(('y', w, x % (1 << w))), pv(('y', w, y % (1 << w)))
        s_, t_ = pv(('s', s1)), pv(('s', s2))
        f_, g_ = pv(('q', f)), pv(('q', g))
        if c == 0 and b != Z(0):
            q.true("(eo::is_eq (eo::add (eo::mul %s (eo::zdiv %s %s)) (eo::zmod %s %s)) %s)" % (b_, a_, b_, a_, b_, a_))
        elif c == 1 and x % (1 << w):
            q.true("(eo::is_eq (eo::add (eo::mul %s (eo::zdiv %s %s)) (eo::zmod %s %s)) %s)" % (x_, y_, x_, y_, x_, y_))
        elif c == 2:
            q.true("(eo::is_eq (eo::extract (eo::concat %s %s) 0 %d) %s)" % (x_, y_, w - 1, y_))
            q.true("(eo::is_eq (eo::extract (eo::concat %s %s) %d %d) %s)" % (x_, y_, w, 2 * w - 1, x_))
        elif c == 3:
            q.true("(eo::is_eq (eo::to_bin %d (eo::to_z %s)) %s)" % (w, x_, x_))
        elif c == 4:
            q.true("(eo::is_eq (eo::mul (eo::add %s %s) %s) (eo::add (eo::mul %s %s) (eo::mul %s %s)))" % (a_, b_, d_, a_, d_, b_, d_))
        elif c == 5:
            q.true("(eo::is_eq (eo::neg (eo::neg %s)) %s)" % (x_, x_))
            q.true("(eo::is_eq (eo::add %s (eo::neg %s)) (eo::to_bin %d 0))" % (x_, x_, w))
        elif c == 6:
            q.true("(eo::is_eq (eo::concat (eo::extract (eo::concat %s %s) 0 %d) %s) (eo::concat %s %s))" % (s_, t_, len(s1) - 1, t_, s_, t_)
                   if s1 else "(eo::is_eq (eo::concat %s %s) %s)" % (s_, t_, t_))
            q.true("(eo::is_eq (eo::len (eo::concat %s %s)) (eo::add (eo::len %s) (eo::len %s)))" % (s_, t_, s_, t_))
        elif c == 7 and g:
            q.true("(eo::is_eq (eo::mul (eo::qdiv %s %s) %s) %s)" % (f_, g_, g_, f_))
        elif c == 8:
            q.true("(eo::is_eq (eo::xor %s %s) (eo::or (eo::and %s (eo::not %s)) (eo::and %s (eo::not %s))))" % (x_, y_, x_, y_, y_, x_))
        else:
            q.true("(eo::is_eq (eo::gt %s %s) (eo::is_neg (eo::add (eo::neg %s) %s)))" % (a_, b_, a_, b_))
            q.true("(eo::is_eq (eo::gt %s %s) (eo::is_neg (eo::add (eo::neg %s) %s)))" % (f_, g_, f_, g_))
    if not q.items:
        raise Discard()
    return q.run(env, LITSIG)


# every operator on every tuple of small literals (enumerated through the choices)
SMALL = ([Z(n) for n in (-2, -1, 0, 1, 2, 3)] + [('q', Fraction(a, b)) for a, b in ((-3, 2), (0, 1), (1, 1), (5, 2))] +
         [('d', Fraction(a, 10)) for a in (-15, 0, 20, 5)] + [TRUE, FALSE] +
         [('y', w, x) for w in (1, 2, 4) for x in sorted({0, 1, (1 << w) - 1, 1 << (w - 1)})] + [('y', 0, 0)] +
         [('x', 4, x) for x in (0, 1, 10, 15)] + [('x', 8, 0x0a)] +
         [('s', ()), S("a"), S("ab"), S("ba"), S("aab"), ('s', (196607,))] + [C("Int")])


def gen_small(s):
    op = s.pick(LITOPS)
    n = s.pick([1, 2, 2, 3]) if op in NARY or s.p(10) else ARITY[op]
    return op, [[s.pick(SMALL) for _ in range(n)] for _ in range(60)]


def check_small(case, env):
    op, tuples = case
    return check_batch([E(op, *[lit(v) for v in t]) for t in tuples], env)


# in programs: the operators applied to parameters bound at evaluation
def gen_prog(s):
    out = []
    for _ in range(s.r(5, 15)):
        t = expr(s, s.r(0, 2))
        out.append(t)
    return out


def check_prog(case, env):
    m = Model(Sig())
    q = Queries()
    hdr = [LITSIG]
    for i, t in enumerate(case):
        try:
            v = m.eval(t)
        except Fuel:
            continue
        ls = []

        def abstract(u):
            if u[0] == 'L':
                ls.append(u[1])
                return ('S', "p%d" % (len(ls) - 1))
            return (u[0], u[1], tuple(abstract(x) for x in u[2]))
        body = abstract(t)
        n = len(ls)
        try:
            argt = " ".join(pv(x) for x in ls)
            ps_ = " ".join("(p%d T%d)" % (j, j) for j in range(n))
            ts = " ".join("(T%d Type)" % j for j in range(n))
            hdr.append("(program f%d ((R Type) %s %s) :signature (%s) R (((f%d %s) %s)))\n" % (
                i, ts, ps_, " ".join("T%d" % j for j in range(n)), i, " ".join("p%d" % j for j in range(n)), ps(body)))
            q.value("(f%d %s)" % (i, argt), v, nontriv(t))
        except Fuel:
            continue
    if not q.items:
        raise Discard()
    return q.run(env, "".join(hdr))


PARTS = [Part("expressions", gen_batch, check_batch, 5000, 150000),
         Part("small", gen_small, check_small, 4000, 100000),
         Part("laws", gen_laws, check_laws, 2000, 50000),
         Part("in_programs", gen_prog, check_prog, 2500, 60000)]
