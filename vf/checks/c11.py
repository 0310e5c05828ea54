"""C11: definitions, let and eo::define are transparent abbreviations."""
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *
from ..rules import rule_text
from .. import sx, mutate
from . import c01, c07

ID = "C11"
RULE = ("an evaluation is one query or proof in which subterms were replaced by macros, let or eo::define, whose outcome is "
        "predicted (by the model, or by the same text without abbreviations); non-trivial if at least one abbreviation was "
        "put in; distinct by text")
TECHNIQUE = ("metamorphic and model-based property-based testing: random abstraction of subterms into definitions with "
             "parameters, lets and local definitions, in patterns, programs, rules, queries and the proofs of the test-suite")
NOTE = ("Random search. Names of parameters and of let variables are drawn from those of the context and from the constants, "
        "so that captures and parallel bindings matter. List parameters are handed to list parameters only.")
ASSUMPTIONS = ["partial and surplus applications of macros are not decided here"]

FRESH = ["w0", "w1", "w2", "x_0", "x_1", "y_0", "b_0", "i_0", "z_0", "y_1", "b_1", "i_1", "z_1"]


class Abs:
    """prints surface terms with random subterms abstracted"""

    def __init__(self, s, w, rate=35, pre="M", lets=True):
        self.s, self.w, self.rate, self.pre, self.lets = s, w, rate, pre, lets
        self.defs = []
        self.n = 0
        self.used = {}
        self.consts = {c: t for t in SORTS for c in w.consts[t]}
        self.reuse = []       # ground definitions

    def take(self):
        t = "".join(self.defs)
        self.defs = []
        return t

    def note(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def __call__(self, t, order=()):
        return self.p(t, {q: (u, l) for q, u, l in order}, 3)

    def names(self, t, acc):
        if t[0] == 'S':
            acc.add(t[1])
        elif t[0] == 'L':
            cnames(t[1], acc)
        else:
            if t[0] in 'A_':
                self.names(t[1], acc)
            for x in t[2]:
                self.names(x, acc)
        return acc

    def sort(self, t, env):
        k = t[0]
        if k == 'L':
            return {"b": "Bool", "z": "Int", "s": "Str"}.get(t[1][0])
        if k == 'S':
            return env[t[1]][0] if t[1] in env else self.consts.get(t[1])
        if k == 'A':
            n = t[1][1]
            for g, a, r in self.w.fns:
                if g == n:
                    return r
            for g, attr, et, lt in self.w.ops:
                if g == n:
                    return None if len(t[2]) == 1 else lt
        return None

    def islist(self, t, env):
        return t[0] == 'S' and t[1] in env and env[t[1]][1]

    def plain(self, t, env, d):
        k = t[0]
        if k == 'A':
            return "(%s %s)" % (ps(t[1]), " ".join(self.p(x, env, d) for x in t[2]))
        if k == 'E':
            # operators as first arguments stay
            return "(eo::%s %s)" % (t[1], " ".join(ps(x) if x[0] == 'S' and x[1] in self.w.sig.ops else self.p(x, env, d) for x in t[2]))
        if k == 'P' and not t[2]:
            return t[1]
        if k == 'P':
            return "(%s)" % " ".join([t[1]] + [self.p(x, env, d) for x in t[2]])
        return ps(t)

    def p(self, t, env, d):
        s = self.s
        if t[0] in 'LS':
            if d > 0 and s.p(4) and not self.islist(t, env):
                # an abbreviation of a constant or a parameter
                if t[0] == 'S' and t[1] in env:
                    n = s.pick(FRESH)
                    self.note("let")
                    return "(eo::define ((%s %s)) %s)" % (n, t[1], n)
                self.n += 1
                n = "%s%d" % (self.pre, self.n)
                self.defs.append("(define %s () %s)\n" % (n, ps(t)))
                self.note("constant")
                return n
            return ps(t)
        if t[0] not in 'AEP' or d <= 0 or not s.p(self.rate):
            return self.plain(t, env, d)
        # holes
        args = list(t[2])
        holes = {}
        for i, x in enumerate(args):
            if self.islist(x, env) or t[0] in 'EP' and (x[0] == 'S' and x[1] in self.w.sig.ops):
                continue
            u = self.sort(x, env)
            if u in SORTS and s.p(60):
                holes[i] = u
        rest = set()
        for i, x in enumerate(args):
            if i not in holes:
                self.names(x, rest)
        if t[0] == 'A':
            rest.add(t[1][1])
        free = sorted(n for n in rest if n in env)
        macro = s.p(60) or not self.lets
        pool = FRESH + sorted(env) + [c for c in self.consts]
        taken = set(rest) if not macro else rest - set(free)
        pool = [n for n in dict.fromkeys(pool) if n not in taken]
        ren = {}
        if macro:
            for n in free:
                m = s.pick(pool)
                pool.remove(m)
                ren[n] = m
        hn = {}
        for i in holes:
            same = [n for n in pool if n in env and env[n][0] == holes[i] or self.consts.get(n) == holes[i]]
            m = s.pick(same) if same and s.p(60) else s.pick(pool)
            pool.remove(m)
            hn[i] = m
        nargs = [('S', hn[i]) if i in holes else rename(x, ren) for i, x in enumerate(args)]
        body = (t[0], t[1], tuple(nargs))
        benv = {ren[n]: env[n] for n in free} if macro else dict(env)
        for i in holes:
            benv[hn[i]] = (holes[i], False)
        vals = {i: self.p(args[i], env, d - 1) for i in holes}
        if macro:
            pars = [(ren[n], env[n], n) for n in free] + [(hn[i], (holes[i], False), vals[i]) for i in holes]
            pars = s.perm(pars)
            if not pars and self.reuse and s.p(20):
                same = [n for n, b in self.reuse if b == t]
                if same:
                    return same[0]
            self.n += 1
            n = "%s%d" % (self.pre, self.n)
            bt = self.p(body, benv, d - 1)
            attr = ""
            self.defs.append("(define %s (%s) %s%s)\n" % (
                n, " ".join("(%s %s%s)" % (q, u, " :list" if l else "") for q, (u, l), _ in pars), bt, attr))
            self.note("macro/%d" % min(len(pars), 4))
            if not pars:
                self.reuse.append((n, t))
                return n
            return "(%s %s)" % (n, " ".join(a for _, _, a in pars))
        if not holes:
            return self.plain(t, env, d)
        self.note("let/%d" % min(len(holes), 3))
        kw = "eo::define" if self.lets != "let" or s.p(50) else "let"
        binds = ["(%s %s)" % (hn[i], vals[i]) for i in s.perm(sorted(holes))]
        return "(%s (%s) %s)" % (kw, " ".join(binds), self.p(body, benv, d - 1))


def cnames(v, acc):
    if v[0] == 'c':
        acc.add(v[1])
    elif v[0] == 'a':
        cnames(v[1], acc)
        cnames(v[2], acc)


def rename(t, ren):
    k = t[0]
    if k == 'S':
        return ('S', ren.get(t[1], t[1]))
    if k == 'L':
        return t
    h = rename(t[1], ren) if k in 'A_' else t[1]
    return (k, h, tuple(rename(x, ren) for x in t[2]))


def gen(s):
    c = c07.gen(s) if s.p(60) else c07.gen_rec(s)
    w, out, qs, extra, forward, modes = c
    # terms without programs
    terms = [gen_term(s, w, s.pick(SORTS), s.r(1, 4), None, s.p(50)) for _ in range(s.r(2, 8))]
    rate = s.pick([20, 35, 60])
    ab = Abs(s, w, rate)
    ptext = c07.progtext(out, True, ab)
    qt = []
    for t in [t for t in extra + terms]:
        ab.reuse = []
        qt.append((t, ab(t), ab.take()))
    calls = []
    for _, ts in qs:
        ab.reuse = []
        calls.append(([ab(a) if plain(a) else None for a in ts], ab.take()))
    return c, ptext, qt, calls, ab.used


def plain(t):
    return t[0] in ('L', 'S') or t[0] in ('A', 'E', 'P', '_') and all(plain(x) for x in t[2])


def check(case, env):
    (w, out, qs, extra, forward, modes), ptext, qt, cargs, used = case
    m = Model(w.sig, 3000)
    q = Queries()
    c07.read_programs(m, out)
    nt = bool(used)
    txt = ""
    for (n_, ts), (ca, d) in zip(qs, cargs):
        try:
            for a in ts:
                if plain(a):
                    m.fuel = 3000
                    c07.ground_calls(m, a, set())
            vs = [c07.value(m, t) for t in ts]
            if STUCK in vs:
                continue
            m.fuel, m.calls = 3000, 0
            v = m.call(n_, vs)
        except (Fuel, RecursionError):
            continue
        c = "(%s %s)" % (n_, " ".join(c or pv(x) for c, x in zip(ca, vs)))
        if len(c) > 5000 or (v is not STUCK and len(pv(v)) > 3000):
            continue
        txt += d
        q.value(c, v, nt)
    for t, a, d in qt:
        try:
            m.fuel, m.calls = 3000, 0
            c07.ground_calls(m, t, set())
            m.fuel, m.calls = 3000, 0
            v = m.eval(t)
        except (Fuel, RecursionError):
            continue
        if len(a) > 5000 or (v is not STUCK and len(pv(v)) > 3000):
            continue
        txt += d
        q.value(a, v, nt)
    if not q.items:
        raise Discard()
    for k, n in used.items():
        env.notes[k] = env.notes.get(k, 0) + n
    head = w.text + ptext + txt
    return [(ptext + txt + k, n) for k, n in q.run(env, head)]


# ----- rules and proofs

def gen_rules(s):
    ab = [None]

    def rt(w, r):
        if ab[0] is None:
            ab[0] = Abs(s, w, s.pick([20, 40, 60]))
        t = rule_text(r, lambda t: ab[0](t, r.order) if t[0] != 'S' or not ab[0].islist(t, {q: (u, l) for q, u, l in r.order}) else ps(t))
        return ab[0].take() + t
    sig, cmds, ok, keys, _ = c01.gen(s, rt)
    return sig, cmds, ok, keys, ab[0].used


def check_rules(case, env):
    sig, cmds, ok, keys, used = case
    text = sig + "".join(cmds)
    r = env.run({"p.eo": text}, "p.eo")
    want = "correct" if ok else "reject"
    for k, n in used.items():
        env.notes["rule " + k] = env.notes.get("rule " + k, 0) + n
    if r.verdict != want:
        raise Violation("expected %s, but: %s" % (want, r.show()), {"p.eo": text}, "ethos p.eo")
    return [(sig + k[0], bool(used)) for k in keys]


# ----- the proofs of the test-suite

STOP = {"let", "eo::define", "!", "as", "eo::as", "lambda", "eo::var", "_"}


def term_positions(n, stop, acc):
    acc.append(n)
    if n.k == "(" and n.kids and n.kids[0].k in "aq" and n.kids[0].text not in stop:
        for x in n.kids[1:]:
            term_positions(x, stop, acc)


def terms_of(c, stop):
    """subterms of a command that are ground, or None"""
    acc = []
    h = c.head
    if h in ("assume", "assume-push") and len(c.kids) == 3:
        term_positions(c.kids[2], stop, acc)
    elif h in ("step", "step-pop"):
        f = c01.fields(c)
        if "" in f:
            term_positions(f[""], stop, acc)
        a = f.get(":args")
        if a is not None:
            for x in a.kids:
                term_positions(x, stop, acc)
    elif h == "define" and len(c.kids) >= 4 and not c.kids[2].kids:
        term_positions(c.kids[3], stop, acc)
    return acc


def setup(bins, tier, seed):
    from ..engine import Env
    e = Env(bins)
    sx.accepted(e)
    e.close()


def gen_corpus(s):
    name, text, v = s.pick(sx._base)
    m = False
    if s.p(30):
        t = mutate.node_mutation(s, text)
        if t is not None and len(t) < 60000:
            text, m = t, True
    if len(text) > 60000:
        raise Discard()
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    stop = set(STOP)
    for c in cs:
        if any(k.text in (":binder", ":let-binder") for k in c.kids):
            stop.add(c.kids[1].text)
    cand = []
    for c in cs:
        for t in terms_of(c, stop):
            cand.append((c, t))
    if not cand:
        raise Discard()
    eds = {}
    n = 0
    for _ in range(s.r(1, 6)):
        c, t = s.pick(cand)
        if any(not (t.b <= a or b <= t.a) for a, b in eds):
            continue
        n += 1
        # one may be inside of the other: only disjoint ones are taken
        kind = s.n(3)
        eds[(t.a, t.b)] = (kind, c, n)
    out = []
    for (a, b), (kind, c, n) in eds.items():
        x = text[a:b]
        nm = s.pick(["@abs%d" % n, "|abs %d|" % n, "abs%d" % n])
        if kind == 0:
            out.append((c.a, c.a, "(define %s () %s)\n" % (nm, x)))
            out.append((a, b, nm))
        elif kind == 1:
            out.append((a, b, "(eo::define ((%s %s)) %s)" % (nm, x, nm)))
        else:
            # all ground: the name of the term itself may be used
            out.append((c.a, c.a, "(define %s ((%s Type)) %s)\n" % (nm, nm + "p" if nm[-1] != "|" else "|p|", x)))
            out.append((a, b, "(%s Bool)" % nm))
    return name, text, sx.replace(text, sorted(out)), m


def check_corpus(case, env):
    name, text, text2, m = case
    r1 = env.run({"p.eo": text}, "p.eo", timeout=3)
    if r1.verdict == "timeout":
        raise Discard()
    r2 = env.run({"p.eo": text2}, "p.eo")
    env.notes["test-suite: " + r1.verdict] = env.notes.get("test-suite: " + r1.verdict, 0) + 1
    if r1.verdict != r2.verdict:
        raise Violation("%s without but %s with definitions" % (r1.show(), r2.show()), {"p.eo": text2, "original.eo": text}, "ethos p.eo")
    return [(text2, True)]


# ----- definitions keep the meaning of the symbols they were written with

def gen_hide(s):
    w = gen_world(s)
    for t in SORTS:
        w.consts[t].append("k" + t)     # never hidden
        w.declare("(declare-const k%s %s)" % (t, t))
    ab = Abs(s, w, s.pick([20, 40, 70]))
    m = Model(w.sig, 3000)
    ds = []
    txt = ""
    for i in range(s.r(1, 5)):
        ps_ = s.sub(SORTS, 0, 3)
        params = {t: ["a_" + t] for t in ps_}
        order = [("a_" + t, t, False) for t in ps_]
        t = s.pick(SORTS)
        # earlier definitions may be used
        for n, t1, body, o1 in ds:
            if s.p(60):
                arg = tuple(('S', params[u][0]) if u in ps_ and s.p(60) else ('S', s.pick(w.consts[u])) for _, u, _ in o1)
                params.setdefault(t1, []).append(('P', n, arg))
        body = gen_term(s, w, t, s.r(1, 3), params, s.p(40), (), 20)
        bt = call_text(ab, body, order)
        txt += ab.take() + "(define T%d (%s) %s)\n" % (i, " ".join("(%s %s)" % (q, u) for q, u, _ in order), bt)
        w.sig.progs["T%d" % i] = [(tuple(('S', q) for q, _, _ in order), body)]
        w.sig.params["T%d" % i] = [q for q, _, _ in order]
        w.sig.lists["T%d" % i] = frozenset()
        ds.append(("T%d" % i, t, body, order))
    tests = []
    for k in range(s.r(2, 8)):
        n, t, body, order = s.pick(ds)
        args = [C("k" + u) for _, u, _ in order]
        try:
            v = expand_value(w, m, ds, n, args)
        except Fuel:
            continue
        if v is STUCK or len(pv(v)) > 2000:
            continue
        txt += "(program t%d ((z %s)) :signature (%s) Bool (((t%d %s) true) ((t%d z) false)))\n" % (k, t, t, k, pv(v), k)
        tests.append((k, t, n, "(%s %s)" % (n, " ".join(pv(a) for a in args)) if args else n, v))
    if not tests:
        raise Discard()
    names = [(c, t) for t in SORTS for c in w.consts[t] if c != "k" + t] + [(f[0], None) for f in w.fns] + [(o[0], None) for o in w.ops]
    last = [d[0] for d in ds]
    qs = []
    for k, t, n, text, v in tests:
        for k2, t2, n2, text2, v2 in tests:
            if t2 == t and s.p(60):
                qs.append((k, text2, v == v2, n2))
    if not qs:
        raise Discard()
    hide, local = "", []
    for c, t in s.sub(names, 1, 6):
        # local variables hide as well
        m_ = s.n(9)
        u = s.pick(SORTS)
        if m_ == 0:
            hide += "(declare-const %s %s)\n" % (c, u)
        elif m_ == 1:
            hide += "(declare-const %s (-> %s %s))\n" % (c, u, s.pick(SORTS))
        elif m_ == 2:
            hide += "(define %s () k%s)\n" % (c, u)
        elif m_ == 3:
            hide += "(assume %s kBool)\n" % c
        elif m_ == 4:
            hide += "(define %s ((z %s)) z)\n" % (c, u)
        elif m_ == 5:
            hide += "(push)(declare-const %s %s)(pop)\n" % (c, u)
        elif m_ == 6:
            hide += "(step %s kBool :rule hide)\n" % c
        else:
            local.append((c, u))
    used = {q[3] for q in qs}
    spare = [d for d in last if d not in used]
    for d in spare:
        if s.p(70):
            hide += s.pick(["(define %s () kU)\n", "(declare-const %s Bool)\n", "(define %s ((a_U U) (a_V V)) a_U)\n"]) % d
    if not hide and not local:
        raise Discard()
    return w, txt, hide, local, qs, s.n(3), ab.used


def call_text(ab, t, order):
    return ab(t, order)


def expand_value(w, m, ds, n, args):
    d = [x for x in ds if x[0] == n][0]
    body = inline(d[2], ds)
    m.fuel = 3000
    return m.ev(body, {q: v for (q, _, _), v in zip(d[3], args)}, frozenset())


def inline(t, ds):
    k = t[0]
    if k in 'LS':
        return t
    if k == 'P':
        d = [x for x in ds if x[0] == t[1]][0]
        return subst_surface(inline(d[2], ds), {q: inline(a, ds) for (q, _, _), a in zip(d[3], t[2])})
    return (k, t[1], tuple(inline(x, ds) for x in t[2]))


def subst_surface(t, b):
    k = t[0]
    if k == 'S':
        return b.get(t[1], t)
    if k == 'L':
        return t
    return (k, t[1], tuple(subst_surface(x, b) for x in t[2]))


def check_hide(case, env):
    w, txt, hide, local, qs, how, used = case
    q = Queries()
    for k, text, exp, _ in qs:
        x = "(t%d %s)" % (k, text)
        b = " ".join("(%s k%s)" % (c, u) for c, u in local)
        if local:
            # hidden by let variables
            x = "(eo::define (%s) %s)" % (b, x)
        q.true(x if exp else "(eo::not %s)" % x)
    head = w.text + txt
    if local:
        head += "".join("(define L%d (%s) (t%d %s))\n" % (i, " ".join("(%s %s)" % (c, u) for c, u in local), k, text)
                        for i, (k, text, _, _) in enumerate(qs))
        for i, (k, text, exp, _) in enumerate(qs):
            x = "(L%d %s)" % (i, " ".join("k" + u for _, u in local))
            q.true(x if exp else "(eo::not %s)" % x)
    env.notes["hidden"] = env.notes.get("hidden", 0) + len(qs)
    return [(w.text + txt + hide + k, n) for k, n in
            q.run(env, head + "(declare-rule hide () :conclusion kBool)\n" + hide)]


PARTS = [Part("hidden", gen_hide, check_hide, 3000, 60000),
         Part("queries", gen, check, 4000, 80000),
         Part("rules", gen_rules, check_rules, 3000, 60000),
         Part("corpus", gen_corpus, check_corpus, 3000, 40000)]
