"""C07: program evaluation against a reference interpreter."""
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *

ID = "C07"
RULE = ("an evaluation is one query about the application of a generated program to ground arguments, whose value or "
        "stuckness was predicted by the reference interpreter; non-trivial if the evaluation needs at least two program "
        "calls or the first case did not match; distinct by program text and query")
TECHNIQUE = 'property-based testing: generated programs run by ethos and by a reference interpreter'
NOTE = 'Random search over sets of generated programs (repeated, nested, list parameters, mutual recursion) with calls predicted by a reference interpreter; evaluations beyond a fuel limit are discarded.'
ASSUMPTIONS = ["results are observed through eo::is_eq, eo::is_ok and :requires (C08, C01)",
               "evaluations of up to 3000 steps (longer ones in C20); non-terminating programs are not run",
               "generated programs are monomorphic except those called on unapplied programs (types are decided in C10); programs declared ahead have signatures without parameters"]


def gen_progs(s, w, n, prefix="r"):
    progs = []
    for i in range(n):
        k = s.w([(4, s.r(1, 3)), (1, s.r(4, 8))])
        asorts = tuple(s.pick(SORTS) if s.p(30) else s.pick([o[3] for o in w.ops] + ["U"]) for _ in range(k))
        progs.append(("%s%d" % (prefix, i), asorts, s.pick(SORTS)))
    out = []
    for i, (n_, asorts, rs) in enumerate(progs):
        params = {}
        lists = set()
        order = []
        for t in SORTS:
            for j in range(s.r(1, 2)):
                p = "%s_%d" % ({"U": "x", "V": "y", "Bool": "b", "Int": "i", "Str": "z"}[t], j)
                params.setdefault(t, []).append(p)
                order.append((p, t, False))
        for o in w.ops:
            if o[1] in NILATTRS and s.p(70):
                p = "l_" + o[0]
                params.setdefault("list " + o[0], []).append(p)
                order.append((p, o[3], True))
                lists.add(p)
        cases = []
        nc = s.r(1, 5)
        allp = progs if s.p(70) else progs[:i + 1]
        for c in range(nc):
            pats = tuple(gen_pat(s, w, t, params, s.r(0, 3), lists) for t in asorts)
            bound = set()
            for p in pats:
                vars_of(p, bound, {q for q, _, _ in order})
            bp = {}
            for q, t, l in order:
                if q in bound:
                    if l:
                        bp.setdefault("list " + q[2:], []).append(q)
                        bp.setdefault("lists " + t, []).append(q)
                    else:
                        bp.setdefault(t, []).append(q)
            rhs = gen_term(s, w, rs, s.r(0, 3), bp, True, allp, 0)
            cases.append((pats, rhs))
        out.append((n_, asorts, rs, order, lists, cases))
        w.sig.progs[n_] = cases
        w.sig.params[n_] = [q for q, _, _ in order]
        w.sig.lists[n_] = frozenset(lists)
    return progs, out


def vars_of(t, acc, names):
    if t[0] == 'S':
        if t[1] in names:
            acc.add(t[1])
    elif t[0] != 'L':
        if t[0] in 'A_':
            vars_of(t[1], acc, names)
        for x in t[2]:
            vars_of(x, acc, names)


def gen_pat(s, w, t, params, depth, lists):
    if depth <= 0 or s.p(25):
        m = s.n(10)
        if m < 6:
            return ('S', s.pick(params[t]))
        if m < 8 and t in ("Int", "Str", "Bool"):
            return gen_lit(s, t)
        if m == 8:
            nils = [w.sig.ops[o[0]].term for o in w.ops if o[1] in NILATTRS and o[3] == t]
            if nils:
                return ('L', s.pick(nils))
        return ('S', s.pick(w.consts[t]))
    c = [("f", f) for f in w.fns if f[2] == t] + [("o", o) for o in w.ops if o[3] == t] * 2
    if not c:
        return ('S', s.pick(params[t]))
    k, x = s.pick(c)
    rec = lambda u: gen_pat(s, w, u, params, depth - 1, lists)
    if k == "f":
        return ('A', ('S', x[0]), tuple(rec(u) for u in x[1]))
    n, attr, et, lt = x
    if attr in NILATTRS:
        a = [rec(et) for _ in range(s.r(2 if "-ns-" in attr else 1, 3))]
        lp = params.get("list " + n)
        if lp and s.p(60):
            v = ('S', s.pick(lp))
            a = [v] + a if attr.startswith("left") else a + [v]
        return ('A', ('S', n), tuple(a))
    return gen_op(s, w, x, rec)


def instantiate(s, w, t, sort, order, bind, depth, mut):
    """a ground surface term that (most often) matches pattern t"""
    if mut and s.p(mut):
        return gen_term(s, w, sort, depth)
    if t[0] == 'S':
        for q, st, l in order:
            if q == t[1]:
                if q not in bind:
                    bind[q] = glist(s, w, q[2:], depth) if l and s.p(85) else gen_term(s, w, st, depth)
                return bind[q]
        return t
    if t[0] == 'L':
        return t
    sorts = arg_sorts(w, t)
    args = [instantiate(s, w, x, u, order, bind, depth, mut) for x, u in zip(t[2], sorts)]
    o = w.sig.ops.get(t[1][1])
    if o is not None and o.isnil:
        # list parameters splice
        lp = [x[0] == 'S' and x[1].startswith("l_") for x in t[2]]
        if any(lp):
            return ('spl', o, args, lp)
    return ('A', t[1], tuple(args))


def arg_sorts(w, t):
    n = t[1][1]
    for f, a, r in w.fns:
        if f == n:
            return a
    for f, attr, et, lt in w.ops:
        if f == n:
            a = [et] * len(t[2])
            if attr in ("right-assoc", "left-assoc"):
                a[0 if attr == "left-assoc" else -1] = lt
            return a
    raise ValueError(t)


def glist(s, w, op, depth):
    o = [x for x in w.ops + list(w.argcons.values()) if x[0] == op][0]
    return ('lst', w.sig.ops[op], [gen_term(s, w, o[2], max(0, depth - 1)) for _ in range(s.r(0, 4))])


def value(m, t):
    """evaluate an instantiated pattern to a value"""
    k = t[0]
    if k == 'lst':
        es = [value(m, x) for x in t[2]]
        return STUCK if STUCK in es else build(t[1], t[1].term, es)
    if k == 'spl':
        vs = [value(m, x) for x in t[2]]
        if STUCK in vs:
            return STUCK
        return m.apply(t[1].name, vs, t[3])
    if k == 'A' and any(x[0] in ('lst', 'spl', 'A') for x in t[2]):
        vs = [value(m, x) for x in t[2]]
        if STUCK in vs:
            return STUCK
        return m.apply(t[1][1], vs, [False] * len(vs))
    return m.eval(t)


def gen(s):
    w = gen_world(s)
    progs, out = gen_progs(s, w, s.r(1, 4))
    qs = []
    for _ in range(s.r(10, 30)):
        n_, asorts, rs, order, lists, cases = s.pick(out)
        pats, rhs = s.pick(cases)
        bind = {}
        mut = s.pick([0, 0, 0, 10, 25])
        qs.append((n_, [instantiate(s, w, p, t, order, bind, s.r(0, 2), mut) for p, t in zip(pats, asorts)]))
    # nested calls and stuck arguments
    extra = []
    for _ in range(s.r(0, 8)):
        p = s.pick(progs)
        extra.append(('P', p[0], tuple(gen_term(s, w, u, s.r(0, 2), None, s.p(60), progs, 0) for u in p[1])))
    return w, out, qs, extra, s.p(40), [s.n(3) for _ in range(len(qs))]


def progtext(out, forward, pr=None):
    txt = []
    heads = {}
    for n_, asorts, rs, order, lists, cases in out:
        h = "(program %s (%s) :signature (%s) %s" % (
            n_, " ".join("(%s %s%s)" % (q, t, " :list" if l else "") for q, t, l in order), " ".join(asorts), rs)
        heads[n_] = h
    # a program must be declared before it is used by another
    used_early = set()
    seen = set()
    for n_, _, _, _, _, cases in out:
        seen.add(n_)
        for _, rhs in cases:
            for c in calls(rhs):
                if c not in seen:
                    used_early.add(c)
    for n_, *_ in out:
        if n_ in used_early or forward:
            txt.append(heads[n_].replace(" (", " (", 1) + ")\n")
    for n_, asorts, rs, order, lists, cases in out:
        if pr:
            cs = [([pr(p, order) for p in pats], pr(rhs, order)) for pats, rhs in cases]
            txt.append(pr.take())
        else:
            cs = [([ps(p) for p in pats], ps(rhs)) for pats, rhs in cases]
        txt.append(heads[n_] + " (\n" + "".join("  ((%s %s) %s)\n" % (n_, " ".join(p), r) for p, r in cs) + "))\n")
    return "".join(txt)


def calls(t):
    if t[0] in 'LS':
        return
    if t[0] == 'P':
        yield t[1]
    if t[0] in 'A_':
        yield from calls(t[1])
    for x in t[2]:
        yield from calls(x)


def check(case, env):
    w, out, qs, extra, forward, modes = case
    m = Model(w.sig, 3000)
    q = Queries()
    # ground applications in right hand sides are evaluated when they are read
    read_programs(m, out)
    pt = {o[0]: progtext([o], False) for o in out}
    for (n_, ts), mode in zip(qs, modes):
        try:
            vs = [value(m, t) for t in ts]
            if STUCK in vs:
                continue
            first = m_first(m, n_, vs)
            m.fuel, m.calls = 3000, 0
            v = m.call(n_, vs)
        except (Fuel, RecursionError):
            env.notes["given up by the model"] = env.notes.get("given up by the model", 0) + 1
            continue
        txt = "(%s %s)" % (n_, " ".join(pv(x) for x in vs))
        if len(txt) > 3000 or (v is not STUCK and len(pv(v)) > 3000):
            continue
        nt = m.calls >= 2 or first != 0
        b = len(q.items)
        q.value(txt, v, nt)
        if v is not STUCK and mode == 0:
            q.true("(eo::is_eq %s %s)" % (txt, txt), None, nt)
        q.items[b:] = [(a, pt[n_] + a, nt) for a, _, _ in q.items[b:]]
        k = "stuck" if v is STUCK else "case %s matched" % ("1" if first == 0 else "2+")
        env.notes[k] = env.notes.get(k, 0) + 1
        c = "calls: " + ("1" if m.calls == 1 else "2-4" if m.calls < 5 else "5-20" if m.calls < 21 else ">20")
        env.notes[c] = env.notes.get(c, 0) + 1
    for t in extra:
        try:
            m.fuel = 3000
            ground_calls(m, t, set())
            m.fuel, m.calls = 3000, 0
            v = m.eval(t)
        except (Fuel, RecursionError):
            continue
        if v is not STUCK and len(pv(v)) > 3000:
            continue
        q.value(ps(t), v, m.calls > 0)
    if not q.items:
        raise Discard()
    return q.run(env, w.text + progtext(out, forward))


def read_programs(m, out):
    """discards programs that may not terminate when they are read"""
    try:
        for i, (n_, _, _, order, _, cases) in enumerate(out):
            names = {x for x, _, _ in order}
            for pend in ((), {o[0] for o in out[i:]}):
                m.pending = pend
                for _, rhs in cases:
                    ground_calls(m, rhs, names)
    except (Fuel, RecursionError):
        raise Discard()
    finally:
        m.pending = ()


def ground_calls(m, t, names):
    if t[0] in 'LS':
        return
    if t[0] in 'PE':
        acc = set()
        vars_of(t, acc, names)
        if not acc and not (t[0] == 'P' and t[1] in m.pending):
            m.eval(t)
        # branches that are not taken are evaluated as well when read
    for x in t[2]:
        ground_calls(m, x, names)


def m_first(m, n_, vs):
    lists = m.sig.lists[n_]
    for i, (pats, rhs) in enumerate(m.sig.progs[n_]):
        b = {}
        if all(m.match(p, v, b, m.sig.params[n_], lists) for p, v in zip(pats, vs)):
            return i
    return -1



# programs that recurse over the structure of their first argument

def gen_rec(s):
    w = gen_world(s)
    lops = [o for o in w.ops if o[1] in NILATTRS]
    n = s.r(1, 3)
    progs = []
    for i in range(n):
        t = s.pick(lops)[3] if s.p(75) else "U"
        progs.append(("r%d" % i, (t,) + tuple(s.pick(SORTS) for _ in range(s.w([(4, s.r(0, 2)), (1, s.r(3, 6))]))), s.pick(SORTS)))
    out = []
    for i, (n_, asorts, rs) in enumerate(progs):
        order = []
        params = {}
        for t in SORTS:
            for j in range(2):
                p = "%s_%d" % ({"U": "x", "V": "y", "Bool": "b", "Int": "i", "Str": "z"}[t], j)
                params.setdefault(t, []).append(p)
                order.append((p, t, False))
        lists = set()
        for o in lops:
            order.append(("l_" + o[0], o[3], True))
            lists.add("l_" + o[0])
        others = ["a%d" % j for j in range(len(asorts) - 1)]
        for p, t in zip(others, asorts[1:]):
            order.append((p, t, False))
        oth = tuple(('S', p) for p in others)
        cases = []
        for c in range(s.r(1, 4)):
            bp = {}
            for p, t in zip(others, asorts[1:]):
                bp.setdefault(t, []).append(p)
            sub = []         # (term of sort t, t) smaller than the argument
            lo = [o for o in lops if o[3] == asorts[0]]
            fs = [f for f in w.fns if f[2] == asorts[0]]
            if lo and (s.p(80) or not fs):
                o = s.pick(lo)
                k = s.r(2 if "-ns-" in o[1] else 1, 2)
                es = []
                for _ in range(k):
                    if s.p(25):
                        es.append(gen_pat(s, w, o[2], params, 1, lists))
                    else:
                        es.append(('S', s.pick(params[o[2]])))
                l = ('S', "l_" + o[0])
                pat = ('A', ('S', o[0]), tuple([l] + es if o[1].startswith("left") else es + [l]))
                sub.append((l, o[3]))
                bp["list " + o[0]] = ["l_" + o[0]]
                bp["lists " + o[3]] = ["l_" + o[0]]
            elif fs:
                f = s.pick(fs)
                pat = ('A', ('S', f[0]), tuple(('S', s.pick(params[t])) for t in f[1]))
            else:
                pat = ('S', s.pick(params[asorts[0]]))
            names = {q for q, _, _ in order}
            bound = set()
            vars_of(pat, bound, names)
            for q, t, l in order:
                if q in bound and not l:
                    bp.setdefault(t, []).append(q)
                    if pat[0] != 'S':
                        sub.append((('S', q), t))
            # recursive calls stand where parameters do
            for x, t in sub:
                for p in progs:
                    if p[1][0] == t:
                        rest = []
                        for u in p[1][1:]:
                            cand = [q for q in bp.get(u, []) if isinstance(q, str)]
                            rest.append(('S', s.pick(cand)) if cand and s.p(80) else gen_term(s, w, u, 0))
                        bp.setdefault(p[2], []).extend([('P', p[0], (x,) + tuple(rest))] * 3)
            rhs = gen_term(s, w, rs, s.r(1, 3), bp, True, (), 0)
            pats = [pat] + [('S', p) for p in others]
            if others and s.p(15):
                j = s.r(1, len(others))
                pats[j] = gen_pat(s, w, asorts[j], params, 1, lists)
                acc = set()
                vars_of(rhs, acc, {others[j - 1]})
                if acc:
                    pats[j] = ('S', others[j - 1])
            cases.append((tuple(pats), rhs))
        # base case
        bp = {}
        for p, t in zip(others, asorts[1:]):
            bp.setdefault(t, []).append(p)
        p0 = s.pick(params[asorts[0]])
        bp.setdefault(asorts[0], []).append(p0)
        cases.append((tuple([('S', p0)] + [('S', p) for p in others]), gen_term(s, w, rs, s.r(0, 1), bp, s.p(30), (), 0)))
        out.append((n_, asorts, rs, order, lists, cases))
        w.sig.progs[n_] = cases
        w.sig.params[n_] = [q for q, _, _ in order]
        w.sig.lists[n_] = frozenset(lists)
    qs = []
    for _ in range(s.r(8, 20)):
        n_, asorts, rs, order, lists, cases = s.pick(out)
        lo = [o for o in lops if o[3] == asorts[0]]
        if lo and s.p(85):
            o = s.pick(lo)
            a0 = ('lst', w.sig.ops[o[0]], [gen_term(s, w, o[2], s.w([(3, 0), (1, 1), (1, 2)])) for _ in range(s.r(0, 9))])
        else:
            a0 = gen_term(s, w, asorts[0], s.r(2, 5))
        qs.append((n_, [a0] + [gen_term(s, w, t, s.r(0, 1)) for t in asorts[1:]]))
    return w, out, qs, [], s.p(30), [s.n(3) for _ in qs]


# ----- declarations ahead of definitions, as a history

FSIGS = [(("U",), "U"), (("U",), "V"), (("V",), "U"), (("U", "U"), "U"), (("U", "V"), "U"), (("V", "U"), "U"), (("Bool",), "U"),
         (("U",), "Bool"), (("(-> U V)",), "U"), (("(-> U U)",), "U"), (("U",), "(-> U V)"), (("U",), "(-> V V)"), (("Type",), "U")]
FVALS = {"U": ["a", "b", "(g v)"], "V": ["v", "w", "(f a)"], "Bool": ["true", "false"], "(-> U V)": ["f"], "(-> U U)": ["k"],
         "(-> V V)": ["j"], "Type": ["U", "V", "Bool"]}
FHEAD = """(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const b U)
(declare-const v V)
(declare-const w V)
(declare-const f (-> U V))
(declare-const g (-> V U))
(declare-const k (-> U U))
(declare-const j (-> V V))
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
"""


def gen_fwd(s):
    """a history of program declarations and definitions, uses in between; at most one command is wrong"""
    names = ["p%d" % i for i in range(s.r(1, 3))]
    st = {}         # name -> [signature, defined value or None]
    cmds = []
    bad = None
    if s.p(25):
        cmds.append(("const", "q0", s.pick(FSIGS)))
        st["q0"] = None
        names.append("q0")
    for i in range(s.r(4, 14)):
        n = s.pick(names)
        m = s.n(10)
        if m < 5:
            new = n not in st
            sig = s.pick(FSIGS) if new or s.p(15) else (st[n] or [s.pick(FSIGS)])[0]
            define = s.p(50)
            if new:
                ok = True
            else:
                ok = st[n] is not None and st[n][1] is None and st[n][0] == sig
            val = s.n(3)
            # a case may call another program that is not defined yet
            call = s.pick(names) if s.p(50) else None
            wrap = (s.n(8), s.n(3), s.n(3)) if s.p(50) else None
            if call is not None and not (call in st and st[call] and call != n and (wrap or st[call][0][1] == sig[1]) and not
                                         (len(st[call]) > 2 and st[call][2])):
                call = None
            args = [s.n(3) for _ in range(3)]
            cmds.append(("prog", n, sig, val if define else None, call, args, s.p(50), wrap))
            if not ok:
                bad = len(cmds) - 1
                break
            if define:
                st[n] = [sig, ("call", call, args) if call else ("val", val), bool(call)]
            elif new:
                st[n] = [sig, None]
        elif n in st and st[n]:
            sig = st[n][0]
            args = [s.n(3) for _ in sig[0]]
            cmds.append(("use", n, args, s.n(4)))
    if bad is None:
        for n in names:
            if st.get(n):
                cmds.append(("use", n, [s.n(3) for _ in st[n][0][0]], s.n(4)))
    return cmds, bad


def fargs(sig, args):
    return " ".join(FVALS[t][x % len(FVALS[t])] for t, x in zip(sig[0], args))


WRAPS = ["(eo::is_ok %(c)s)", "(eo::is_eq %(c)s %(v)s)", "(eo::is_eq %(v)s %(c)s)", "(eo::not (eo::is_ok %(c)s))", "(eo::is_z %(c)s)",
         "(eo::is_bool %(c)s)", "(eo::and true (eo::is_ok %(c)s))", "(eo::is_ok (eo::eq %(v)s %(c)s))"]


def fvalue(st, n, seen):
    """what the calls of n evaluate to, or None"""
    b = st[n][1]
    if seen > 8:
        raise Discard()
    if b is None or b[0] == "val":
        return b and b[1]
    c = fvalue(st, b[1], seen + 1)
    if b[0] == "call":
        return c
    _, _, k, v, x, y = b
    ok = [c is not None, c == v, c == v, c is None, c is not None and c.isdigit(), c in ("true", "false"), c is not None,
          c is not None][k]
    return x if ok else y


def check_fwd(case, env):
    cmds, bad = case
    st = {}
    txt = []
    nt = False
    for k, c in enumerate(cmds):
        if c[0] == "const":
            txt.append("(declare-const %s (-> %s %s))\n" % (c[1], " ".join(c[2][0]), c[2][1]))
        elif c[0] == "prog":
            _, n, sig, val, call, args, other, wrap = c
            ps = ["%s%d" % ("z" if other else "x", i) for i in range(len(sig[0]))]
            head = "(program %s (%s) :signature (%s) %s" % (n, " ".join("(%s %s)" % y for y in zip(ps, sig[0])),
                                                            " ".join(sig[0]), sig[1])
            if n in st:
                nt = True
            if val is None:
                txt.append(head + ")\n")
                st.setdefault(n, [sig, None])
            else:
                rhs = FVALS[sig[1]][val % len(FVALS[sig[1]])]
                body = ("val", rhs)
                if call:
                    rhs = "(%s %s)" % (call, fargs(st[call][0], args))
                    body = ("call", call)
                    if wrap:
                        fv = FVALS[st[call][0][1]]
                        k_, v_ = wrap[0], fv[wrap[1] % len(fv)]
                        a_, b_ = FVALS[sig[1]][val % len(FVALS[sig[1]])], FVALS[sig[1]][wrap[2] % len(FVALS[sig[1]])]
                        body = ("wrap", call, k_, v_, a_, b_)
                        rhs = "(eo::ite %s %s %s)" % (WRAPS[k_] % {"c": rhs, "v": v_}, a_, b_)
                txt.append(head + " (((%s %s) %s)))\n" % (n, " ".join(ps), rhs))
                st[n] = [sig, body]
        else:
            _, n, args, mode = c
            sig = st[n][0]
            t = "(%s %s)" % (n, fargs(sig, args))
            d = fvalue(st, n, 0)
            env.notes["defined" if d else "not yet defined"] = env.notes.get("defined" if d else "not yet defined", 0) + 1
            if mode == 0:
                txt.append("(define d%d () %s)\n" % (k, t))
                t = "d%d" % k if d else t
            q = "(eo::is_ok %s)" % t
            if d:
                q = "(eo::and %s (eo::is_eq %s %s))" % (q, t, d)
            else:
                q = "(eo::not (eo::or %s (eo::is_eq %s %s)))" % (q, t, t)
            txt.append("(step @s%d :rule chk :args (%s))\n" % (k, q))
    text = FHEAD + "".join(txt)
    r = env.run({"p.eo": text}, "p.eo")
    want = "reject" if bad is not None else "correct"
    env.notes[want] = env.notes.get(want, 0) + 1
    if r.verdict != want:
        raise Violation("%s: %s" % ("the last command declares a program again and does not agree with what is declared" if
                                    bad is not None else "every command is acceptable", r.show()), {"p.eo": text}, "ethos p.eo")
    if bad is not None:
        line = text.count("\n")
        if (":%d." % line).encode() not in r.err:
            raise Violation("the error is on line %d, but: %s" % (line, r.show()), {"p.eo": text}, "ethos p.eo")
    return [(text, nt)]


# ----- unapplied programs and stuck calls as arguments

PVALS = ["a", "b", "v", "(g v)", "(f a)", "true", "f", "k", "U", "V", "Bool", "(-> U V)", "3", '"s"', "#b01", "Type", "(k (k b))", "1/2"]


def gen_hi(s):
    """programs of any argument type, called on values, unapplied programs and stuck calls"""
    progs = []
    for i in range(s.r(1, 4)):
        n = s.r(1, 3)
        cases = []
        # the result has the type of an argument, or a fixed one
        if s.p(50):
            j = s.n(n)
            ret, rhs = "T%d" % j, [("arg", j)]
        else:
            ret = s.pick(["U", "Bool", "Type"])
            rhs = [("val", x) for x in FVALS[ret]]
        for _ in range(s.r(1, 3)):
            cases.append(([s.pick(PVALS) if s.p(30) else None for _ in range(n)], s.pick(rhs)))
        if s.p(80):
            cases.append(([None] * n, s.pick(rhs)))
        progs.append((n, cases, ret))

    def arg(d):
        m = s.n(10)
        if m < 2:
            return ("prog", s.n(len(progs)))
        if m < 5 and d > 0:
            return call(d - 1)
        return ("val", s.pick(PVALS))

    def call(d):
        i = s.n(len(progs))
        return ("call", i, [arg(d) for _ in range(progs[i][0])])
    return progs, [(call(s.r(0, 3)), s.n(3)) for _ in range(s.r(4, 14))]


def hi_val(progs, t):
    if t[0] == "val":
        return t[1]
    if t[0] == "prog":
        return None
    vs = [hi_val(progs, x) for x in t[2]]
    if None in vs:
        return None
    for pats, (k, x) in progs[t[1]][1]:
        if all(p is None or p == v for p, v in zip(pats, vs)):
            return vs[x] if k == "arg" else x
    return None


def hi_text(t):
    return t[1] if t[0] == "val" else "hp%d" % t[1] if t[0] == "prog" else "(hp%d %s)" % (t[1], " ".join(hi_text(x) for x in t[2]))


def hi_stuck(t):
    return t[0] == "prog" or t[0] == "call" and any(hi_stuck(x) for x in t[2])


def check_hi(case, env):
    progs, qs = case
    txt = ["".join("(declare-const %s Type)\n" % x for x in ("Int", "Str", "Bin", "Real")) +
           "(declare-consts <numeral> Int)\n(declare-consts <string> Str)\n(declare-consts <binary> Bin)\n"
           "(declare-consts <rational> Real)\n"]
    for i, (n, cases, ret) in enumerate(progs):
        cs = []
        for pats, (k, x) in cases:
            # a parameter of the right hand side is one of the pattern
            pats = ["x%d" % j if p is None or (k == "arg" and j == x) else p for j, p in enumerate(pats)]
            cs.append("((hp%d %s) %s)" % (i, " ".join(pats), "x%d" % x if k == "arg" else x))
        txt.append("(program hp%d (%s)\n :signature (%s) %s\n (%s))\n" % (
            i, " ".join("(T%d Type) (x%d T%d)" % (j, j, j) for j in range(n)),
            " ".join("T%d" % j for j in range(n)), ret, " ".join(cs)))
    progs = [(n, [([None if k == "arg" and j == x else p for j, p in enumerate(pats)], (k, x)) for pats, (k, x) in cases], ret)
             for n, cases, ret in progs]
    q = Queries()
    for t, mode in qs:
        v = hi_val(progs, t)
        x = hi_text(t)
        k = "stuck on an unapplied program" if hi_stuck(t) else "stuck" if v is None else "value"
        env.notes[k] = env.notes.get(k, 0) + 1
        nt = t[0] == "call" and any(y[0] != "val" for y in t[2])
        b = len(q.items)
        if v is None:
            q.true("(eo::not (eo::is_ok %s))" % x, None, nt)
            if mode == 1:
                q.true("(eo::not (eo::is_eq %s %s))" % (x, x), None, nt)
            if mode == 2:
                q.true("(eo::not (eo::is_ok (eo::typeof %s)))" % x, None, nt)
        else:
            q.true("(eo::is_eq %s %s)" % (x, v), None, nt)
        q.items[b:] = [(a, repr(progs) + a, z) for a, _, z in q.items[b:]]
    return q.run(env, FHEAD.replace("(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)\n", "") + "".join(txt))


PARTS = [Part("unapplied_arguments", gen_hi, check_hi, 1500, 40000),
         Part("forward", gen_fwd, check_fwd, 2500, 60000),
         Part("random_programs", gen, check, 4000, 80000),
         Part("recursive_programs", gen_rec, check, 3000, 60000)]
