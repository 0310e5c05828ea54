"""C19: identity of terms survives any history of creation and deletion."""
import copy
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *
from .c01 import mutate_value
from .c07 import gen_progs, progtext, instantiate, value, read_programs, ground_calls

ID = "C19"
VARIANTS = ["asan", "release"]
RULE = ("an evaluation is one question, asked at some point of a history of declarations, evaluations and scopes, whose answer is "
        "predicted by a model without history; non-trivial if a scope was left or an evaluation failed before it; distinct by "
        "history up to the question")
TECHNIQUE = ("stateful model-based property-based testing: random histories of scopes, declarations, definitions, evaluations and "
             "failed evaluations, with the identity, hash and value of terms compared to a model, under AddressSanitizer (use of "
             "deleted terms) and in the release build")
NOTE = "Random search over histories of up to about 300 commands and 5 nested scopes."
ASSUMPTIONS = ["malloc/free mismatches of the garbage collector (new and free) are not judged"]


class Hist:
    pass


def state(w, progs):
    return (dict(w.sig.ops), dict(w.sig.progs), dict(w.sig.params), dict(w.sig.lists), {k: list(v) for k, v in w.consts.items()},
            list(w.fns), list(w.ops), list(progs), len(w.decls))


def restore(w, progs, st):
    w.sig.ops, w.sig.progs, w.sig.params, w.sig.lists, w.consts = st[0], st[1], st[2], st[3], st[4]
    w.fns[:], w.ops[:], progs[:] = st[5], st[6], st[7]
    del w.decls[st[8]:]


def declare_some(s, w, progs, depth, ev, outs):
    """declarations in a scope"""
    n0 = len(w.decls)
    for _ in range(s.r(0, 4)):
        t = s.pick(SORTS)
        n = "L%d_%d" % (depth, s.n(5))
        if any(n in x for x in w.consts.values()) or any(n == f[0] for f in w.fns):
            continue
        if s.p(70):
            w.consts[t].append(n)
            w.declare("(declare-const %s %s)" % (n, t))
        else:
            a = tuple(s.pick(SORTS) for _ in range(s.r(1, 2)))
            w.fns.append((n, a, t))
            w.declare("(declare-const %s (-> %s %s))" % (n, " ".join(a), t))
    if s.p(50):
        add_op(s, w, "F%d" % depth, s.pick(list(NILATTRS) + ["right-assoc", "left-assoc", "arg-list"]))
    for d in w.decls[n0:]:
        ev.append((d, None))
    if s.p(50):
        ps_, out = gen_progs(s, w, s.r(1, 2), "s%dr" % depth)
        m = Model(w.sig, 3000)
        try:
            read_programs(m, out)
        except (Fuel, RecursionError):
            raise Discard()
        progs += ps_
        outs += out
        ev.append((progtext(out, s.p(30)).rstrip("\n"), None))
        if s.p(60):
            add_drops(s, w, progs, outs, ev, ps_, "s%d_" % depth)


def add_prog(w, progs, outs, ev, name, asorts, rs, rhs):
    """a program with one case whose patterns are parameters"""
    order = [("c%d" % i, t, False) for i, t in enumerate(asorts)]
    cases = [(tuple(('S', q) for q, _, _ in order), rhs)]
    o = (name, tuple(asorts), rs, order, set(), cases)
    w.sig.progs[name], w.sig.params[name], w.sig.lists[name] = cases, [q for q, _, _ in order], frozenset()
    outs.append(o)
    ev.append((progtext([o], False).rstrip("\n"), None))


def add_drops(s, w, progs, outs, ev, ps_, tag):
    """programs that use the result of a call and forget it, and that do so
    several times in one evaluation"""
    ns = []
    for n, asorts, rs in ps_:
        k = len(asorts)
        call = ('P', n, tuple(('S', "c%d" % i) for i in range(k)))
        c = E("is_eq", call, ('S', "c%d" % k))
        if s.p(50):
            c = E("ite", c, ('L', B(True)), ('L', B(False)))
        add_prog(w, progs, outs, ev, "n_" + n, list(asorts) + [rs], "Bool", c)
        ns.append(("n_" + n, list(asorts) + [rs], n, rs))
    for j in range(s.r(1, 3)):
        asorts, calls = [], []
        for _ in range(s.r(1, 3)):
            n, a, p, rs = s.pick(ns)
            calls.append((n, p, rs, len(asorts), len(a)))
            asorts += a
        n, p, rs, b, k = s.pick(calls)
        x = ('P', p, tuple(('S', "c%d" % i) for i in range(b, b + k - 1)))
        for _ in range(s.r(1, 6)):
            n1, _, _, b, k = s.pick(calls)
            c = ('P', n1, tuple(('S', "c%d" % i) for i in range(b, b + k)))
            if s.p(50):
                x = E("requires", E("is_bool", c), ('L', B(True)), x)
            else:
                x = E("ite", E("is_ok", c), x, x)
        add_prog(w, progs, outs, ev, "w%s%d" % (tag, j), asorts, rs, x)


def gen(s):
    w = gen_world(s)
    progs, outs = [], []
    base = w.text
    ps_, out = gen_progs(s, w, s.r(1, 4))
    m = Model(w.sig, 3000)
    try:
        read_programs(m, out)
    except (Fuel, RecursionError):
        raise Discard()
    progs += ps_
    outs += out
    ev = []
    if s.p(70):
        add_drops(s, w, progs, outs, ev, ps_, "b")
    bank = []
    stack = []
    hashed = []          # (name of a definition of a hash, value)
    left = [0]
    nq = [0]

    def ask(text, nt=None):
        ev.append(("(step q%d true :rule chk :args (%s))" % (nq[0], text), bool(left[0]) if nt is None else nt))
        nq[0] += 1

    def question(x, t):
        m = Model(w.sig, 3000)
        try:
            ground_calls(m, x, set())
            m.fuel, m.calls = 3000, 0
            v = m.eval(x)
        except (Fuel, RecursionError):
            return
        tx = ps(x)
        if v is not STUCK and v[0] == 'alt':
            # not settled by the documentation
            return
        if len(tx) > 1500 or v is not STUCK and len(pv(v)) > 1500:
            return
        if v is STUCK:
            ask("(eo::not (eo::is_ok %s))" % tx)
            left[0] += 1
            return
        k = s.n(8)
        if k < 4:
            ask("(eo::is_eq %s %s)" % (tx, pv(v)))
        elif k == 4:
            u = mutate_value(s, w, v)
            if u is not None and u is not STUCK and u != v and len(pv(u)) < 1500:
                ask("(eo::not (eo::is_eq %s %s))" % (tx, pv(u)))
                ask("(eo::not (eo::is_eq (eo::hash %s) (eo::hash %s)))" % (pv(u), tx))
        elif k == 5:
            ask("(eo::is_eq (eo::hash %s) (eo::hash %s))" % (tx, pv(v)))
        elif k == 6:
            # the number of a term is its own for good
            n = "hh%d" % len(ev)
            if not stack:
                ev.append(("(define %s () (eo::hash %s))" % (n, tx), None))
                hashed.append((n, v))
        elif k == 7:
            n = "dd%d" % len(ev)
            ev.append(("(define %s () %s)" % (n, tx), None))
            ask("(eo::is_eq %s %s)" % (n, pv(v)))
        for n, u in s.sub(hashed, 0, 2):
            if u == v:
                ask("(eo::is_eq %s (eo::hash %s))" % (n, pv(v)))
            else:
                ask("(eo::not (eo::is_eq %s (eo::hash %s)))" % (n, tx))

    for _ in range(s.r(20, 90)):
        m = s.n(20)
        if m < 2 and len(stack) < 5:
            assumption = bool(stack and stack[-1][1]) or s.p(30)
            stack.append((state(w, progs), assumption, len(outs)))
            if assumption:
                ev.append(("(assume-push a%d %s)" % (len(stack), s.pick(w.consts["Bool"])), None))
            else:
                ev.append(("(push)", None))
            declare_some(s, w, progs, len(stack), ev, outs)
        elif m < 4 and stack:
            st, assumption, k = stack.pop()
            restore(w, progs, st)
            del outs[k:]
            if assumption:
                ev.append(("(step-pop z%d true :rule scp)" % len(ev), None))
            else:
                ev.append(("(pop)", None))
            left[0] += 1
        elif m < 6:
            # again
            if bank:
                x, t = s.pick(bank)
                question(x, t)
        elif m < 12:
            n_, asorts, rs, order, lists, cases = s.pick(outs)
            pats, rhs = s.pick(cases)
            bind = {}
            mut = s.pick([0, 0, 10])
            xs = [instantiate(s, w, p, t, order, bind, s.r(0, 2), mut) for p, t in zip(pats, asorts)]
            md = Model(w.sig, 3000)
            try:
                vs = [value(md, x) for x in xs]
            except (Fuel, RecursionError):
                continue
            if STUCK in vs or any(v[0] == 'alt' for v in vs) or sum(len(pv(v)) for v in vs) > 1000:
                continue
            x = ('P', n_, tuple(('L', v) for v in vs))
            question(x, rs)
            if not stack and s.p(30):
                bank.append((x, rs))
        elif m < 18:
            t = s.pick(SORTS)
            x = gen_term(s, w, t, s.r(1, 4), None, s.p(60), progs, 0)
            question(x, t)
            if not stack and s.p(30):
                bank.append((x, t))
        else:
            # churn
            t = s.pick(SORTS)
            for _ in range(s.r(1, 4)):
                x = gen_term(s, w, t, s.r(1, 3))
                tx = ps(x)
                if len(tx) < 1000:
                    ev.append(("(define junk%d () %s)" % (len(ev), tx), None))
    while stack:
        st, assumption, k = stack.pop()
        ev.append(("(step-pop z%d true :rule scp)" % len(ev) if assumption else "(pop)", None))
    if nq[0] < 2:
        raise Discard()
    return base + progtext(out, s.p(30)), ev, s.pick(["asan", "asan", "release"])


SCP = "(declare-rule scp ((A Bool)) :assumption A :conclusion true)\n"


def check(case, env):
    sig, ev, variant = case
    head = sig + CHK + SCP
    text = head + "".join(e + "\n" for e, _ in ev)
    # steps are used in signatures as well
    r = env.run({"p.eo": text}, "p.eo", (), variant)
    if r.verdict != "correct":
        m = re.search(r"p\.eo:(\d+)\.", r.errmsg())
        line = text.split("\n")[int(m.group(1)) - 1] if m else ""
        raise Violation("expected correct, at: %s\n%s" % (line, r.show()), {"p.eo": text}, "ethos p.eo (%s build)" % variant)
    env.notes[variant] = env.notes.get(variant, 0) + 1
    keys = []
    import hashlib
    h = hashlib.blake2b(sig.encode(), digest_size=8)
    for e, nt in ev:
        h.update(e.encode("utf-8", "surrogateescape"))
        if nt is not None:
            keys.append((h.hexdigest() + " " + e[:300], nt))
    return keys


# ----- evaluations before and after the programs they depend on are defined

LATE = """(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const c U)
(declare-const k (-> U U))
(declare-const h (-> U U U))
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule scp ((A Bool)) :assumption A :conclusion true)
"""


def late_body(s, i, n, depth):
    """a term over the parameter x; program i calls those after it"""
    m = s.n(12)
    if depth <= 0 or m < 2:
        return s.pick(["x", "x", "a", "b", "c"])
    r = lambda: late_body(s, i, n, depth - 1)
    if m < 4:
        return ("k", r())
    if m < 6:
        return ("h", r(), r())
    if m < 10 and i + 1 < n:
        y = r()
        return ("p%d" % s.r(i + 1, n - 1), y if late_var(y) else "x")
    if m == 10:
        y = r()
        return ("ok", y if late_var(y) else "x", r(), r())
    return ("eq", "x", s.pick(["a", "b", ("k", "a")]), r(), r())


def late_var(t):
    return t == "x" if isinstance(t, str) else any(late_var(y) for y in t[1:])


def late_text(t):
    if isinstance(t, str):
        return t
    if t[0] == "ok":
        return "(eo::ite (eo::is_ok %s) %s %s)" % tuple(late_text(y) for y in t[1:])
    if t[0] == "eq":
        return "(eo::ite (eo::is_eq %s %s) %s %s)" % tuple(late_text(y) for y in t[1:])
    return "(%s %s)" % (t[0], " ".join(late_text(y) for y in t[1:]))


def late_eval(t, x, defs, fuel):
    fuel[0] -= 1
    if fuel[0] < 0:
        raise Discard()
    if isinstance(t, str):
        return x if t == "x" else t
    if t[0] in ("ok", "eq"):
        v = late_eval(t[1], x, defs, fuel)
        c = v is not None if t[0] == "ok" else v is not None and v == late_eval(t[2], x, defs, fuel)
        return late_eval(t[-2] if c else t[-1], x, defs, fuel)
    vs = [late_eval(y, x, defs, fuel) for y in t[1:]]
    if None in vs:
        return None
    if t[0] in defs:
        for pat, body in defs[t[0]]:
            if pat == "x" or pat == vs[0] or pat == ("k", "x") and not isinstance(vs[0], str) and vs[0][0] == "k":
                return late_eval(body, vs[0][1] if pat == ("k", "x") else vs[0], defs, fuel)
        return None
    if t[0][0] == "p":
        return None
    return (t[0],) + tuple(vs)


def gen_late(s):
    n = s.r(2, 6)
    defs = {}
    for i in range(n):
        cases = []
        for pat in s.sub([("k", "x"), "a", "b"], 0, 2) + (["x"] if s.p(80) else []):
            b = late_body(s, i, n, s.r(1, 4))
            # a pattern without parameters: the result has none
            cases.append((pat, b if pat not in ("a", "b") else s.pick(["a", "b", "c"])))
        defs["p%d" % i] = cases or [("x", "x")]
    todo = s.perm(["p%d" % i for i in range(n)])
    ev = []
    for p in todo:
        for _ in range(s.r(0, 4)):
            t = s.pick(["a", "b", "c"])
            for _ in range(s.r(0, 3)):
                t = ("k", t) if s.p(60) else ("h", t, t)
            ev.append(("ask", ("p%d" % s.n(n), t)))
        ev.append(("def", p))
        if s.p(30):
            ev.append(("scope", s.p(50)))
    old = [e for e in ev if e[0] == "ask"]
    # the same questions again
    for e in s.perm(old)[:10]:
        ev.append(e)
    return n, defs, ev


def check_late(case, env):
    n, defs, ev = case
    cur = {}
    txt = [LATE]
    keys = []
    for i in range(n):
        txt.append("(program p%d ((x U)) :signature (U) U)\n" % i)
    asked = {}
    open_ = []
    j = 0
    for e in ev:
        if e[0] == "def":
            cur[e[1]] = defs[e[1]]
            txt.append("(program %s ((x U)) :signature (U) U (%s))\n" % (
                e[1], " ".join("((%s %s) %s)" % (e[1], late_text(p), late_text(b)) for p, b in defs[e[1]])))
        elif e[0] == "scope":
            # a term that is forgotten
            txt.append("(push)\n(define t () (h (k %s) c))\n(pop)\n" % ("a" if e[1] else "b"))
        else:
            v = late_eval(e[1], None, cur, [2000])
            x = late_text(e[1])
            vt = None if v is None else late_text(v)
            if vt is not None and len(vt) > 2000:
                continue
            txt.append("(step @q%d true :rule chk :args (%s))\n" % (
                j, "(eo::not (eo::is_ok %s))" % x if v is None else "(eo::is_eq %s %s)" % (x, vt)))
            j += 1
            nt = x in asked and asked[x] != vt
            if nt:
                env.notes["answers that changed"] = env.notes.get("answers that changed", 0) + 1
            asked[x] = vt
            keys.append(("".join(txt[-20:]), nt))
    text = "".join(txt)
    if not keys:
        raise Discard()
    r = env.run({"p.eo": text}, "p.eo", (), "release")
    if r.verdict != "correct":
        m = re.search(r"p\.eo:(\d+)\.", r.errmsg())
        line = text.split("\n")[int(m.group(1)) - 1] if m else ""
        raise Violation("expected correct, at: %s\n%s" % (line, r.show()), {"p.eo": text}, "ethos p.eo")
    return keys


PARTS = [Part("late_definitions", gen_late, check_late, 1200, 30000),
         Part("histories", gen, check, 3000, 120000)]
