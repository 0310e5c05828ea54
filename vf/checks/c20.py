"""C20: cost follows the shared size of terms, and depth does not overflow."""
from ..engine import Part, Discard, Violation

ID = "C20"
VARIANTS = ["release"]
RULE = ("an evaluation is one question about a term whose unfolded size is exponential (over 2^50 nodes), or whose depth or length is at "
        "least 2000, or about a recursion with exponentially many calls (over 2^40), answered correctly within the time limit; all "
        "are non-trivial; distinct by file and question")
TECHNIQUE = ("property-based testing with resource limits: random shared graphs, deep and long terms and overlapping recursions, "
             "built in several ways, whose properties are predicted on the shared graph; ethos has to give the answer within "
             "20 seconds (it normally takes a few hundredths) and 5 GB")
NOTE = "Random search; polynomial cost is observed as a generous time limit at sizes where exponential cost cannot finish."
ASSUMPTIONS = ["20 seconds are at least a hundred times the normal cost on this machine",
               "the stack has its usual limit of 8 MB"]

SIG = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const g (-> U U))
(declare-const h (-> U U U))
(declare-const f (-> U U U) :right-assoc-nil a)
(declare-const k (-> U U U) :left-assoc-nil b)
(declare-const P (-> U Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const Q (-> Bool U))
(declare-const = (-> U U Bool) :chainable and)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule id ((b Bool)) :premises (b) :conclusion b)
(declare-rule scp ((A Bool) (B Bool)) :assumption A :premises (B) :conclusion B)
(declare-rule both ((A Bool) (B Bool)) :premises (A B) :conclusion (and A B))
"""
LIMIT = 20


def fold_program(n, c, M):
    def lin(*ts):
        return "(eo::zmod (eo::add %s) %d)" % (" ".join(ts), M)
    return """(program %s ((x U) (y U) (l U :list)) :signature (U) Int (
  ((%s a) %d)
  ((%s b) %d)
  ((%s (g x)) %s)
  ((%s (h x y)) %s)
  ((%s (_ (_ f x) l)) %s)
  ((%s (_ (_ k l) x)) %s)))
""" % (n, n, c[0], n, c[1], n, lin("(eo::mul %d (%s x))" % (c[2], n), str(c[3])),
       n, lin("(eo::mul %d (%s x))" % (c[4], n), "(eo::mul %d (%s y))" % (c[5], n), str(c[6])),
       n, lin("(eo::mul %d (%s x))" % (c[7], n), "(%s l)" % n),
       n, lin("(eo::mul %d (%s x))" % (c[8], n), "(eo::mul 3 (%s l))" % n))


class G:
    """shared graph; terms are numbers"""
    def __init__(self):
        self.nodes, self.ids = [], {}

    def mk(self, op, *cs):
        key = (op,) + cs
        if key not in self.ids:
            self.ids[key] = len(self.nodes)
            self.nodes.append(key)
        return self.ids[key]

    def fold(self, c, M):
        v = []
        for n in self.nodes:
            o, cs = n[0], [v[i] for i in n[1:]]
            if o == "a":
                v.append(c[0])
            elif o == "b":
                v.append(c[1])
            elif o == "g":
                v.append((c[2] * cs[0] + c[3]) % M)
            elif o == "h":
                v.append((c[4] * cs[0] + c[5] * cs[1] + c[6]) % M)
            elif o == "f":
                v.append((c[7] * cs[0] + cs[1]) % M)
            elif o == "k":
                v.append((c[8] * cs[1] + 3 * cs[0]) % M)
            else:
                v.append(None)
        return v

    def unfolded(self):
        v = []
        for n in self.nodes:
            v.append(1 + sum(v[i] for i in n[1:]))
        return v

    def build(self, op, cs):
        """the curried term of a surface application"""
        if op == "f":
            r = self.mk("a")
            for c in reversed(cs):
                r = self.mk("f", c, r)
            return r
        if op == "k":
            r = self.mk("b")
            for c in cs:
                r = self.mk("k", r, c)
            return r
        return self.mk(op, *cs)


def text(recipe, name):
    return "(%s %s)" % (recipe[0], " ".join(name(i) for i in recipe[1])) if recipe[1] else recipe[0]


def gen_dag(s):
    n = s.r(60, 500)
    ops = s.sub(["h", "h", "h", "f", "k", "g"], 2)
    if not set(ops) & set("hfk"):
        ops.append("h")
    rec = [("a", ()), ("b", ())]
    lag = s.pick([1, 1, 2, 4])
    while len(rec) < n:
        o = s.pick(ops)
        i = len(rec)
        # mostly recent nodes, so that the unfolded size is exponential
        def child():
            return max(0, i - 1 - s.n(lag)) if s.p(93) else s.n(i)
        k = {"g": 1, "h": 2}.get(o) or s.w([(5, 2), (2, 3), (1, 5)])
        rec.append((o, tuple(child() for _ in range(k))))
        if o == "g" and s.p(50):
            ops = ops + ["h"]
    M = s.pick([7, 1000003, 2 ** 61 - 1])
    c = [s.r(0, 50) for _ in range(9)]
    qs = []
    for _ in range(s.r(3, 12)):
        qs.append((s.pick(["same", "same", "fold", "fold", "cp", "mirror", "sub", "pat", "type", "hash", "proof", "list", "macro", "error", "quant", "chain", "diff",
                            "prhs", "ppat", "mdef", "pvar"]),
                   s.n(n), s.n(n)))
    how = s.pick(["define", "define", "eo::define", "let"])
    return rec, M, c, qs, how


def chk(t):
    return "(step s true :rule chk :args (%s))" % t


PROGS = """(program cp ((x U) (y U) (l U :list)) :signature (U) U (
  ((cp a) a) ((cp b) b) ((cp (g x)) (g (cp x))) ((cp (h x y)) (h (cp x) (cp y)))
  ((cp (_ (_ f x) l)) (_ (_ f (cp x)) (cp l))) ((cp (_ (_ k l) x)) (_ (_ k (cp l)) (cp x)))))
(program mirror ((x U) (y U) (l U :list)) :signature (U) U (
  ((mirror (h x y)) (h (mirror y) (mirror x))) ((mirror (g x)) (g (mirror x)))
  ((mirror (_ (_ f x) l)) (_ (_ f (mirror x)) (mirror l))) ((mirror (_ (_ k l) x)) (_ (_ k (mirror l)) (mirror x)))
  ((mirror x) x)))
(program sub ((t U) (x U) (y U) (l U :list)) :signature (U U) U (
  ((sub t a) t) ((sub t (h x y)) (h (sub t x) (sub t y))) ((sub t (g x)) (g (sub t x)))
  ((sub t (_ (_ f x) l)) (_ (_ f (sub t x)) (sub t l))) ((sub t (_ (_ k l) x)) (_ (_ k (sub t l)) (sub t x)))
  ((sub t x) x)))
(program twice ((x U)) :signature (U) Bool (((twice (h x x)) true) ((twice x) false)))
(define hh ((x U) (y U)) (h (h x y) (h x y)))
(define hd () (eo::is_eq a b))
"""


def define_all(rec, p):
    """a definition for every node"""
    return "".join("(define %s%d () %s)\n" % (p, i, text(r, lambda j: "%s%d" % (p, j))) for i, r in enumerate(rec))


def nested(rec, i, kw, p):
    """one term with local definitions"""
    need = set()
    todo = [i]
    while todo:
        x = todo.pop()
        if x not in need:
            need.add(x)
            todo += rec[x][1]
    ns = sorted(need)
    return "".join("(%s ((%s%d %s)) " % (kw, p, j, text(rec[j], lambda q: "%s%d" % (p, q))) for j in ns) + "%s%d" % (p, i) + ")" * len(ns)


def run(env, files, main, keys):
    r = env.run(files, main, timeout=LIMIT)
    if r.verdict == "timeout":
        raise Violation("no answer within %d seconds" % LIMIT, files, "ethos " + main)
    if r.verdict != "correct":
        import re
        m = re.search(re.escape(main) + r":(\d+)\.", r.errmsg())
        line = files[main].split("\n")[int(m.group(1)) - 1][:300] if m else ""
        raise Violation("expected correct, at: %s\n%s" % (line, r.show()), files, "ethos " + main)
    return keys


def check_dag(case, env):
    rec, M, c, qs, how = case
    g = G()
    ids = []
    for o, cs in rec:
        ids.append(g.build(o, [ids[j] for j in cs]))
    v = g.fold(c, M)
    sz = g.unfolded()
    out = [SIG, PROGS, fold_program("fd", c, M), define_all(rec, "d")]
    keys = []
    n = len(rec)
    big = [i for i in range(n) if sz[ids[i]] > 2 ** 50]
    if not big:
        raise Discard()
    sig = repr(rec)
    err = None
    for q, i, j in qs:
        i, j = big[i % len(big)], big[j % len(big)]
        # definitions with parameters of these names would be captured
        kw = how if how != "let" else "let"
        e = nested(rec, j, kw, "e") if how != "define" else None
        if q == "same":
            if e is None:
                e = "(cp d%d)" % j
            t = "(eo::is_eq d%d %s)" % (i, e)
            out.append(chk(t if ids[i] == ids[j] else "(eo::not %s)" % t))
        elif q == "fold":
            out.append(chk("(eo::is_eq (fd d%d) %d)" % (i, v[ids[i]])))
        elif q == "cp":
            out.append(chk("(eo::is_eq (cp d%d) d%d)" % (i, i)))
        elif q == "mirror":
            out.append(chk("(eo::is_eq (mirror (mirror d%d)) d%d)" % (i, i)))
        elif q == "sub":
            # the leaf is replaced everywhere
            rec2 = [("b", ())] + rec[1:]
            if any(o == "f" for o, _ in rec):
                # the terminator is the leaf as well
                out.append(chk("(eo::is_eq (sub a d%d) d%d)" % (i, i)))
            else:
                out.append(define_all(rec2, "x%d_" % len(keys)))
                out.append(chk("(eo::is_eq (sub b d%d) x%d_%d)" % (i, len(keys), i)))
        elif q == "pat":
            t = "(twice (h d%d d%d))" % (i, j)
            out.append(chk(t if ids[i] == ids[j] else "(eo::not %s)" % t))
        elif q == "diff":
            # two nodes that differ in one leaf only
            out.append(chk("(eo::not (eo::is_eq (sub (g a) d%d) (sub (h a a) d%d)))" % (i, i)) if not uses(rec, i, "a") else
                       chk("(eo::is_eq (sub a d%d) (cp d%d))" % (i, i)))
            if not uses(rec, i, "a"):
                out.pop()
                out.append(chk("(eo::is_eq (sub a d%d) d%d)" % (i, i)))
        elif q == "type":
            out.append("(define t%d () (h d%d d%d) :type U)" % (len(keys), i, j))
        elif q == "hash":
            t = "(eo::is_eq (eo::hash d%d) (eo::hash d%d))" % (i, j)
            out.append(chk(t if ids[i] == ids[j] else "(eo::not %s)" % t))
            t = "(eo::xor (eo::cmp d%d d%d) (eo::cmp d%d d%d))" % (i, j, j, i)
            out.append(chk(t if ids[i] != ids[j] else "(eo::not %s)" % t))
        elif q == "proof":
            k = len(keys)
            out.append("(assume-push p%d (P d%d))" % (k, i))
            out.append("(step q%d (P d%d) :rule id :premises (p%d))" % (k, i, k))
            out.append("(step r%d (and (P d%d) (P (cp d%d))) :rule both :premises (q%d p%d))" % (k, i, i, k, k))
            out.append("(step-pop z%d :rule scp :premises (r%d))" % (k, k))
        elif q == "list":
            out.append(chk("(eo::is_eq (eo::list_len f (eo::list_concat f (f d%d d%d) (f d%d))) 3)" % (i, j, i)))
            out.append(chk("(eo::is_eq (eo::list_setof f (f d%d d%d)) (f d%d))" % (i, i, i)))
            out.append(chk("(eo::is_eq (eo::list_find f (f d%d d%d) d%d) %d)" % (i, j, j, 0 if ids[i] == ids[j] else 1)))
        elif q == "macro":
            out.append(chk("(eo::is_eq (hh d%d d%d) (h (h d%d d%d) (h d%d d%d)))" % (i, j, i, j, i, j)))
        elif q == "quant":
            out.append(chk("(eo::is_eq (forall ((x U)) (P d%d)) (forall ((x U)) (P (cp d%d))))" % (i, i)))
        elif q == "chain":
            out.append(chk("(eo::is_eq (= d%d d%d d%d) (and (= d%d d%d) (= d%d d%d)))" % (i, j, i, i, j, j, i)))
        elif q in ("prhs", "ppat", "mdef", "pvar"):
            # the shared graph with a parameter as its leaf
            k = len(keys)
            body = nested([("x", ())] + rec[1:], i, "eo::define", "e")
            if q == "prhs":
                out[0] += "(program pr%d ((x U)) :signature (U) U (((pr%d x) %s)))\n" % (k, k, body)
                out.append(chk("(eo::is_eq (pr%d a) d%d)" % (k, i)))
            elif q == "mdef":
                out[0] += "(define md%d ((x U)) %s)\n" % (k, body)
                out.append(chk("(eo::is_eq (md%d a) d%d)" % (k, i)))
            elif q == "ppat" and uses(rec, i, "a"):
                out[0] += "(program pp%d ((x U)) :signature (U) U (((pp%d %s) (g x))))\n" % (k, k, body)
                out.append(chk("(eo::is_eq (pp%d d%d) (g a))" % (k, i)))
            elif q == "pvar":
                # a rule whose conclusion is the graph
                out[0] += "(declare-rule pv%d ((x U)) :args (x) :conclusion (P %s))\n" % (k, body)
                out.append("(step pv%d (P d%d) :rule pv%d :args (a))" % (k, i, k))
        elif q == "error":
            err = (i, j)
        keys.append((sig + q + str((i, j)) + how, True))
        env.notes[q] = env.notes.get(q, 0) + 1
    main = "p.smt3"
    sigs = "\n".join(out[:3])
    body = '(include "s.eo")\n' + "\n".join(out[3:]) + "\n"
    run(env, {"s.eo": sigs, main: body}, main, keys)
    if err:
        # the error shows the terms
        t = body + "(step q (P d%d) :rule chk :args ((eo::is_eq d%d d%d)))\n(define e () (d%d d%d))\n" % (err[0], err[0], err[1], err[0], err[1])
        files = {"s.eo": sigs, main: t}
        r = env.run(files, main, timeout=LIMIT)
        if r.verdict != "reject":
            raise Violation("expected an error within %d seconds: %s" % (LIMIT, r.show()[:300]), files, "ethos " + main)
    return keys


def uses(rec, i, leaf):
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if rec[x][0] == leaf:
            return True
        todo += rec[x][1]
    return False


# ----- deep and long terms

def gen_deep(s):
    n = s.pick([2000, 5000, 10000, 20000, 30000])
    layers = [s.pick(["g", "hl", "hr", "hd", "f", "k"]) for _ in range(s.r(1, 5))]
    M = s.pick([7, 1000003])
    c = [s.r(0, 50) for _ in range(9)]
    qs = [s.pick(["fold", "cp", "same", "type", "len", "rev", "concat", "setof", "erase", "find", "nth", "count", "tail", "scopes", "assume", "ite", "add",
                  "fun", "premises", "macro", "diff", "define", "chainable", "drop", "and", "minclude", "strings"]) for _ in range(s.r(2, 5))]
    return n, layers, M, c, qs, s.n(1 << 16)


def check_deep(case, env):
    n, layers, M, c, qs, rnd = case
    g = G()
    a, b = g.mk("a"), g.mk("b")
    pre, post = [], []
    x = a
    # from the inside
    for i in range(n):
        l = layers[(i * 7 + i // 13) % len(layers)]
        if l == "g":
            pre.append("(g ")
            post.append(")")
            x = g.mk("g", x)
        elif l == "hl":
            pre.append("(h ")
            post.append(" b)")
            x = g.mk("h", x, b)
        elif l == "hr":
            pre.append("(h a ")
            post.append(")")
            x = g.mk("h", a, x)
        elif l == "hd":
            pre.append("(h (g b) ")
            post.append(")")
            x = g.mk("h", g.mk("g", b), x)
        else:
            pre.append("(%s b " % l)
            post.append(" a)")
            x = g.build(l, [b, x, a])
    t = "".join(reversed(pre)) + "a" + "".join(post)
    v = g.fold(c, M)
    out = ["(define d () %s)" % t]
    sig = [SIG, PROGS, fold_program("fd", c, M)]
    els = ["a", "b", "(g a)"]
    lst = [els[(i * i + rnd) % 3] for i in range(n)]
    L = "(f %s)" % " ".join(lst)
    out.append("(define l () %s)" % L)
    keys = []
    k = 0
    for q in qs:
        k += 1
        if q == "fold":
            out.append(chk("(eo::is_eq (fd d) %d)" % v[x]))
        elif q == "cp":
            out.append(chk("(eo::is_eq (cp d) d)"))
        elif q == "same":
            out.append(chk("(eo::is_eq d %s)" % t))
        elif q == "diff":
            out.append(chk("(eo::not (eo::is_eq d %s))" % t.replace("a", "b", 1) if "(h a " not in t and "k" not in t else "(eo::is_eq d d)"))
        elif q == "type":
            out.append("(define t%d () %s :type U)" % (k, t))
        elif q == "define":
            out.append("(define m%d ((x U)) %s)" % (k, t.replace("b", "x")))
            out.append(chk("(eo::is_eq (m%d b) d)" % k))
        elif q == "len":
            out.append(chk("(eo::is_eq (eo::list_len f l) %d)" % n))
        elif q == "rev":
            out.append(chk("(eo::is_eq (eo::list_rev f l) (f %s))" % " ".join(reversed(lst))))
        elif q == "concat":
            out.append(chk("(eo::is_eq (eo::list_concat f l l) (f %s))" % " ".join(lst + lst)))
        elif q == "setof":
            out.append(chk("(eo::is_eq (eo::list_setof f l) (f %s))" % " ".join(sorted(set(lst), key=lst.index))))
        elif q == "erase":
            out.append(chk("(eo::is_eq (eo::list_erase_all f l b) (f %s))" % " ".join(y for y in lst if y != "b")))
            out.append(chk("(eo::is_eq (eo::list_erase f l %s) (f %s))" % (lst[0], " ".join(lst[1:]))))
        elif q == "find":
            out.append(chk("(eo::is_eq (eo::list_find f (f %s b) b) %d)" % (" ".join(y for y in lst if y != "b"), sum(y != "b" for y in lst))))
        elif q == "nth":
            i = rnd % n
            out.append(chk("(eo::is_eq (eo::list_nth f l %d) %s)" % (i, lst[i])))
        elif q == "minclude":
            out.append(chk("(eo::is_eq (eo::list_minclude f l (eo::list_rev f l)) true)") if n <= 10000 else chk("(eo::is_eq (eo::list_len f l) %d)" % n))
        elif q == "count":
            sig.append("(program cnt%d ((n Int)) :signature (Int) Int (((cnt%d 0) 5) ((cnt%d n) (eo::add 1 (cnt%d (eo::add n -1))))))\n" % (k, k, k, k))
            out.append(chk("(eo::is_eq (cnt%d %d) %d)" % (k, n, n + 5)))
        elif q == "tail":
            sig.append("(program tl%d ((n Int) (m Int)) :signature (Int Int) Int (((tl%d 0 m) m) ((tl%d n m) (tl%d (eo::add n -1) (eo::add m 3)))))\n" % (k, k, k, k))
            out.append(chk("(eo::is_eq (tl%d %d 1) %d)" % (k, n, 3 * n + 1)))
        elif q == "drop":
            sig.append("(program dr%d ((n Int) (x U) (l U :list)) :signature (Int U) U (((dr%d 0 l) l) ((dr%d n (f x l)) (dr%d (eo::add n -1) l))))\n" % (k, k, k, k))
            i = rnd % n
            out.append(chk("(eo::is_eq (dr%d %d l) (f %s))" % (k, i, " ".join(lst[i:]) if i < n - 1 else lst[-1])))
        elif q == "scopes":
            out.append("(push)(declare-const x U)\n" * n + "(pop)\n" * n)
        elif q == "assume":
            out += ["(assume-push p%d_%d (P %s))" % (k, i, lst[i]) for i in range(n)]
            out.append("(step q%d_0 :rule id :premises (p%d_0))" % (k, k))
            out += ["(step-pop q%d_%d :rule scp :premises (q%d_%d))" % (k, i + 1, k, i) for i in range(n)]
        elif q == "premises":
            m = min(n, 5000)
            sig.append("(declare-rule all%d ((B Bool)) :premise-list B and :conclusion B)\n" % k)
            out += ["(assume p%d_%d (P %s))" % (k, i, lst[i]) for i in range(m)]
            out.append("(step z%d (and %s) :rule all%d :premises (%s))" % (k, " ".join("(P %s)" % y for y in lst[:m]), k, " ".join("p%d_%d" % (k, i) for i in range(m))))
        elif q == "ite":
            out.append(chk("(eo::is_eq %sa%s a)" % ("(eo::ite true " * n, " b)" * n)))
        elif q == "add":
            out.append(chk("(eo::is_eq (eo::add %s) %d)" % (" ".join(str(i % 10) for i in range(n)), sum(i % 10 for i in range(n)))))
        elif q == "fun":
            m = min(n, 10000)
            out.append("(declare-const fn%d (-> %s U))" % (k, " ".join(["U"] * m)))
            out.append("(define ap%d () (fn%d %s) :type U)" % (k, k, " ".join(lst[:m])))
        elif q == "macro":
            out.append("(define m%d () %s a%s)" % (k, "".join("(eo::define ((x (g %s))) " % ("x" if i else "a") for i in range(n))[:-2] + ")", ")" * n)
                       if False else "(define m%d () %sx%s)" % (k, "".join("(eo::define ((x (g %s))) " % ("x" if i else "a") for i in range(n)), ")" * n))
            out.append(chk("(eo::is_eq m%d %sa%s)" % (k, "(g " * n, ")" * n)))
        elif q == "chainable":
            out.append(chk("(eo::is_eq (= %s) (and %s))" % (" ".join(lst), " ".join("(= %s %s)" % (y, z) for y, z in zip(lst, lst[1:])))))
        elif q == "and":
            out.append(chk("(eo::and %s)" % " ".join("(eo::is_eq %s %s)" % (y, y) for y in lst)))
        elif q == "strings":
            w = "ab" * (n // 2)
            out.append("(declare-consts <string> U)")
            out.append(chk('(eo::is_eq (eo::len (eo::concat "%s" "%s")) %d)' % (w, w, 4 * (n // 2))))
            out.append(chk('(eo::is_eq (eo::concat %s) "%s")' % (" ".join(['"a"'] * n), "a" * n)) if n <= 10000 else chk("true"))
        keys.append(("%d %s %s %d" % (n, "".join(layers), q, rnd), True))
        env.notes[q] = env.notes.get(q, 0) + 1
    return run(env, {"p.eo": "".join(sig) + "\n".join(out) + "\n"}, "p.eo", keys)


# ----- overlapping recursions

def gen_rec(s):
    ps = []
    for _ in range(s.r(1, 4)):
        k = s.pick(["lin", "lin", "two", "mutual", "build", "hof", "ite"])
        ps.append((k, s.r(80, 400), [s.r(1, 3) for _ in range(2)], [s.r(1, 9) for _ in range(4)], s.pick([10007, 2 ** 61 - 1])))
    return ps


def check_rec(case, env):
    out, keys = [], []
    sig = [SIG]
    for j, (k, n, lag, c, M) in enumerate(case):
        p = "r%d" % j
        if k in ("lin", "ite"):
            v = [c[0] % M, c[1] % M, c[2] % M]
            for i in range(3, n + 1):
                v.append((c[3] * v[i - lag[0]] + c[2] * v[i - lag[1]] + 1) % M)
            body = "(eo::zmod (eo::add (eo::mul %d (%s (eo::add n -%d))) (eo::mul %d (%s (eo::add n -%d))) 1) %d)" % (c[3], p, lag[0], c[2], p, lag[1], M)
            if k == "lin":
                sig.append("(program %s ((n Int)) :signature (Int) Int (((%s 0) %d) ((%s 1) %d) ((%s 2) %d) ((%s n) %s)))\n" % (
                    p, p, v[0], p, v[1], p, v[2], p, body))
            else:
                sig.append("(program %s ((n Int)) :signature (Int) Int (((%s n) (eo::ite (eo::gt 3 n) (eo::ite (eo::eq n 0) %d (eo::ite (eo::eq n 1) %d %d)) %s))))\n" % (
                    p, p, v[0], v[1], v[2], body))
            out.append(chk("(eo::is_eq (%s %d) %d)" % (p, n, v[n])))
        elif k == "two":
            n = 30 + n % 40
            t = [[0] * (n + 1) for _ in range(n + 1)]
            for x in range(n + 1):
                for y in range(n + 1):
                    t[x][y] = c[0] if x == 0 else c[1] if y == 0 else (c[2] * t[x - 1][y] + c[3] * t[x][y - 1]) % M
            sig.append("(program %s ((n Int) (m Int)) :signature (Int Int) Int (((%s 0 m) %d) ((%s n 0) %d) ((%s n m) (eo::zmod (eo::add (eo::mul %d (%s (eo::add n -1) m)) "
                       "(eo::mul %d (%s n (eo::add m -1)))) %d))))\n" % (p, p, c[0], p, c[1], p, c[2], p, c[3], p, M))
            out.append(chk("(eo::is_eq (%s %d %d) %d)" % (p, n, n, t[n][n])))
        elif k == "mutual":
            x, y = [c[0]], [c[1]]
            for i in range(n):
                x.append((x[-1] + c[2] * y[-1]) % M)
                y.append((x[-2] * c[3] + y[-1]) % M)
            sig.append("(program %sb ((n Int)) :signature (Int) Int)\n" % p)
            sig.append("(program %s ((n Int)) :signature (Int) Int (((%s 0) %d) ((%s n) (eo::zmod (eo::add (%s (eo::add n -1)) (eo::mul %d (%sb (eo::add n -1)))) %d))))\n" % (
                p, p, c[0], p, p, c[2], p, M))
            sig.append("(program %sb ((n Int)) :signature (Int) Int (((%sb 0) %d) ((%sb n) (eo::zmod (eo::add (eo::mul %d (%s (eo::add n -1))) (%sb (eo::add n -1))) %d))))\n" % (
                p, p, c[1], p, c[3], p, p, M))
            out.append(chk("(eo::is_eq (%s %d) %d)" % (p, n, x[n])))
        elif k == "build":
            op = "hfk"[c[0] % 3]
            sig.append("(program %s ((n Int)) :signature (Int) U (((%s 0) b) ((%s n) (%s (%s (eo::add n -1)) (%s (eo::add n -1))))))\n" % (p, p, p, op, p, p))
            out.append("(define %sd0 () b)" % p)
            out += ["(define %sd%d () (%s %sd%d %sd%d))" % (p, i + 1, op, p, i, p, i) for i in range(n)]
            out.append(chk("(eo::is_eq (%s %d) %sd%d)" % (p, n, p, n)))
            out.append(chk("(eo::not (eo::is_eq (%s %d) %sd%d))" % (p, n, p, n - 1)))
        else:
            # a program that applies a function to itself, over a list
            sig.append("(program %s ((q (-> U U)) (x U) (n Int)) :signature ((-> U U) U Int) U (((%s q x 0) x) ((%s q x n) (h (%s q (q x) (eo::add n -1)) (%s q (q x) (eo::add n -1))))))\n" % (
                p, p, p, p, p))
            out.append("(define %se%d () %sa%s)" % (p, n, "(g " * n, ")" * n))
            out += ["(define %se%d () (h %se%d %se%d))" % (p, i, p, i + 1, p, i + 1) for i in range(n - 1, -1, -1)]
            out.append(chk("(eo::is_eq (%s g a %d) %se0)" % (p, n, p)))
        keys.append((repr(case[j]), True))
        env.notes["recursion " + k] = env.notes.get("recursion " + k, 0) + 1
    return run(env, {"p.eo": "".join(sig) + "\n".join(out) + "\n"}, "p.eo", keys)


# ----- types

def gen_types(s):
    return s.pick(["pair", "pair", "bv", "fun", "over", "pat"] + ["decl"] * 6), s.r(60, 500), s.n(12), s.p(50)


TS = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const a U)
(declare-const Pair (-> Type Type Type))
(declare-parameterized-const pair ((T Type :implicit) (S Type :implicit)) (-> T S (Pair T S)))
(declare-parameterized-const fst ((T Type :implicit) (S Type :implicit)) (-> (Pair T S) T))
(declare-parameterized-const eqs ((T Type :implicit)) (-> T T Bool))
(declare-const BV (-> Int Type))
(declare-consts <binary> (BV (eo::len eo::self)))
(declare-parameterized-const cc ((n Int :implicit) (m Int :implicit)) (-> (BV n) (BV m) (BV (eo::add n m))))
(declare-const o (-> U U U))
(declare-const o (-> Int Int Int))
(declare-const o (-> Bool Bool Bool))
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
"""


def check_decl(n, m, bad):
    """a declaration that mentions a shared type over parameters; returns commands and a last one that is rejected"""
    def shared(x, body):
        """body over tn, where tn has 2^n occurrences of x"""
        return "(eo::define ((t0 %s)) " % x + "".join("(eo::define ((t%d (Pair t%d t%d))) " % (i + 1, i, i) for i in range(n)) + body + ")" * (n + 1)
    tn = "t%d" % n
    out = ["(define d0 () U)"] + ["(define d%d () (Pair d%d d%d))" % (i + 1, i, i) for i in range(n)]
    out.append("(declare-const v d%d)\n(declare-const w d%d)" % (n, n - 1))
    z = "(define z () %s :type %s)"
    if m == 0:
        # a parameter that does not occur in the type
        out.append("(declare-parameterized-const f ((X Type :implicit) (y U)) %s)" % shared("X", "(-> %s X)" % tn))
        ok, ko = "(f a v)", "(f a w)"
    elif m == 1:
        # a type given explicitly
        out.append("(declare-parameterized-const f ((X Type) (y U)) %s)" % shared("X", "(-> %s X)" % tn))
        ok, ko = "(f U a v)", "(f Int a v)"
    elif m == 2:
        out.append("(declare-parameterized-const f ((X Type :opaque) (y U)) %s)" % shared("X", "(-> %s X)" % tn))
        ok, ko = "((_ f U) a v)", "((_ f U) a w)"
    elif m == 3:
        # ambiguous
        out.append("(declare-parameterized-const f ((X Type :implicit)) %s)" % shared("X", tn))
        ok, ko = "(fst (as f d%d))" % n, "(f v)"
    elif m == 4:
        # datatypes
        out.append("(declare-datatypes ((D 1)) ((par (X) ((mk (s1 %s) (s2 X)) (no)))))" % shared("X", tn))
        ok, ko = "(s2 (mk v a))", "(s2 (mk w a))"
    elif m == 5:
        out.append("(declare-datatype D (par (X) ((mk (s1 X) (s2 %s)) (no (s3 X)))))" % shared("X", tn))
        ok, ko = "(s1 (mk a v))", "(s1 (mk a w))"
    elif m == 6:
        # terminators
        out.append("(declare-parameterized-const nil ((X Type)) X)")
        out.append("(declare-parameterized-const f ((X Type :implicit)) (-> X X X) :right-assoc-nil %s)" % shared("X", "(fst (nil (Pair X %s)))" % tn))
        ok, ko = "(f a a)", "(f a 1)"
    elif m == 7:
        # rules
        out.append("(declare-rule r ((X Type) (x X) (y %s)) :args (x y) :conclusion (eqs x x))" % shared("X", tn))
        out.append("(step s0 (eqs a a) :rule r :args (a v))")
        return out, "(step s1 (eqs a a) :rule r :args (1 v))"
    elif m == 8:
        # programs
        out.append("(program p ((X Type) (x %s)) :signature (Type %s) X (((p X x) (eo::requires (eo::typeof x) %s (eo::var \"y\" X)))))" % (
            shared("X", tn), shared("X", tn), shared("X", tn)))
        out.append("(declare-parameterized-const g ((X Type :implicit)) (-> X Bool))")
        out.append(chk("(eo::is_eq (p U v) (eo::var \"y\" U))"))
        return out, "(define z () (eqs (p U w) 1) :type Bool)"
    elif m == 9:
        # definitions
        out.append("(define m ((X Type) (x %s)) (fst x))" % shared("X", tn))
        out.append("(define z () (m U v) :type d%d)" % (n - 1))
        return out, "(define y () (m U v) :type d%d)" % (n - 2)
    elif m == 10:
        # the type of literals
        out.append("(declare-const S (-> Type Int Type))")
        out.append("(declare-consts <string> %s)" % shared("U", "(S %s (eo::len eo::self))" % tn))
        out.append("(define z () \"abc\" :type (S d%d 3))" % n)
        return out, "(define y () \"abc\" :type (S d%d 3))" % (n - 1)
    else:
        # binders
        out.append("(declare-const all (-> eo::List Bool Bool) :binder eo::List::cons)")
        out.append("(define y () (all ((x d%d) (y d%d)) (eqs x (pair y y))) :type Bool)" % (n, n - 1))
        return out, "(define x () (all ((x d%d) (y d%d)) (eqs x y)) :type Bool)" % (n, n - 1)
    if m == 3:
        out.append("(define z () (eqs (fst (as f d%d)) (fst v)) :type Bool)" % n)
        return out, "(define z2 () (eqs (as f d%d) w) :type Bool)" % n
    out.append(z % (ok, "U"))
    return out, "(define y () %s :type U)" % ko


def check_types(case, env):
    k, n, m, bad = case
    if k != "decl":
        m %= 3
    out = [TS]
    if k == "decl":
        cmds, last = check_decl(n, m, bad)
        out += cmds
        k = "decl %d" % m
    elif k == "pair":
        for p in "de":
            out.append("(define %s0 () a)" % p)
            out += ["(define %s%d () (pair %s%d %s%d))" % (p, i + 1, p, i, p, i if m < 2 or i % 3 else 0) for i in range(n)]
        out.append("(define z () (fst d%d) :type (eo::typeof e%d))" % (n, n - 1))
        out.append("(define y () (eqs d%d e%d) :type Bool)" % (n, n))
        out.append(chk("(eo::is_eq (eo::typeof (pair d%d e%d)) (Pair (eo::typeof d%d) (eo::typeof d%d)))" % (n, n, n, n)))
        last = "(define x () (eqs d%d e%d) :type Bool)" % (n, n - 1)
    elif k == "bv":
        out.append("(define d0 () #b1)")
        out += ["(define d%d () (cc d%d d%d))" % (i + 1, i, i) for i in range(n)]
        out.append("(define z () d%d :type (BV %d))" % (n, 2 ** n))
        last = "(define z () d%d :type (BV %d))" % (n, 2 ** n + 1)
    elif k == "fun":
        out.append("(define d0 () U)")
        out += ["(define d%d () (-> d%d d%d))" % (i + 1, i, i) for i in range(n)]
        out.append("(declare-const ff d%d)\n(declare-const gg d%d)\n(define y () (ff gg) :type d%d)" % (n, n - 1, n - 1))
        last = "(define y () (gg ff) :type d%d)" % (n - 2)
    elif k == "over":
        out.append("(define d0 () %s)" % ["a", "1", "true"][m])
        out += ["(define d%d () (o d%d d%d))" % (i + 1, i, i) for i in range(n)]
        out.append("(define z () d%d :type %s)" % (n, ["U", "Int", "Bool"][m]))
        last = "(define z () d%d :type %s)" % (n, ["Int", "Bool", "U"][m])
    else:
        out.append("(define d0 () U)")
        out += ["(define d%d () (Pair d%d d%d))" % (i + 1, i, i) for i in range(n)]
        out.append("(declare-const c d%d)\n(define y () (fst c) :type d%d)" % (n, n - 1))
        out.append("(program pr ((T Type) (x (Pair T T))) :signature ((Pair T T)) T (((pr x) (fst x))))\n(define q () (pr c) :type d%d)" % (n - 1))
        last = "(define q () (pr c) :type d%d)" % (n - 2)
    files = {"p.eo": "\n".join(out) + "\n"}
    run(env, files, "p.eo", None)
    if bad:
        files = {"p.eo": "\n".join(out + [last]) + "\n"}
        r = env.run(files, "p.eo", timeout=LIMIT)
        if r.verdict != "reject":
            raise Violation("expected an error within %d seconds: %s" % (LIMIT, r.show()[:300]), files, "ethos p.eo")
    env.notes["types " + k] = env.notes.get("types " + k, 0) + 1
    return [(repr(case), True)]


PARTS = [Part("graphs", gen_dag, check_dag, 1500, 60000),
         Part("depth", gen_deep, check_deep, 400, 12000),
         Part("recursions", gen_rec, check_rec, 500, 20000),
         Part("types", gen_types, check_types, 500, 12000)]
