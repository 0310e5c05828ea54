"""C03: assumptions are checked against the reference."""
from fractions import Fraction
from ..engine import Part, Discard, Violation

ID = "C03"
RULE = ("an evaluation is one assume command whose acceptance was predicted (accepted ones in the history, at most one "
        "predicted to be rejected per history), plus global cases such as a second reference; non-trivial if the formula is "
        "compound, written through an abbreviation, normalized or a near miss; distinct by reference and command text")
TECHNIQUE = ("stateful property-based testing: generated reference files and proofs (asserted formulas, near misses, "
             "abbreviations, includes, scopes, normalization programs) against a reference model")
NOTE = ("Random search. Formulas are compared by the denotations the model gives them; normalization programs are total ones "
        "that the model implements in Python.")
ASSUMPTIONS = ["assumptions made before the reference command are not generated"]

SIG = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Real Type)
(declare-consts <rational> Real)
(declare-const Dec Type)
(declare-consts <decimal> Dec)
(declare-const @List Type)
(declare-const @nil @List)
(declare-parameterized-const @cons ((T Type :implicit)) (-> T @List @List) :right-assoc-nil @nil)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(declare-parameterized-const < ((A Type :implicit) (B Type :implicit)) (-> A B Bool))
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-parameterized-const lambda ((T Type :implicit)) (-> @List T (-> Int T)) :binder @cons)
(declare-const sigc Int)
(declare-const sigp Bool)
(declare-rule scope ((F Bool)) :assumption F :conclusion (=> F F))
(declare-rule triv ((F Bool)) :args (F) :conclusion (=> F F))
"""

NFS = {
    "dn": "(program $nf ((x Bool)) :signature (Bool) Bool ((($nf (not (not x))) ($nf x)) (($nf x) x)))\n",
    "flip": "(program $nf ((T Type) (S Type) (x T) (y S)) :signature (Bool) Bool ((($nf (_ (_ = x) y)) (= y x)) (($nf x) x)))\n",
    "imp": "(program $nf ((x Bool) (y Bool)) :signature (Bool) Bool ((($nf (=> x y)) ($nf y)) (($nf (not x)) (not ($nf x))) (($nf x) x)))\n",
    "id": "(program $nf ((x Bool)) :signature (Bool) Bool ((($nf x) x)))\n",
    "true": "(program $nf ((x Bool)) :signature (Bool) Bool ((($nf x) true)))\n",
}
# flip: both orders of an equation must meet, so the larger side is first
NFS["flip"] = "(program $nf ((T Type) (x T) (y T)) :signature (Bool) Bool ((($nf (= x y)) (eo::ite (eo::cmp x y) (= x y) (= y x))) (($nf x) x)))\n"


def nf(k, f):
    if k == "dn":
        while f[0] == "not" and f[1][0] == "not":
            f = f[1][1]
        return f
    if k == "flip":
        return ("=",) + tuple(sorted(f[1:], key=repr)) if f[0] == "=" else f
    if k == "imp":
        while f[0] == "=>":
            f = f[2]
        return ("not", nf(k, f[1])) if f[0] == "not" else f
    if k == "true":
        return ("true",)
    return f


class G:
    """Formulas are nested tuples: ('c', uid), ('true',), ('z', n), ('q', r), ('d', r), (op, args..)"""
    def __init__(self, s):
        self.s = s
        self.names = {}      # name -> ('c', uid, sort) | ('abbr', formula, sort)
        self.uid = 0
        self.numn = False
        self.sorts = []      # (name, number of parameters, position of the parameter it stands for, or None, its sort)

    def sort(self, u, d=2):
        """a way to write sort u"""
        s = self.s
        c = [x for x in self.sorts if x[2] is not None or x[3] == u]
        if d <= 0 or not c or s.p(45):
            return u
        n, k, i, _ = s.pick(c)
        if k == 0:
            return n
        a = [self.sort(s.pick(["Int", "Bool"]), d - 1) for _ in range(k)]
        if i is not None:
            a[i] = self.sort(u, d - 1)
        return "(%s %s)" % (n, " ".join(a))

    def defsort(self):
        s = self.s
        n = "S%d" % len(self.sorts)
        k = s.n(4)
        ps = s.sub(["X", "Y", "Z", "Int", "c0"], k, k) if k < 4 else []
        i = s.n(k) if k and s.p(70) else None
        if i is not None:
            b = ps[i]
            for x in self.sorts:
                if x[1] and x[2] is not None and s.p(30):
                    a = [s.pick(ps) for _ in range(x[1])]
                    a[x[2]] = b
                    b = "(%s %s)" % (x[0], " ".join(a))
                    break
        u = s.pick(["Int", "Bool"])
        if i is None:
            if u in ps:
                u = "Bool"
            b = u if "Int" in ps else self.sort(u)
        self.sorts.append((n, k, i, None if i is not None else u))
        return "(define-sort %s (%s) %s)\n" % (n, " ".join(ps), b)

    def declare(self, n, sort):
        self.uid += 1
        self.names[n] = ('c', self.uid, sort)
        return ('c', self.uid)

    def consts(self, sort):
        return [('c', e[1]) for e in self.names.values() if e[0] == 'c' and e[2] == sort]

    def fn(self):
        return [('c', e[1]) for e in self.names.values() if e[0] == 'c' and e[2] == "fun"]

    def term(self, d=2):
        s = self.s
        k = s.n(10)
        if d <= 0 or k < 4:
            m = s.n(5)
            if m == 0 and not self.numn:
                return ('z', s.r(0, 3))
            return s.pick(self.consts("Int"))
        f = self.fn()
        if f:
            return ("app", s.pick(f), self.term(d - 1))
        return s.pick(self.consts("Int"))

    def num(self):
        s = self.s
        return s.pick([('q', Fraction(3, 2)), ('q', Fraction(1, 2)), ('q', Fraction(2)), ('q', Fraction(1, 3)), ('q', Fraction(-1, 2))])

    def formula(self, d=3):
        s = self.s
        k = s.n(12)
        if d <= 0 or k < 3:
            return s.pick(self.consts("Bool"))
        if k < 5:
            return ("not", self.formula(d - 1))
        if k < 7:
            return ("and",) + tuple(self.formula(d - 1) for _ in range(s.r(2, 3)))
        if k == 7:
            return ("=>", self.formula(d - 1), self.formula(d - 1))
        f = [('c', e[1]) for e in self.names.values() if e[0] == 'c' and e[2] == "fun2"]
        if f and s.p(25):
            return ("app", s.pick(f), self.term(d - 1), self.formula(d - 1))
        if k == 8:
            return ("<", self.num(), self.term(1)) if s.p(50) else ("<", self.term(1), self.num())
        if k < 11:
            return (s.pick(["=", "<"]), self.term(), self.term())
        return ("=", self.formula(d - 1), self.formula(d - 1))

    def show(self, f, ctx, lets=None):
        """text of a formula; ctx: 'eo' (no normalization), 'pf' or 'ref'; numn: are numerals normalized"""
        s = self.s
        if lets:
            for n, g in lets.items():
                if g == f and s.p(70):
                    return n
        ab = [n for n, e in self.names.items() if e[0] == 'abbr' and e[1] == f]
        if ab and s.p(60):
            return s.pick(ab)
        k = f[0]
        if k == 'c':
            for n, e in self.names.items():
                if e[0] == 'c' and e[1] == f[1]:
                    return n
            return None
        if k == "true":
            return "true"
        if k == 'v':
            return f[1]
        if k == 'z':
            return str(f[1])
        if k == 'q':
            q = f[1]
            if self.numn and ctx != "eo" and q == 2 and s.p(60):
                return "2"
            if ctx != "eo" and q in (Fraction(3, 2), Fraction(1, 2), Fraction(2), Fraction(-1, 2)) and s.p(50):
                return s.pick({Fraction(3, 2): ["1.5", "1.50"], Fraction(1, 2): ["0.5", "0.500"], Fraction(2): ["2.0"],
                               Fraction(-1, 2): ["-0.5"]}[q])
            return "%d/%d" % (q.numerator, q.denominator) if s.p(70) else "%d/%d" % (2 * q.numerator, 2 * q.denominator)
        if k == 'd':
            return {Fraction(3, 2): "1.5", Fraction(1, 2): "0.5", Fraction(2): "2.0", Fraction(-1, 2): "-0.5"}[f[1]]
        if k == "lambda":
            b = self.show(f[3], ctx)
            return None if b is None else "(lambda ((%s %s)) %s)" % (f[1], self.sort(f[2]), b)
        xs = [self.show(x, ctx, lets) for x in f[1:]]
        if None in xs:
            return None
        if k == "app":
            return "(%s)" % " ".join(xs)
        return "(%s %s)" % (k, " ".join(xs))

    def showl(self, f, ctx):
        """possibly with let"""
        s = self.s
        if ctx != "eo" and len(f) > 1 and f[0] in ("and", "=", "not", "=>") and s.p(30):
            subs = [g for g in f[1:] if isinstance(g, tuple) and g[0] not in 'czqd']
            if subs:
                g = s.pick(subs)
                t = self.show(g, ctx)
                b = self.show(f, ctx, {"?l": g})
                if t is not None and b is not None:
                    return "(let ((?l %s)) %s)" % (t, b)
        return self.show(f, ctx)


def near(s, g, f):
    """a formula that differs from f a little (or not at all)"""
    k = s.n(6)
    isb = f[0] in ("not", "and", "=", "=>", "<", "true") or \
        f[0] == 'c' and any(e[0] == 'c' and e[1] == f[1] and e[2] == "Bool" for e in g.names.values())
    if k == 0 and isb:
        return ("not", f)
    if k == 1 and f[0] == "not":
        return f[1]
    if k == 2 and f[0] in ("and", "=", "=>", "<"):
        return (f[0],) + tuple(reversed(f[1:]))
    if k == 3 and f[0] == "and":
        return f + (f[1],) if s.p(50) else f[:-1] if len(f) > 3 else ("and", f[1])
    if f[0] == "lambda":
        return f[:3] + (near(s, g, f[3]),)
    if f[0] in ("and", "=", "=>", "<", "not", "app"):
        i = s.r(1, len(f) - 1)
        return f[:i] + (near(s, g, f[i]),) + f[i + 1:]
    if f[0] == 'z':
        return ('z', f[1] + 1)
    if f[0] == 'q':
        return ('d', f[1]) if g.ctx == 'eo' and s.p(40) and f[1] in (Fraction(3, 2), Fraction(1, 2), Fraction(2)) else ('q', f[1] + 1)
    if f[0] == 'c':
        e = [x for x in g.names.values() if x[0] == 'c' and x[1] == f[1]]
        if e:
            c = g.consts(e[0][2])
            if c:
                return s.pick(c)
    return f


def gen(s):
    g = G(s)
    g.declare("sigc", "Int")
    g.declare("sigp", "Bool")
    nfk = s.w([(5, None)] + [(1, k) for k in NFS])
    numn = g.numn = s.p(12)
    ref = []
    asserted = []
    pre = [g.defsort() for _ in range(s.r(1, 4))] if s.p(40) else []
    for i in range(s.r(1, 3)):
        g.declare("p%d" % i, "Bool")
        b = g.sort("Bool")
        ref.append("(declare-fun p%d () %s)\n" % (i, b) if s.p(60) else "(declare-const p%d %s)\n" % (i, b))
    for i in range(s.r(1, 3)):
        g.declare("c%d" % i, "Int")
        ref.append("(declare-fun c%d () %s)\n" % (i, g.sort("Int")))
    if s.p(60):
        g.declare("fn", "fun")
        ref.append("(declare-fun fn (%s) %s)\n" % (g.sort("Int"), g.sort("Int")))
    ref = pre + s.perm(ref)
    if s.p(40):
        ref.insert(0, "(set-logic ALL)\n")
    if s.p(40):
        ref.insert(s.n(len(ref) + 1), "(set-info :status unsat)\n")
    if s.p(25):
        # options of ethos are of no effect there
        for _ in range(s.r(1, 3)):
            ref.insert(s.n(len(ref) + 1), "(set-option :%s %s)\n" % (s.pick(["normalize-num", "normalize-dec", "normalize-dec", "normalize-hex", "parse-let",
                                                                            "produce-proofs"]), s.pick(["true", "false", "false"])))
    kinds = {}
    queried = []

    def ass(f, why):
        asserted.append(f)
        kinds.setdefault(why, []).append(f)
    for i in range(s.r(1, 7)):
        k = s.n(10)
        if k < 5:
            f = g.formula()
            ref.append("(assert %s)\n" % g.showl(f, "ref"))
            ass(f, "assert")
        elif k == 5:
            f = g.formula(2)
            ref.append("(define-fun d%d () %s %s)\n" % (i, g.sort("Bool"), g.show(f, "ref")))
            c = g.declare("d%d" % i, "Bool")
            ass(("=", c, f), "define-fun")
        elif k == 6 and s.p(35):
            # a function with two arguments, which is used below only
            f = g.formula(2)
            ref.append("(define-fun h%d ((x %s) (%s %s)) %s %s)\n" % (i, g.sort("Int"), s.pick(["y", "x1"]), g.sort("Bool"), g.sort("Bool"), g.show(f, "ref")))
            c = g.declare("h%d" % i, "fun2")
            f = ("app", c, g.term(), g.formula(1))
            ref.append("(assert %s)\n" % g.showl(f, "ref"))
            ass(f, "assert")
        elif k == 6:
            b = g.term()
            v = ('v', "x")
            if s.p(70):
                cs = g.consts("Int")
                x = s.pick(cs)
                b = subst(b, x, v)
            ref.append("(define-fun g%d ((x %s)) %s %s)\n" % (i, g.sort("Int"), g.sort("Int"), g.show(b, "ref")))
            c = g.declare("g%d" % i, "fun")
            ass(("=", c, ("lambda", "x", "Int", b)), "define-fun lambda")
        elif k == 7:
            f = g.formula(2)
            ref.append("(define-const k%d %s %s)\n" % (i, g.sort("Bool"), g.show(f, "ref")))
            g.names["k%d" % i] = ('abbr', f, "Bool")
        elif k == 8:
            f = g.term()
            ref.append("(define-const t%d %s %s)\n" % (i, g.sort("Int"), g.show(f, "ref")))
            g.names["t%d" % i] = ('abbr', f, "Int")
        elif s.p(60):
            # formulas that are assumed in a query are not asserted
            fs = [g.formula() for _ in range(s.n(4))]
            ref.append("(check-sat-assuming (%s))\n" % " ".join(g.show(f, "ref") for f in fs))
            queried += fs
        else:
            ref.append("(check-sat)\n")
    if s.p(50):
        ref.append("(check-sat)\n")
    if s.p(8):
        fs = [g.formula() for _ in range(s.r(1, 3))]
        ref.append("(check-sat-assuming (%s))\n" % " ".join(g.show(f, "ref") for f in fs))
        queried += fs
    if s.p(20):
        ref.append("(exit)\n")
    ctx = g.ctx = s.pick(["eo", "pf"])
    keyset = {nf(nfk, f) for f in asserted}
    cmds = []
    evs = []
    files = {}
    cnt = [0]

    def fresh(p):
        cnt[0] += 1
        return "%s%d" % (p, cnt[0])
    depth = [0]
    verdict = None
    hidden = []

    def assume(f, cmds, ctx):
        t = g.showl(f, ctx)
        if t is None:
            return None
        ok = nf(nfk, f) in keyset
        cmds.append("(assume %s %s)\n" % (fresh("@a"), t))
        evs.append((cmds[-1], ok, f))
        return ok
    for _ in range(s.r(2, 10)):
        k = s.n(12)
        if k < 5 and asserted:
            f = s.pick(asserted)
            if nfk and s.p(60):
                f = denf(s, nfk, f, g)
            assume(f, cmds, ctx)
        elif k == 5:
            f = g.formula()
            t = g.showl(f, ctx)
            if t:
                cmds.append("(assume-push %s %s)\n" % (fresh("@h"), t))
                depth[0] += 1
        elif k == 6 and depth[0]:
            cmds.append("(step-pop %s :rule scope)\n" % fresh("@s"))
            depth[0] -= 1
        elif k == 7 and not depth[0]:
            n = fresh("inc") + ".eo"
            sub = []
            sub.append("(declare-const %s Bool)\n" % fresh("ic"))
            if asserted and s.p(60):
                assume(s.pick(asserted), sub, "eo")
            if s.p(40):
                f = g.formula()
                t = g.show(f, "eo")
                if t:
                    sub.append("(define %s () %s)\n" % (fresh("idf"), t))
                    g.names["idf%d" % cnt[0]] = ('abbr', f, "Bool")
            files[n] = "".join(sub)
            cmds.append('(include "%s")\n' % n)
        elif k == 8 and not depth[0]:
            f = s.pick(asserted) if asserted and s.p(60) else g.formula()
            t = g.show(f, ctx)
            if t:
                n = fresh("df")
                cmds.append("(define %s () %s)\n" % (n, t))
                g.names[n] = ('abbr', f, "Bool")
        elif k == 9 and not depth[0] and s.p(50):
            n = s.pick([x for x, e in g.names.items() if e[0] == 'c' and e[2] == "Bool" and x != "sigp"])
            cmds.append("(declare-const %s Bool)\n" % n)
            g.declare(n, "Bool")
        elif k == 10:
            cmds.append("(step %s :rule triv :args (sigp))\n" % fresh("@t"))
        elif k == 11 and not depth[0] and s.p(30):
            cmds.append("(push)\n(pop)\n")
    last = None
    m = s.n(10)
    if m < 6:
        f = s.pick(queried) if queried and s.p(50) else near(s, g, s.pick(asserted)) if asserted and s.p(75) else g.formula()
        l = []
        if assume(f, l, ctx) is not None:
            last = l
    elif m == 6:
        files["r2.smt2"] = "(declare-fun zz () Bool)\n(assert zz)\n"
        last = ['(reference "r2.smt2")\n']
        evs.append((last[0], False, None))
    close = ["(step-pop %s :rule scope)\n" % fresh("@s") for _ in range(depth[0])]
    where = s.pick(["cmd", "cmd", "opt", "inc"])
    if nfk and where == "opt":
        where = "cmd"
    return dict(ref="".join(ref), nfk=nfk, numn=numn, ctx=ctx, cmds=cmds, last=last, close=close, files=files, evs=evs, where=where,
                depth=depth[0])


def subst(f, x, v):
    if f == x:
        return v
    return tuple(subst(y, x, v) if isinstance(y, tuple) else y for y in f)


def denf(s, k, f, g):
    """another formula with the same normal form"""
    if k == "dn":
        return ("not", ("not", f)) if s.p(60) else f[1][1] if f[0] == "not" and f[1][0] == "not" else f
    if k == "flip" and f[0] == "=":
        return ("=", f[2], f[1])
    if k == "imp":
        return ("=>", g.formula(1), f)
    if k == "true":
        return g.formula()
    return f


def check(c, env):
    head = SIG + (NFS[c["nfk"]] if c["nfk"] else "")
    files = dict(c["files"])
    files["s.eo"] = head
    files["r.smt2"] = c["ref"]
    main = "p.eo" if c["ctx"] == "eo" else "p.smt3"
    args = []
    pre = '(include "s.eo")\n'
    refc = '(reference "r.smt2"%s)\n' % (" $nf" if c["nfk"] else "")
    if c["where"] == "opt":
        args = ["--include=s.eo", "--reference=r.smt2"]
        pre = ""
        refc = ""
    elif c["where"] == "inc":
        files["ri.eo"] = pre + refc
        pre, refc = "", '(include "ri.eo")\n'
    if c["numn"]:
        args.append("--normalize-num")

    def run(cmds):
        files[main] = pre + refc + "".join(cmds)
        return env.run(files, main, args)
    cmd = "ethos %s %s" % (" ".join(args), main)
    evs = c["evs"]
    n = len(evs) - (1 if c["last"] else 0)
    bad = [e for e in evs[:n] if not e[1]]
    r = run(c["cmds"] + c["close"])
    for e in evs:
        k = "%s%s" % ("nf " if c["nfk"] else "", "accepted" if e[1] else "rejected")
        env.notes[k] = env.notes.get(k, 0) + 1
    if r.verdict != ("reject" if bad else "correct"):
        raise Violation("this proof should be %s, but: %s" % ("rejected because of %s" % bad[0][0] if bad else "accepted", r.show()), files, cmd)
    res = [(c["ref"] + e[0], len(e[0]) > 16) for e in evs]
    if c["last"] and not bad:
        ok = evs[-1][1]
        r = run(c["cmds"] + c["last"] + c["close"])
        if r.verdict != ("correct" if ok else "reject"):
            raise Violation("the command %s should be %s, but: %s" % (c["last"][0], "accepted" if ok else "rejected", r.show()), files, cmd)
    return res


# --- the reference in relation to other files -----------------------------------------------------------------

def spell(s, f):
    return s.pick([f, f, "./" + f, "sub/../" + f, "././" + f])


def geno(s):
    has = s.p(50)                # does the reference file have assertions
    deep = s.p(30)
    r = ("sub/" if deep else "") + "r." + s.pick(["eo", "smt2"])
    ref = "(declare-const p Bool)\n(declare-const q Bool)\n" + ("(assert p)\n" if has else "")
    files = {r: ref, "sub/x.eo": "(declare-const x Bool)\n", "sig.eo": "(declare-rule scope ((F Bool)) :assumption F :conclusion true)\n"}
    nf = s.p(25)
    main = s.pick(["m.eo", "m.smt3"])
    args, cmds = [], ['(include "%s")\n' % spell(s, "sig.eo")]
    before = not has and s.p(60)
    if before:
        k = s.n(4)
        if k == 0:
            args.append("--include=" + r)
        elif k == 1:
            files["via.eo"] = '(include "%s")\n' % spell(s, r)
            cmds.append('(include "via.eo")\n')
        elif k == 2:
            files["sub/via.eo"] = '(include "../%s")\n' % r
            cmds.append('(include "sub/via.eo")\n')
        else:
            cmds.append('(include "%s")\n' % spell(s, r))
    if s.p(30):
        cmds.append('(include "%s")\n' % spell(s, "sub/x.eo"))
    opt = not nf and s.p(25)
    self_ = False
    if nf:
        cmds.append("(program $nf ((y Bool)) :signature (Bool) Bool ((($nf y) true)))\n" if s.p(40) and before
                    else "(program $nf ((y Bool)) :signature (Bool) Bool ((($nf y) y)))\n")
    ri = len(args)
    none = s.p(12)
    if none:
        cmds.append('(include "%s")\n' % spell(s, r)) if not has else None
    elif opt:
        args.append("--reference=" + r)
    elif not before and not has and s.p(30):
        # the file refers to itself
        self_ = True
        cmds.insert(0, "(declare-const p Bool)\n(declare-const q Bool)\n")
        cmds.append('(reference "%s")\n' % spell(s, main))
    elif s.p(30):
        files["rv.eo"] = '(reference "%s"%s)\n' % (spell(s, r), " $nf" if nf else "")
        cmds.append('(include "%s")\n' % spell(s, "rv.eo"))
    else:
        cmds.append('(reference "%s"%s)\n' % (spell(s, r), " $nf" if nf else ""))
    second = False
    for _ in range(s.r(0, 3)):
        k = s.n(4)
        if k == 0 and not (none and has):
            cmds.append('(include "%s")\n' % spell(s, r))
        elif k == 1:
            cmds.append('(include "%s")\n' % spell(s, "sub/x.eo"))
        elif k == 2:
            cmds.append("(assume-push @h%d true)\n(step-pop @s%d :rule scope)\n" % (len(cmds), len(cmds)))
        elif k == 3 and s.p(20) and not none:
            second = True
            cmds.append('(reference "%s")\n' % spell(s, s.pick([r, "sub/x.eo"])))
    if none and has:
        files.pop(r)
        cmds.insert(0, "(declare-const p Bool)\n(declare-const q Bool)\n")
    a = s.pick([None, "p", "p", "q"])
    ok = not second
    if a:
        cmds.append("(assume @a %s)\n" % a)
        ok = ok and (none or has and a == "p")
    files[main] = "".join(cmds)
    return dict(files=files, main=main, args=args, ok=ok, tag="%s%s" % ("none" if none else "self" if self_ else
                "included before" if before else "new", ", assertions" if has else ""), a=a)


def checko(c, env):
    r = env.run(c["files"], c["main"], c["args"])
    env.notes[c["tag"]] = env.notes.get(c["tag"], 0) + 1
    if r.verdict != ("correct" if c["ok"] else "reject"):
        raise Violation("this proof should be %s, but: %s" % ("accepted" if c["ok"] else "rejected", r.show()), c["files"],
                        "ethos %s %s" % (" ".join(c["args"]), c["main"]))
    return [(repr((sorted(c["files"].items()), c["args"])), c["a"] is not None and c["tag"] != "none")]


PARTS = [Part("references", gen, check, 8000, 200000), Part("order", geno, checko, 1500, 40000)]
