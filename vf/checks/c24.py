"""C24: binders and bound variables."""
from ..engine import Part, Discard
from ..eo import *

ID = "C24"
RULE = ("an evaluation is one query comparing a term with binders to its expansion into list constructors and eo::var; non-trivial if "
        "the term has nested binders, or a binder of at least two variables, or a shadowed name; distinct by query and declarations")
TECHNIQUE = ('property-based testing: generated nestings of binders, let binders and eo::define, compared with explicit terms in which '
             'every occurrence of a variable is (eo::var "name" type)')
NOTE = 'The generator keeps its own scopes and produces the surface syntax and the explicit term together.'
ASSUMPTIONS = ["the explicit term uses the n-ary syntax of the list constructor (C09)",
               "a bound name is not applied when the variable is no function (then an outer function of that name may be meant, C13)",
               "names without backslash and of ASCII characters (others are not SMT-LIB symbols)"]

TYPES = ["Bool", "U", "Int", "(Set U)", "(-> U U)", "(Set (Set Int))", "(-> Int U Bool)", "V", "UO"]
# UO is another type that is called U
CONS = {
    "right-assoc-nil": "(declare-parameterized-const %s ((T Type :implicit)) (-> T L L) :right-assoc-nil %s)",
    "left-assoc-nil": "(declare-parameterized-const %s ((T Type :implicit)) (-> L T L) :left-assoc-nil %s)",
    "right-assoc-ns-nil": "(declare-parameterized-const %s ((T Type :implicit)) (-> T L L) :right-assoc-non-singleton-nil %s)",
}
HDR = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const U Type)
(define UO () U)
(declare-const U Type)
(declare-const V Type)
(declare-const Set (-> Type Type))
(declare-const L Type)
(declare-const nil L)
(declare-const Pair (-> Type Type Type))
(declare-parameterized-const pair ((A Type :implicit) (B Type :implicit)) (-> A B (Pair A B)))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const ite ((T Type :implicit)) (-> Bool T T T))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const e Bool)
"""
CONSTS = {"Bool": ["p0", "p1", "true", "false"], "U": ["u0", "u1"], "Int": ["n0", "3", "0"], "(Set U)": ["s0"], "(-> U U)": ["f0", "f1"],
          "(Set (Set Int))": ["ss0"], "(-> Int U Bool)": ["r0"], "V": ["v0"], "UO": ["uo0"]}
for _t, _cs in CONSTS.items():
    HDR += "".join("(declare-const %s %s)\n" % (c, _t) for c in _cs if c[-1] in "01" and not c.isdigit())
# how the function types are applied
FUN = {"(-> U U)": (("U",), "U"), "(-> Int U Bool)": (("Int", "U"), "Bool")}
NAMES = ["x", "y", "z", "x", "y", "p0", "u0", "n0", "f0", "s0", "|a b|", "|x|", "|1|", "||", "|(|", "|a\"b|", "X", "xx", "@v", "_v0", "step", "e",
         "c", "Q", "nil", "pair", "true", "|;|", "eo", "$x", "-", "=", "and", "|true|", "var", "|x y z|", "L1"]
HEADS = {"ite", "=", "and", "c", "Q", "W", "R", "let1", "pair", "d"}


def bare(n):
    return n[1:-1] if n.startswith("|") else n


def var(n, t):
    return "(eo::var \"%s\" %s)" % (bare(n).replace('"', '""'), t)


class G:
    """tinst: instantiation of the type variables that may occur"""

    def __init__(self, s, binders, tinst=None, ns=False):
        self.s, self.binders, self.tinst, self.ns = s, binders, tinst or {}, ns
        # with types that contain the parameters
        self.types = TYPES + sorted(self.tinst) * 3 + [f % x for x in sorted(self.tinst) for f in ("(Set %s)", "(-> %s U)", "(-> U %s Bool)", "(Set (Set %s))")]
        self.consts = {k: list(v) for k, v in CONSTS.items()}
        self.depth = self.multi = self.shadow = 0

    def ct(self, t):
        """the concrete type"""
        for a, b in self.tinst.items():
            t = t.replace(a, b)
        return t

    def lookup(self, sc, n):
        for f in reversed(sc):
            if bare(n) in f:
                return f[bare(n)]
        return None

    def leaf(self, t, sc):
        """(surface, explicit)"""
        c = []
        seen = set()
        for f in reversed(sc):
            for n, (tt, ex) in f.items():
                if n not in seen:
                    seen.add(n)
                    if tt == t:
                        c.append((quote(n), ex))
        for n in self.consts.get(t, []):
            if n not in seen:
                c.append((n, n))
        c2 = [x for x in c if x[0] != x[1]]
        if c2 and self.s.p(75):
            return self.s.pick(c2)
        if c:
            return self.s.pick(c)
        if t.startswith("(-> ") or True:
            # a variable that is not bound here
            n = self.s.pick(["x", "y", "w"])
            return var(n, t), var(n, self.ct(t))

    def term(self, t, sc, d):
        s = self.s
        vis = lambda n: self.lookup(sc, n) is None
        if d <= 0 or s.p(20):
            return self.leaf(t, sc)
        m = s.n(10)
        if m < 2 and vis("ite"):
            a, b, c = self.term("Bool", sc, d - 1), self.term(t, sc, d - 1), self.term(t, sc, d - 1)
            return "(ite %s %s %s)" % (a[0], b[0], c[0]), "(ite %s %s %s)" % (a[1], b[1], c[1])
        if m < 4:
            # apply a function
            fs = [f for f, (a, r) in FUN.items() if r == t]
            if fs:
                f = s.pick(fs)
                h = self.leaf(f, sc)
                xs = [self.term(a, sc, d - 1) for a in FUN[f][0]]
                if h[0].startswith("("):
                    return ("(_ %s %s)" % (h[0], " ".join(x[0] for x in xs)), "(_ %s %s)" % (h[1], " ".join(x[1] for x in xs)))
                return ("(%s %s)" % (h[0], " ".join(x[0] for x in xs)), "(_ %s %s)" % (h[1], " ".join(x[1] for x in xs)))
        if m == 4 and t == "Bool" and vis("="):
            u = s.pick(self.types)
            a, b = self.term(u, sc, d - 1), self.term(u, sc, d - 1)
            return "(= %s %s)" % (a[0], b[0]), "(= %s %s)" % (a[1], b[1])
        if m == 5 and t == "Bool" and vis("and"):
            xs = [self.term("Bool", sc, d - 1) for _ in range(s.r(2, 3))]
            return "(and %s)" % " ".join(x[0] for x in xs), "(and %s)" % " ".join(x[1] for x in xs)
        if m == 6:
            return self.define(t, sc, d)
        return self.binder(t, sc, d)

    def names(self, k):
        s = self.s
        ns = [s.pick(NAMES) for _ in range(k)]
        return ns

    def binder(self, t, sc, d):
        s = self.s
        bs = [b for b in self.binders if (t == "Bool" or b[1] in ("poly", "let")) and self.lookup(sc, b[0]) is None]
        if not bs:
            return self.leaf(t, sc)
        name, kind, cons = s.pick(bs)
        self.depth = max(self.depth, sum(1 for f in sc if f.get("\0")) + 1)
        k = s.w([(5, 1), (4, 2), (2, 3), (1, 6)])
        if cons == "c" and self.ns:
            k = max(k, 2)       # otherwise no list, and ill typed
        if k >= 2:
            self.multi += 1
        fr = {"\0": ("\0", "")}
        if kind == "let":
            ns = self.names(k)
            ts = [s.pick(self.types) for _ in range(k)]
            xs = [self.term(u, sc, d - 1) for u in ts]
            for n, u in zip(ns, ts):
                if self.lookup(sc, n) or bare(n) in fr or n in sum(self.consts.values(), []):
                    self.shadow += 1
                fr[bare(n)] = (u, var(n, self.ct(u)))
            b = self.term(t, sc + [fr], d - 1)
            return ("(%s (%s) %s)" % (name, " ".join("(%s %s)" % (n, x[0]) for n, x in zip(ns, xs)), b[0]),
                    "(%s (%s %s) %s)" % (name, cons, " ".join("(pair %s %s)" % (var(n, self.ct(u)), x[1]) for n, u, x in zip(ns, ts, xs)), b[1]))
        ns = self.names(k)
        ts = [s.pick(self.types) for _ in range(k)]
        for n, u in zip(ns, ts):
            if self.lookup(sc, n) or bare(n) in fr or n in sum(self.consts.values(), []):
                self.shadow += 1
            fr[bare(n)] = (u, var(n, self.ct(u)))
        vl = "(%s)" % s.pick([" ", " ", "\n"]).join("(%s %s)" % (n, u) for n, u in zip(ns, ts))
        ex = "(%s %s)" % (cons, " ".join(var(n, self.ct(u)) for n, u in zip(ns, ts)))
        bodies = [self.term("Bool" if kind == "two" and i == 0 else t, sc + [fr], d - 1) for i in range(2 if kind == "two" else 1)]
        return ("(%s %s %s)" % (name, vl, " ".join(b[0] for b in bodies)), "(%s %s %s)" % (name, ex, " ".join(b[1] for b in bodies)))

    def define(self, t, sc, d):
        s = self.s
        k = s.r(1, 2)
        ns = self.names(k)
        ts = [s.pick(self.types) for _ in range(k)]
        if len({bare(n) for n in ns}) < k:
            return self.leaf(t, sc)
        xs = [self.term(u, sc, d - 1) for u in ts]
        fr = {}
        for n, u, x in zip(ns, ts, xs):
            if self.lookup(sc, n) is not None or n in sum(self.consts.values(), []):
                self.shadow += 1
            fr[bare(n)] = (u, x[1])
        b = self.term(t, sc + [fr], d - 1)
        return "(eo::define (%s) %s)" % (" ".join("(%s %s)" % (n, x[0]) for n, x in zip(ns, xs)), b[0]), b[1]



def quote(n):
    import re
    return n if re.match(r"(?!-[0-9])[A-Za-z~!@$%^&*_+=<>.?/-][A-Za-z0-9~!@$%^&*_+=<>.?/-]*\Z", n) else "|%s|" % n


def gen_sig(s):
    attr = s.pick(list(CONS))
    lines = [CONS["right-assoc-nil"] % ("d", "nil"), CONS[attr] % ("c", "nil")]
    binders = []
    for i in range(s.r(1, 3)):
        k = s.pick(["mono", "poly", "two", "let"])
        n = {"mono": "Q", "poly": "W", "two": "R", "let": "let1"}[k] + str(i)
        cons = s.pick(["c", "c", "d"])
        if k == "mono":
            lines.append("(declare-const %s (-> L Bool Bool) :binder %s)" % (n, cons))
        elif k == "poly":
            lines.append("(declare-parameterized-const %s ((T Type :implicit)) (-> L T T) :binder %s)" % (n, cons))
        elif k == "two":
            lines.append("(declare-const %s (-> L Bool Bool Bool) :binder %s)" % (n, cons))
        else:
            lines.append("(declare-parameterized-const %s ((T Type :implicit)) (-> L T T) :let-binder (pair %s))" % (n, cons))
        binders.append((n, k, cons))
    return attr, lines, binders


def gen(s):
    attr, lines, binders = gen_sig(s)
    ns = "ns" in attr
    qs = []
    for i in range(s.r(5, 15)):
        d = s.r(1, 4)
        t = s.pick(["Bool", "Bool", "U", "Int", "(Set U)", "(-> U U)"])
        mode = s.w([(6, "eq"), (3, "macro"), (3, "program"), (2, "apart"), (2, "prem"), (2, "vars"), (2, "step")])
        if mode in ("macro", "program"):
            ti = {"T1": s.pick(TYPES), "T2": s.pick(TYPES)}
            if s.p(25):
                ti["T2"] = ti["T1"]
            g = G(s, binders, ti, ns)
            pv_ = {}
            vals = []
            g0 = G(s, binders, None, ns)
            for n, u in (("a1", "T1"), ("a2", "T2"), ("a3", "Bool")):
                v = g0.term(ti.get(u, u), [], s.r(0, 1))
                pv_[n] = (u, v[1])
                vals.append(v[0])
            t2 = s.pick(["T1", "T2", "Bool", "Bool"])
            a, b = g.term(t2, [pv_], d)
            qs.append((mode, i, a, b, vals, ti, (g.depth, g.multi, g.shadow)))
            continue
        g = G(s, binders, None, ns)
        a, b = g.binder(t, [], d) if s.p(80) else g.term(t, [], d)
        other = None
        if mode == "vars":
            n, m = s.pick(NAMES), s.pick(NAMES)
            u, v = s.pick(TYPES), s.pick(TYPES)
            other = (n, u, m if s.p(50) else n, s.pick(["U", "UO"]) if s.p(25) else v if s.p(50) else u)
            if other[3][0] == "U" and s.p(50):
                other = (n, s.pick(["U", "UO"]), other[2], other[3])
        qs.append((mode, i, a, b, t, other, (g.depth, g.multi, g.shadow)))
    return attr, lines, binders, qs


def check(case, env):
    attr, lines, binders, qs = case
    q = Queries()
    hdr = HDR + "\n".join(lines) + "\n"
    hdr += "(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion F)\n(declare-rule giveb ((F Bool)) :args (F) :conclusion F)\n"
    for b in binders:
        if b[1] == "mono":
            hdr += "(program body_%s ((l L) (b Bool)) :signature (Bool) Bool (((body_%s (%s l b)) b)))\n" % (b[0], b[0], b[0])
            hdr += "(program vars_%s ((l L) (b Bool)) :signature (Bool) L (((vars_%s (%s l b)) l)))\n" % (b[0], b[0], b[0])
    dec = "\n".join(lines)
    tail = ""
    for mode, i, a, b, x, other, (depth, multi, shadow) in qs:
        nt = depth >= 2 or multi > 0 or shadow > 0
        env.notes[mode] = env.notes.get(mode, 0) + 1
        if depth >= 2:
            env.notes["nested"] = env.notes.get("nested", 0) + 1
        if shadow:
            env.notes["shadowed"] = env.notes.get("shadowed", 0) + 1
        add = lambda t, n=nt: q.true(t, dec + t, n)
        if mode in ("macro", "program"):
            vals, ti = x, other
            inst = "%s %s %s" % (ti["T1"], ti["T2"], " ".join(vals))
            if mode == "macro":
                hdr += "(define m%d ((T1 Type) (T2 Type) (a1 T1) (a2 T2) (a3 Bool)) %s)\n" % (i, a)
            else:
                hdr += ("(program m%d ((T1 Type) (T2 Type) (a1 T1) (a2 T2) (a3 Bool) (R Type)) :signature (Type Type T1 T2 Bool) R "
                        "(((m%d T1 T2 a1 a2 a3) %s)))\n" % (i, i, a))
            t = "(eo::is_eq (m%d %s) %s)" % (i, inst, b)
            q.true(t, dec + a + inst, nt)
        elif mode == "eq":
            add("(eo::is_eq %s %s)" % (a, b))
        elif mode == "apart":
            from .. import sx
            n = sx.parse(b)[0]
            m = sx.parse(a)[0]
            mono = [y[0] for y in binders if y[1] == "mono"]
            if n.k == "(" and n.head in mono and len(n.kids) == 3:
                add("(eo::is_eq (body_%s %s) %s)" % (n.head, a, n.kids[2].text))
                add("(eo::is_eq (vars_%s %s) %s)" % (n.head, a, n.kids[1].text))
                # bodies and lists put together again
                add("(eo::is_eq (%s %s (body_%s %s)) %s)" % (n.head, n.kids[1].text, n.head, a, a))
                vs = [k.text for k in n.kids[1].kids[1:]]
                hd = n.kids[1].head
                if attr == "right-assoc-nil" or hd == "d":
                    for j, v in enumerate(vs):
                        add("(eo::is_eq (eo::list_nth %s (vars_%s %s) %d) %s)" % (hd, n.head, a, j, v))
            else:
                add("(eo::is_eq %s %s)" % (a, b))
        elif mode == "vars":
            n, u, m, v = other
            vn, vm = var(n, u), var(m, v)
            same = bare(n) == bare(m) and u == v
            add("(eo::is_eq %s %s)" % (vn, vm) if same else "(eo::not (eo::is_eq %s %s))" % (vn, vm))
            add("(eo::is_var %s)" % vn)
            add("(eo::is_eq (eo::typeof %s) %s)" % (vn, u))
            add("(eo::is_eq (eo::nameof %s) \"%s\")" % (vn, bare(n).replace('"', '""')))
            for c in CONSTS.get(u, []):
                if c[-1] in "01" and not c.isdigit():
                    add("(eo::not (eo::is_eq %s %s))" % (var(c, u), c))
                    add("(eo::not (eo::is_var %s))" % c)
            b0 = [y for y in binders if y[1] != "let"]
            if b0:
                y = b0[0]
                bd = "p0 p1" if y[1] == "two" else "p0"
                s1, s2 = "(%s ((%s %s)) %s)" % (y[0], n, u, bd), "(%s ((%s %s)) %s)" % (y[0], m, v, bd)
                f = "(eo::is_eq %s %s)" if same else "(eo::not (eo::is_eq %s %s))"
                if bare(n) not in ("p0", "p1") and bare(m) not in ("p0", "p1"):
                    add(f % (s1, s2))
            add("(eo::not (eo::is_ok %s))" % ["(eo::var 1 U)", "(eo::var \"x\" u0)", "(eo::var p0 U)", "(eo::var \"x\" (eo::add e e))"][i % 4])
        elif mode == "prem" and x == "Bool":
            # as assumption and argument
            tail += "(assume pa%d %s)\n(step pb%d %s :rule same :premises (pa%d) :args (%s))\n" % (i, a, i, a, i, b)
            q.items.append(None)
            q.items.pop()
            add("(eo::is_eq %s %s)" % (a, b))
        elif mode == "step" and x == "Bool":
            # steps that state the one for the other
            tail += "(step pc%d %s :rule giveb :args (%s))\n(step pd%d %s :rule giveb :args (%s))\n" % (i, a, b, i, b, a)
            add("(eo::is_eq %s %s)" % (a, b))
        else:
            add("(eo::is_eq %s %s)" % (a, b))
    return q.run(env, hdr + tail)


PARTS = [Part("nesting", gen, check, 12000, 300000)]
