"""C12: names resolve by lexical scope, and leaving a scope restores what it hid."""
import hashlib
from ..engine import Part, Discard, Violation

ID = "C12"
RULE = ("an evaluation is one probe of what a name stands for at some point of a history of declarations and scopes, or one "
        "final command that must be rejected; non-trivial if the name was declared more than once, or went out of scope; "
        "distinct by history and probe")
TECHNIQUE = ("stateful model-based property-based testing: random histories of declarations, definitions, binders and nested "
             "scopes with probes of every name, against a model of lexical scoping")
NOTE = ("Random search over histories with assume-push/step-pop, push/pop, reset, parameters of definitions, programs, rules and "
        "declarations, let, binders and included files. Identity is observed through aliases and types.")
ASSUMPTIONS = ["definitions are transparent (C11)", "applications of names with several types are decided in C13"]

NT = 4
NAMES = ["a", "b", "x", "y", "f0", "kk", "|a b|", "T9"]
PRE = "".join("(declare-const T%d Type)\n(declare-const kT%d T%d)\n(declare-const P%d (-> T%d Bool))\n" % (i, i, i, i, i) for i in range(NT)) + """(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule disch ((A Bool)) :assumption A :conclusion true)
(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)
"""


class Hist:
    def __init__(self, s):
        self.s = s
        self.out = []
        self.frames = [("base", {}, {}, {})]    # kind, names, programs, rules
        self.n = 0
        self.keys = []
        self.alldecl = {}
        self.gone = []

    def fresh(self, p):
        self.n += 1
        return "@%s%d" % (p, self.n)

    def look(self, name, k=1):
        for f in reversed(self.frames):
            if name in f[k]:
                return f[k][name]
        return None

    def emit(self, t):
        self.out.append(t + "\n")

    def wr(self, name):
        """a or |a| are the same"""
        if not name.startswith("|") and self.s.p(10):
            return "|%s|" % name
        return name

    def bind(self, name, what):
        self.frames[-1][1][name] = what
        self.alldecl.setdefault(name, []).append(what)

    def leave(self):
        f = self.frames.pop()
        for n in f[1]:
            self.gone.append(n)

    # what: ("c", type, alias) or ("p", formula)
    def declare(self):
        s = self.s
        name = s.pick(NAMES)
        m = s.n(11)
        w = self.wr(name)
        i = s.n(NT)
        if m < 6:
            if m == 5:
                self.emit("(declare-parameterized-const %s ((z T%d :implicit)) T%d)" % (w, s.n(NT), i))
            else:
                self.emit("(declare-const %s T%d)" % (w, i))
            a = self.fresh("i")
            self.emit("(define %s () %s)" % (a, self.wr(name)))
            self.bind(name, ("c", i, a))
        elif m < 8:
            other = s.pick(NAMES)
            o = self.look(other)
            if o is None or o[0] != "c":
                self.emit("(define %s () kT%d)" % (w, i))
                self.bind(name, ("c", i, "kT%d" % i))
            else:
                self.emit("(define %s () %s)" % (w, self.wr(other)))
                self.bind(name, o)
        elif m == 8:
            j = s.n(NT)
            self.emit("(define %s ((z T%d)) (eo::requires z kT%d kT%d))" % (w, i, i, j))
            self.bind(name, ("m", i, j))
        else:
            form = "(P%d kT%d)" % (i, i)
            if s.p(50):
                self.emit("(assume %s %s)" % (w, form))
            else:
                form = "true"
                self.emit("(step %s %s:rule chk :args (true))" % (w, s.pick(["", "true "])))
            self.bind(name, ("p", form))

    def probe(self, name=None):
        s = self.s
        name = name or s.pick(NAMES)
        o = self.look(name)
        q = self.fresh("q")
        w = self.wr(name)
        nt = len(self.alldecl.get(name, ())) > 1 or name in self.gone
        if o is None:
            return
        if o[0] == "p":
            t = "(step %s true :rule same :premises (%s) :args (%s))" % (q, w, o[1])
        elif o[0] == "m":
            t = "(step %s true :rule chk :args ((eo::is_eq (%s kT%d) kT%d)))" % (q, w, o[1], o[2])
        else:
            m = s.n(4)
            if m == 0:
                t = "(eo::is_eq (eo::typeof %s) T%d)" % (w, o[1])
            elif m == 1:
                t = "(eo::is_eq (eo::typeof (P%d %s)) Bool)" % (o[1], w)
            elif m == 2:
                others = []
                for f in self.frames:
                    for d in f[1].values():
                        if d[0] == "c" and d[2] != o[2]:
                            others.append(d)
                if others:
                    d = s.pick(others)
                    t = "(eo::not (eo::is_eq %s %s))" % (w, d[2])
                else:
                    t = "(eo::is_eq %s %s)" % (w, o[2])
            else:
                t = "(eo::is_eq %s %s)" % (w, o[2])
            t = "(step %s true :rule chk :args (%s))" % (q, t)
        self.emit(t)
        self.keys.append((len(self.out), nt))

    def local(self):
        """parameters, let variables and variables of binders hide names"""
        s = self.s
        ns = s.sub(NAMES, 1, 3)
        ts = [s.n(NT) for _ in ns]
        loc = dict(zip(ns, ts))
        m = s.n(7)
        if m == 3 and self.assumed():
            m = 4       # rules are declared at level zero
        # a name seen from inside
        cands = [(n, loc[n], None) for n in ns]
        for n in NAMES:
            if n not in loc:
                o = self.look(n)
                if o is not None and o[0] == "c":
                    cands.append((n, o[1], o[2]))
        n, t, al = s.pick(cands)
        w = self.wr(n)
        params = " ".join("(%s T%d)" % (x, i) for x, i in loc.items())
        d = self.fresh("l") + "_"
        q = self.fresh("q")
        args = " ".join("kT%d" % i for i in ts)
        body = "(eo::typeof %s)" % w
        if m == 0:
            self.emit("(define %s (%s) %s)" % (d, params, body))
            e = "(eo::is_eq (%s %s) T%d)" % (d, args, t)
            if al:
                self.emit("(define %s2 (%s) %s)" % (d, params, w))
                e = "(eo::and %s (eo::is_eq (%s2 %s) %s))" % (e, d, args, al)
        elif m == 1:
            self.emit("(program %s (%s) :signature (%s) Type (((%s %s) %s)))" % (
                d, params, " ".join("T%d" % i for i in ts), d, " ".join(ns), body))
            e = "(eo::is_eq (%s %s) T%d)" % (d, args, t)
        elif m == 2:
            # a program whose parameters have the same names, in a pattern
            self.emit("(program %s (%s) :signature (%s) T%d (((%s %s) %s)))" % (
                d, params, " ".join("T%d" % i for i in ts), t, d, " ".join(ns), w))
            e = "(eo::is_eq (%s %s) %s)" % (d, args, al or "kT%d" % t)
        elif m == 3:
            self.emit("(declare-rule %s (%s) :args (%s) :requires ((%s T%d) (%s %s)) :conclusion (P%d %s))" % (
                d, params, " ".join(ns), body, t, w, al or w, t, w))
            self.emit("(step %s (P%d %s) :rule %s :args (%s))" % (q, t, al or "kT%d" % t, d, args))
            self.keys.append((len(self.out), True))
            e = None
        elif m == 4:
            b = " ".join("(%s kT%d)" % (x, i) for x, i in loc.items())
            e = "(eo::is_eq (eo::define (%s) %s) %s)" % (b, w, al or "kT%d" % t)
        elif m == 5:
            e = "(eo::is_eq (eo::typeof (forall (%s) (P%d %s))) Bool)" % (params, t, w)
            if s.p(50):
                e = "(eo::is_eq (forall (%s) (P%d %s)) (_ forall (eo::List::cons %s) (P%d %s)))" % (
                    params, t, w, " ".join('(eo::var "%s" T%d)' % (x.strip("|"), i) for x, i in loc.items()), t,
                    al or '(eo::var "%s" T%d)' % (n.strip("|"), t))
        else:
            # parameters of a type
            v = s.pick(NAMES)
            if self.look(v) is None or self.look(v)[0] != "c":
                v = ns[0]
            self.emit("(declare-parameterized-const %s ((%s Type)) (-> %s %s))" % (d, v, v, v))
            e = "(eo::is_eq (eo::typeof (%s T%d kT%d)) T%d)" % (d, t, t, t)
        if e:
            self.emit("(step %s true :rule chk :args (%s))" % (q, e))
            self.keys.append((len(self.out), True))
        # afterwards they mean what they meant before
        for x in s.sub(ns, 0, 2):
            self.probe(x)

    def prog(self):
        s = self.s
        p = s.pick(["pr", "qr"])
        q = self.fresh("q")
        if self.look(p, 2) is None:
            if self.look(p) is not None:
                return
            i = s.n(NT)
            self.emit("(program %s ((z Type)) :signature (Type) Type (((%s z) T%d)))" % (p, p, i))
            self.frames[-1][2][p] = i
        i = self.look(p, 2)
        self.emit("(step %s true :rule chk :args ((eo::is_eq (%s Bool) T%d)))" % (q, p, i))
        self.keys.append((len(self.out), True))

    def rule(self):
        s = self.s
        r = s.pick(["ru", "rv", "a", "x"])
        q = self.fresh("q")
        if self.look(r, 3) is None:
            if self.assumed():
                return
            i = s.n(NT)
            self.emit("(declare-rule %s () :conclusion (P%d kT%d))" % (r, i, i))
            self.frames[-1][3][r] = i
        i = self.look(r, 3)
        self.emit("(step %s (P%d kT%d) :rule %s)" % (q, i, i, r))
        self.keys.append((len(self.out), True))

    def assumed(self):
        return any(f[0] == "assume" for f in self.frames)

    def scope(self):
        s = self.s
        m = s.n(6)
        if m < 2 and not self.assumed():
            k = s.pick([1, 1, 2, 3]) if s.p(95) else s.pick([4, 5, 8, 20])
            self.emit("(push%s)" % (" %d" % k if k > 1 or s.p(20) else ""))
            for _ in range(k):
                self.frames.append(("push", {}, {}, {}))
        elif m < 4:
            # the name of the assumption is local
            name = s.pick(NAMES)
            i = s.n(NT)
            self.frames.append(("assume", {}, {}, {}))
            self.emit("(assume-push %s (P%d kT%d))" % (self.wr(name), i, i))
            self.bind(name, ("p", "(P%d kT%d)" % (i, i)))
        else:
            self.close()

    def close(self):
        s = self.s
        top = self.frames[-1][0]
        if top == "assume":
            self.leave()
            name = s.pick(NAMES)
            self.emit("(step-pop %s true :rule disch)" % self.wr(name))
            self.bind(name, ("p", "true"))
        elif top == "push":
            k = 1
            while k < 30 and self.frames[-1 - k][0] == "push" and s.p(30 if k < 3 else 80):
                k += 1
            self.emit("(pop%s)" % (" %d" % k if k > 1 or s.p(20) else ""))
            for _ in range(k):
                self.leave()
        for _ in range(s.n(4)):
            self.probe()

    def reset(self):
        if self.s.p(30):
            self.emit("(reset)")
            while len(self.frames) > 1:
                self.leave()
            self.gone += list(self.frames[0][1])
            self.frames = [("base", {}, {}, {})]
            self.emit(PRE)


def gen(s):
    h = Hist(s)
    h.emit(PRE)
    for _ in range(s.r(5, 45)):
        m = s.n(22)
        if m < 6:
            h.declare()
        elif m < 12:
            h.probe()
        elif m < 15:
            h.local()
        elif m < 19:
            h.scope()
        elif m == 19:
            h.prog()
        elif m == 20:
            h.rule()
        else:
            h.reset()
    for n in NAMES:
        h.probe(n)
    final = None
    w = s.n(10)
    free = [n for n in NAMES if h.look(n) is None]
    gone = [n for n in free if n in h.gone] or free
    if w < 5 and gone:
        n = s.pick(gone)
        i = s.n(NT)
        final = s.pick([
            "(step @last true :rule chk :args ((eo::is_ok %s)))" % n,
            "(step @last true :rule same :premises (%s) :args (true))" % n,
            "(declare-const @last %s)" % n,
            "(define @last () %s)" % n,
            "(define @last () (P%d %s))" % (i, n),
            "(assume @last (P%d %s))" % (i, n),
            "(define @last ((z T0)) %s)" % n,
            "(step @last true :rule chk :args ((eo::define ((%s kT0) (z %s)) true)))" % (n, n),
            "(step @last true :rule chk :args ((eo::is_ok (forall ((z T0)) (P0 %s)))))" % n,
            "(program @last ((z T0)) :signature (T0) T0 (((@last z) %s)))" % n,
            "(declare-rule @last ((z %s)) :args (z) :conclusion true)" % n,
        ])
    elif w == 5:
        # the program or rule is gone
        p = s.pick(["pr", "qr"])
        if h.look(p, 2) is None:
            final = "(define @last () (%s Bool))" % p
    elif w == 6:
        r = s.pick(["ru", "rv", "a", "x"])
        final = "(step @last :rule %s)" % r if h.look(r, 3) is None else "(declare-rule %s () :conclusion true)" % r
        if h.look(r, 3) is not None and r not in h.frames[-1][3]:
            final = None
    elif w == 7:
        k = 0
        while h.frames[-1 - k][0] == "push":
            k += 1
        if not h.assumed():
            final = "(pop %d)" % (k + s.r(1, 2)) if k or s.p(50) else "(pop)"
    elif w == 8 and h.frames[-1][0] != "assume":
        final = "(step-pop @last true :rule disch)"
    closing = []
    if final is None:
        while h.assumed():
            # pushes are at level zero, so that only assumptions are on top
            closing.append(1)
            h.close()
    opts = s.sub(["--stats", "--no-print-dag", "--no-parse-let"], 0, 1)
    inc = None
    if s.p(30):
        # commands up to somewhere at level zero come from an included file
        lv, cuts = 0, []
        for i, t in enumerate(h.out):
            if t.startswith("(assume-push"):
                lv += 1
            elif t.startswith("(step-pop"):
                lv -= 1
            elif t.startswith("(reset"):
                lv = 0
            if lv == 0:
                cuts.append(i + 1)
        inc = sorted(s.pick(cuts) for _ in range(s.r(1, 3))) if cuts else None
    return h.out, h.keys, final, opts, inc


def check(case, env):
    out, keys, final, opts, inc = case
    files = {}
    if inc:
        main, p = "", 0
        for k, c in enumerate(inc):
            files["i%d.eo" % k] = "".join(out[p:c])
            main += '(include "i%d.eo")\n' % k
            p = c
        rest = out[p:]
    else:
        main, rest = "", out
    good = main + "".join(rest)
    if final is None:
        files["p.eo"] = good
        r = env.run(files, "p.eo", opts)
        env.notes["accepted"] = env.notes.get("accepted", 0) + 1
        if r.verdict != "correct":
            raise Violation("expected correct, but: %s" % r.show(), files, "ethos p.eo")
    else:
        files["p.eo"] = good + '(echo "BEFORE")\n' + final + "\n"
        r = env.run(files, "p.eo", opts)
        env.notes["rejected"] = env.notes.get("rejected", 0) + 1
        if b"BEFORE" not in r.out:
            raise Violation("expected acceptance up to the last command, but: %s" % r.show(), files, "ethos p.eo")
        if r.verdict != "reject":
            raise Violation("expected an error in the last command %s, but: %s" % (final, r.show()), files, "ethos p.eo")
    h = hashlib.md5("".join(out).encode()).hexdigest()
    text = "".join(out)
    res = [(text[:0] + str(h) + str(k), nt) for k, nt in keys]
    if final:
        res.append((str(h) + final, True))
    return res or [(text, False)]


# ----- the types of literals, across resets and scopes

LITS = {"numeral": ["0", "1", "7", "-1", "123456789012345678901234567890"], "string": ['"a"', '""', '"ab"', '"a""b"'],
        "binary": ["#b1", "#b01", "#b0000"], "rational": ["1/2", "-3/4", "2/1"]}
# types that depend on the literal
DEP = {"numeral": ("(eo::is_neg eo::self)", lambda x: x[0] == "-"), "rational": ("(eo::is_neg eo::self)", lambda x: x[0] == "-"),
       "string": ("(eo::is_ok (eo::to_z eo::self))", lambda x: x == '"a"'), "binary": ("(eo::is_bin eo::self)", lambda x: True)}


def gen_lits(s):
    segs = []
    for _ in range(s.r(2, 5)):
        decl = {}
        for k in s.sub(sorted(LITS), 1, 4):
            # a type of its own, a shared one, or one that depends on the literal
            decl[k] = s.pick(["own", "own", "T0", "dep"])
        cmds = []
        for _ in range(s.r(3, 12)):
            m = s.n(12)
            k = s.pick(sorted(decl))
            x = s.pick(LITS[k])
            if m < 3:
                cmds.append(("type", k, x))
            elif m < 5:
                cmds.append(("app", k, x))
            elif m < 6:
                cmds.append(("arg", k, x))
            elif m < 8:
                cmds.append(("list", k, x))
            elif m == 8:
                cmds.append(("again", k, x))
            elif m == 9:
                cmds.append(("scope", k, x))
            else:
                cmds.append(("def", k, x))
        # eo::to_z in the type of strings has the type of numerals
        if decl.get("string") == "dep" and "numeral" not in decl:
            decl["string"] = "own"
        segs.append((sorted(s.perm(sorted(decl)), key=lambda k: k == "string"), decl, cmds))
    final = None
    if s.p(35):
        final = (s.pick(["type", "decl", "app"]), s.n(8))
    return segs, final


def check_lits(case, env):
    segs, final = case
    out = []
    keys = []
    n = 0
    used = {}
    for g, (order, decl, cmds) in enumerate(segs):
        if g:
            out.append("(reset)\n")
        out.append("(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)\n"
                   "(declare-const T0 Type)\n(declare-parameterized-const tg ((A Type :implicit)) (-> A T0))\n"
                   "(declare-const Lst (-> Type Type))\n(declare-parameterized-const nl ((A Type)) (Lst A))\n"
                   "(declare-parameterized-const cn ((A Type :implicit)) (-> A (Lst A) (Lst A)))\n")
        ty = {}
        for k in order:
            d = decl[k]
            if d == "own":
                out.append("(declare-const S%d%s Type)\n(declare-consts <%s> S%d%s)\n" % (g, k, k, g, k))
                ty[k] = lambda x, k=k, g=g: "S%d%s" % (g, k)
            elif d == "T0":
                out.append("(declare-consts <%s> T0)\n" % k)
                ty[k] = lambda x: "T0"
            else:
                out.append("(declare-const D%d%s (-> Bool Type))\n(declare-consts <%s> (D%d%s %s))\n" % (g, k, k, g, k, DEP[k][0]))
                ty[k] = lambda x, k=k, g=g: "(D%d%s %s)" % (g, k, "true" if DEP[k][1](x) else "false")
            out.append("(declare-const P%s (-> %s Bool))\n" % (k, ty[k](LITS[k][0])))
        for c, k, x in cmds:
            n += 1
            t = ty[k](x)
            q = "(step @q%d true :rule chk :args (%%s))\n" % n
            if c == "type":
                out.append(q % ("(eo::is_eq (eo::typeof %s) %s)" % (x, t)))
            elif c == "app":
                out.append(q % ("(eo::is_eq (eo::typeof (cn %s (nl %s))) (Lst %s))" % (x, t, t)))
            elif c == "arg":
                if t == ty[k](LITS[k][0]):
                    out.append("(assume @a%d (P%s %s))\n" % (n, k, x))
                else:
                    out.append(q % ("(eo::not (eo::is_ok (eo::typeof (P%s %s))))" % (k, x)))
            elif c == "list":
                out.append("(define @d%d () (cn %s (cn %s (nl %s))) :type (Lst %s))\n" % (n, x, x, t, t))
            elif c == "again":
                # declaring the same is no change
                if decl[k] != "dep":
                    out.append("(declare-consts <%s> %s)\n" % (k, t))
            elif c == "scope":
                out.append("(push)\n(define @t%d () (tg %s) :type T0)\n(pop)\n" % (n, x))
            else:
                out.append("(define @d%d () %s :type %s)\n" % (n, x, t))
            nt = used.get(x, t) != t
            used[x] = t
            keys.append(("".join(out[-12:]), nt))
            env.notes["used before with another type" if nt else "first use of the type"] = \
                env.notes.get("used before with another type" if nt else "first use of the type", 0) + 1
    good = "".join(out)
    if final:
        order, decl, _ = segs[-1]
        k = order[final[1] % len(order)]
        x = LITS[k][final[1] % len(LITS[k])]
        if final[0] == "decl":
            good += "(declare-const Other Type)\n"
            bad = "(declare-consts <%s> Other)\n" % k
        elif final[0] == "type":
            good += "(declare-const Other Type)\n"
            bad = "(define other () %s :type Other)\n" % x
        else:
            # the type of an earlier part
            g = final[1] % (len(segs) - 1)
            k0 = segs[g][0][0]
            if segs[g][1][k0] == "T0":
                return keys
            bad = "(declare-const z %s%d%s)\n" % ("S" if segs[g][1][k0] == "own" else "D", g, k0)
        r = env.run({"p.eo": good + '(echo "BEFORE")\n' + bad}, "p.eo")
        if b"BEFORE" not in r.out:
            raise Violation("expected acceptance up to the last command, but: %s" % r.show(), {"p.eo": good + bad}, "ethos p.eo")
        if r.verdict != "reject":
            raise Violation("expected an error in the last command %s, but: %s" % (bad, r.show()), {"p.eo": good + bad}, "ethos p.eo")
        keys.append((good[-300:] + bad, True))
        return keys
    r = env.run({"p.eo": good}, "p.eo")
    if r.verdict != "correct":
        raise Violation("expected correct, but: %s" % r.show(), {"p.eo": good}, "ethos p.eo")
    return keys


PARTS = [Part("literal_types", gen_lits, check_lits, 1500, 40000),
         Part("histories", gen, check, 30000, 600000)]
