"""C13: overloaded and ambiguous symbols resolve by type."""
import hashlib
from ..engine import Part, Discard, Violation
from .. import sx

ID = "C13"
RULE = ("an evaluation is one application, eo::as or as of a symbol with several declarations in scope compared to the explicit "
        "application of the declaration it must denote, one final application no declaration fits, or one file before and after "
        "an overload at an unrelated type was added; non-trivial if at least two declarations of the name are in scope and the "
        "arguments exclude one of them; distinct by history and probe, or by file and place")
TECHNIQUE = ("stateful model-based property-based testing of overload histories against a model of resolution by type, and a "
             "metamorphic relation (adding an overload at a fresh type) over the corpus")
NOTE = ("Random search. Only applications that exactly one declaration fits, or several of the same type, are generated: the order "
        "of preference among different fits is not decided, since the manual and the tests disagree on it.")
ASSUMPTIONS = ["`(_ c a b)` for an alias c of one declaration denotes the application of that declaration (C09, C11)"]

BASE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Set (-> Type Type))
(declare-const Bag (-> Type Type))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)
(declare-rule disch ((A Bool)) :assumption A :conclusion true)
"""
SORTS = ["U", "V", "W", "Bool", "Int"]
CONSTS = {"U": ["u0", "u1"], "V": ["v0", "v1"], "W": ["w0"], "Bool": ["true", "b0"], "Int": ["3", "n0"],
          ("Set", "U"): ["su"], ("Set", "V"): ["sv"], ("Bag", "U"): ["bu"], ("Fn",): ["fn0"]}


def ty(t):
    if isinstance(t, str):
        return t
    return "(-> U U)" if t == ("Fn",) else "(%s %s)" % (t[0], ty(t[1]))


PRE = BASE + "".join("(declare-const %s Type)\n" % t for t in "UVW") + "".join(
    "(declare-const %s %s)\n" % (c, ty(t)) for t, cs in CONSTS.items() for c in cs if c[-1].isdigit() and not c.isdigit() or c in ("su", "sv", "bu"))
ARGS = list(CONSTS)
NAMES = ["f", "g", "-", "|f g|"]


class Ov:
    """kind: fn, op (attr), const, poly"""

    def __init__(self, kind, args, res, alias, attr=None, nil=None):
        self.kind, self.args, self.res, self.alias, self.attr, self.nil = kind, args, res, alias, attr, nil

    def same(self, o):
        return (self.kind, self.args, self.res, self.attr, self.nil) == (o.kind, o.args, o.res, o.attr, o.nil)

    def fits(self, ts):
        """the type of the application to arguments of types ts, None if it
        is ill typed, '?' if that is not decided"""
        n = len(ts)
        if self.kind == "const":
            return None
        if self.kind == "op":
            e = self.args[0]
            if self.attr == "chainable" and n < 2:
                return "?"      # denotes true without its argument
            if any(t != e for t in ts):
                return None
            return self.res
        if n > len(self.args):
            return None
        if self.kind == "poly":
            # (Set T) ... -> T
            sub = None
            for p, t in zip(self.args, ts):
                if p[1:] == ("T",):
                    if t[0] != p[0]:
                        return None
                    t = t[1]
                elif p != "T":
                    if t != p:
                        return None
                    continue
                if sub is not None and sub != t:
                    return None
                sub = t
            if n < len(self.args):
                return "?"
            return sub if self.res == "T" else self.res
        if any(p != t for p, t in zip(self.args, ts)):
            return None
        if n < len(self.args):
            return ("->",) + tuple(self.args[n:]) + (self.res,)
        return self.res

    def explicit(self, args):
        if self.kind == "op":
            if self.attr == "chainable":
                ps = ["(_ %s %s %s)" % (self.alias, a, b) for a, b in zip(args, args[1:])]
                if len(ps) == 1:
                    return ps[0]
                t = "true"
                for p in reversed(ps):
                    t = "(_ and %s %s)" % (p, t)
                return t
            t = self.nil
            for a in (reversed(args) if self.attr.startswith("right") else args):
                t = "(_ %s %s)" % (self.alias, "%s %s" % ((a, t) if self.attr.startswith("right") else (t, a)))
            return t
        return "(_ %s %s)" % (self.alias, " ".join(args)) if args else self.alias


def tyx(t):
    if isinstance(t, tuple) and t[0] == "->":
        return "(-> %s)" % " ".join(tyx(x) for x in t[1:])
    return ty(t)


class Hist:
    def __init__(self, s):
        self.s, self.out, self.n = s, [], 0
        self.frames = [{}]
        self.kinds = ["base"]
        self.keys = []
        self.names = s.sub(NAMES, 1, 3)
        self.assumes = 0

    def fresh(self, p):
        self.n += 1
        return "@%s%d" % (p, self.n)

    def emit(self, t):
        self.out.append(t + "\n")

    def ovs(self, name):
        return [o for f in self.frames for o in f.get(name, ())]

    def resolve(self, name, ts):
        ovs = self.ovs(name)
        fit = [(o, o.fits(ts)) for o in ovs]
        if any(t == "?" for _, t in fit):
            return None, "?"
        fit = [(o, t) for o, t in fit if t is not None]
        if not fit:
            return None, None
        if all(o.same(fit[-1][0]) for o, _ in fit):
            return fit[-1]
        return None, "?"

    def declare(self):
        s = self.s
        name = s.pick(self.names)
        al = self.fresh("f")
        m = s.n(12)
        old = self.ovs(name)
        if old and s.p(15):
            o = s.pick(old)
            o = Ov(o.kind, o.args, o.res, al, o.attr, o.nil)
        elif m < 6:
            o = Ov("fn", tuple(s.pick(ARGS) for _ in range(s.w([(4, 1), (5, 2), (2, 3)]))), s.pick(SORTS), al)
        elif m < 9:
            e = s.pick(SORTS)
            a = s.pick(["right-assoc-nil", "left-assoc-nil", "chainable"])
            if a == "chainable":
                o = Ov("op", (e, e), "Bool", al, a)
            else:
                o = Ov("op", (e, e), e, al, a, CONSTS[e][-1])
        elif m < 10:
            o = Ov("const", (), s.pick(SORTS), al)
        else:
            c = s.pick(["Set", "Bag"])
            o = Ov("poly", s.pick([((c, "T"),), ((c, "T"), "T"), ("T", (c, "T")), ((c, "T"), (c, "T")), ((c, "T"), "U")]), s.pick(["T", "U", "Bool"]), al)
        if o.kind == "poly":
            self.emit("(declare-parameterized-const %s ((T Type :implicit)) (-> %s %s))" % (name, " ".join(ty(t) for t in o.args), o.res))
        elif o.kind == "const":
            self.emit("(declare-const %s %s)" % (name, o.res))
        else:
            at = ""
            if o.kind == "op":
                at = " :%s %s" % (o.attr, "and" if o.attr == "chainable" else o.nil)
            self.emit("(declare-const %s (-> %s %s)%s)" % (name, " ".join(ty(t) for t in o.args), o.res, at))
        # a name alone is its most recent declaration
        self.emit("(define %s () %s)" % (al, name))
        self.frames[-1].setdefault(name, []).append(o)

    def term(self, t, d, loc=None):
        """(text, explicit text, overloaded heads) of a term of type t"""
        s = self.s
        if d > 0 and s.p(60):
            for _ in range(6):
                name = s.pick(self.names)
                r = self.app(name, d, loc)
                if r and r[2] == t:
                    return r[0], r[1]
        ls = [x for x, u in (loc or {}).items() if u == t]
        if ls and s.p(60):
            x = s.pick(ls)
            return x, x
        x = s.pick(CONSTS[t])
        return x, x

    def app(self, name, d=1, loc=None):
        """an application: (text, explicit text, type, number of overloads)"""
        s = self.s
        ovs = self.ovs(name)
        if not ovs:
            return None
        o = s.pick(ovs)
        if o.kind == "const":
            return None
        if o.kind == "op":
            n = s.w([(4, 2), (2, 1), (2, 3)])
            ts = [o.args[0]] * n
        elif o.kind == "poly":
            x = s.pick("UV") if ("Bag", "T") not in o.args else "U"
            ts = [x if p == "T" else (p[0], x) if p[1:] == ("T",) else p for p in o.args]
        else:
            ts = list(o.args)[:len(o.args) if s.p(80) else s.r(1, len(o.args))]
        o, t = self.resolve(name, ts)
        if o is None:
            return None
        args = [self.term(u, d - 1, loc) for u in ts]
        return ("(%s %s)" % (name, " ".join(a[0] for a in args)), o.explicit([a[1] for a in args]), t, len(ovs))

    def probe(self):
        s = self.s
        name = s.pick(self.names)
        q = self.fresh("q")
        m = s.n(12)
        loc = None
        ls = [t for t in ARGS if s.p(40)]
        if 4 <= m < 9:
            loc = {"x%d" % i: t for i, t in enumerate(ls)}
        r = self.app(name, 2, loc)
        ovs = self.ovs(name)
        if m >= 10 and ovs:
            return self.as_()
        if r is None:
            return
        a, e, t, k = r
        params = " ".join("(%s %s)" % (x, ty(u)) for x, u in (loc or {}).items())
        vals = [s.pick(CONSTS[u]) for u in (loc or {}).values()]
        d = self.fresh("d")
        if m < 2 or (loc is not None and not loc):
            c = "(eo::is_eq %s %s)" % (a, e)
        elif m < 4:
            c = "(eo::is_eq (eo::typeof %s) %s)" % (a, tyx(t))
        elif m < 6:
            self.emit("(define %s (%s) (eo::is_eq %s %s))" % (d, params, a, e))
            c = "(%s %s)" % (d, " ".join(vals))
        elif m == 6:
            self.emit("(program %s (%s) :signature (%s) Bool (((%s %s) (eo::is_eq %s %s))))" % (
                d, params, " ".join(map(ty, loc.values())), d, " ".join(loc), a, e))
            c = "(%s %s)" % (d, " ".join(vals))
        elif m == 7:
            # in a pattern
            if not isinstance(t, str):
                return
            used = [x for x in loc if x in sx_atoms(e)]
            if not used:
                return
            x = s.pick(used)
            sub = dict(zip(loc, vals))
            self.emit("(program %s (%s) :signature (%s) %s (((%s %s) %s)))" % (d, params, t, ty(loc[x]), d, a, x))
            c = "(eo::is_eq (%s %s) %s)" % (d, subst(e, sub), sub[x])
        elif m == 8:
            if self.assumes:
                return
            used = [x for x in loc if x in sx_atoms(e)]
            if t != "Bool" or set(used) != set(loc):
                return
            sub = dict(zip(loc, vals))
            h = self.fresh("h")
            self.emit("(declare-rule %s (%s) :premises (%s) :conclusion %s)" % (d, params, a, a))
            self.emit("(assume %s %s)" % (h, subst(e, sub)))
            self.emit("(step %s %s :rule %s :premises (%s))" % (q, subst(e, sub), d, h))
            self.keys.append((len(self.out), k > 1))
            return
        else:
            self.emit("(define %s () (eo::define ((z %s)) z))" % (d, a))
            c = "(eo::is_eq %s %s)" % (d, e)
        self.emit("(step %s true :rule chk :args (%s))" % (q, c))
        self.keys.append((len(self.out), k > 1))

    def as_(self):
        s = self.s
        name = s.pick(self.names)
        ovs = [o for o in self.ovs(name) if o.kind in ("fn", "const")]
        if not ovs or any(o.kind == "op" for o in self.ovs(name)):
            return
        o = s.pick(ovs)
        # the most recent one of that type
        same = [x for x in self.ovs(name) if x.kind in ("fn", "const") and (x.args, x.res) == (o.args, o.res)]
        if any(x.kind == "poly" and x.fits(o.args) not in (None,) for x in self.ovs(name)):
            return
        t = o.res if o.kind == "const" else "(-> %s %s)" % (" ".join(map(ty, o.args)), o.res)
        q = self.fresh("q")
        self.emit("(step %s true :rule chk :args ((eo::is_eq (eo::as %s %s) %s)))" % (q, name, t, same[-1].alias))
        self.keys.append((len(self.out), len(self.ovs(name)) > 1))

    def scope(self):
        s = self.s
        if len(self.frames) > 1 and s.p(50):
            self.close()
        elif self.assumes or s.p(40):
            self.emit("(assume-push %s true)" % self.fresh("a"))
            self.frames.append({})
            self.kinds.append("assume")
            self.assumes += 1
        else:
            self.emit("(push)")
            self.frames.append({})
            self.kinds.append("push")

    def close(self):
        self.frames.pop()
        if self.kinds.pop() == "assume":
            self.assumes -= 1
            self.emit("(step-pop %s true :rule disch)" % self.fresh("a"))
        else:
            self.emit("(pop)")


def sx_atoms(t):
    return {t[a:b] for a, b, k in sx.tokens(t) if k in "aq"}


def subst(t, m):
    return sx.replace(t, [(a, b, m[t[a:b]]) for a, b, k in sx.tokens(t) if k == "a" and t[a:b] in m])


def gen(s):
    h = Hist(s)
    h.emit(PRE)
    for _ in range(s.r(2, 4)):
        h.declare()
    for _ in range(s.r(6, 36)):
        m = s.n(20)
        if m < 4:
            h.declare()
        elif m < 17:
            h.probe()
        else:
            h.scope()
    for _ in range(4):
        h.probe()
    final = None
    if s.p(40):
        # no declaration fits
        name = s.pick(h.names)
        ts = [s.pick(ARGS) for _ in range(s.r(1, 3))]
        if h.ovs(name) and h.resolve(name, ts) == (None, None):
            a = "(%s %s)" % (name, " ".join(s.pick(CONSTS[t]) for t in ts))
            final = s.pick(["(define @last () %s :type Bool)" % a,
                            "(define @last () %s :type U)" % a,
                            "(assume @last %s)" % a,
                            "(step @last %s :rule chk :args (true))" % a,
                            "(define @last () (_ and %s true) :type Bool)" % a])
            nt = len(h.ovs(name)) > 1
            h.keys.append((final, nt))
    if final is None:
        while h.assumes:
            h.close()
    return h.out, h.keys, final


def check(case, env):
    out, keys, final = case
    files = {"p.eo": "".join(out)}
    if final:
        files["p.eo"] += '(echo "BEFORE")\n' + final + "\n"
    r = env.run(files, "p.eo")
    if final is None:
        env.notes["accepted"] = env.notes.get("accepted", 0) + 1
        if r.verdict != "correct":
            raise Violation("expected correct, but: %s" % r.show(), files, "ethos p.eo")
    else:
        env.notes["rejected"] = env.notes.get("rejected", 0) + 1
        if b"BEFORE" not in r.out:
            raise Violation("expected acceptance up to the last command, but: %s" % r.show(), files, "ethos p.eo")
        if r.verdict != "reject":
            raise Violation("no overload fits in the last command, which was not rejected: %s" % r.show(), files, "ethos p.eo")
    h = hashlib.md5("".join(out).encode()).hexdigest()
    return [(h + str(k), nt) for k, nt in keys] or [(h, False)]


# -- ambiguous functions

def gen_amb(s):
    out = [PRE]
    keys = []
    decls = {"mk": [], "mk2": []}
    cons = ["Set", "Bag", "Pr"]
    out.append("(declare-const Pr (-> Type Type Type))\n")
    for i in range(s.r(1, 5)):
        n = s.pick(list(decls))
        c = s.pick(cons)
        if any(d[0] == c for d in decls[n]):
            continue
        argt = tuple(s.pick(["U", "V", "Bool", "T"]) for _ in range(s.w([(4, 0), (4, 1), (2, 2)])))
        if c != "Pr" and "T" in argt:
            argt = tuple("U" if t == "T" else t for t in argt)   # T would not be ambiguous
        ps = "(S Type :implicit)" + (" (T Type :implicit)" if c == "Pr" else "")
        ret = "(%s S%s)" % (c, " T" if c == "Pr" else "")
        al = "@m%d" % i
        out.append("(declare-parameterized-const %s (%s) %s)\n(define %s () %s)\n" % (
            n, ps, "(-> %s %s)" % (" ".join(argt), ret) if argt else ret, al, n))
        if s.p(30):
            out.append("(declare-const %s (-> W W))\n" % n)
        decls[n].append((c, argt, al))
    k = 0
    ts = ["U", "V", "Bool", "(Set U)", "Int"]

    def inst(d):
        c, argt, al = d
        S, T = s.pick(ts), s.pick(["U", "V", "Bool"])
        return "(%s %s%s)" % (c, S, " " + T if c == "Pr" else ""), [CONSTS[T if t == "T" else t][0] for t in argt]
    alld = [(n, d) for n in decls for d in decls[n]]
    for _ in range(s.r(2, 8)):
        if not alld:
            break
        n, d = s.pick(alld)
        t, args = inst(d)
        k += 1
        m = s.n(4)
        a = "(as %s %s)" % (n, t)
        e = "(as %s %s)" % (d[2], t)
        if args:
            a = "(%s %s)" % (a, " ".join(args))
            e = "(_ %s %s)" % (e, " ".join(args))
        if m == 0:
            out.append("(define @d%d () %s :type %s)\n" % (k, a, t))
        elif m == 1:
            out.append("(step @q%d true :rule chk :args ((eo::is_eq (eo::typeof %s) %s)))\n" % (k, a, t))
        elif m == 2 or len(decls[n]) > 1 and m == 3:
            # overloads may be declared before the alias's declaration
            out.append("(step @q%d true :rule chk :args ((eo::is_eq %s %s)))\n" % (k, a, e if len(decls[n]) == 1 or True else a))
        else:
            t2, args2 = inst(d)
            b = "(as %s %s)" % (n, t2)
            if args2:
                b = "(%s %s)" % (b, " ".join(args2))
            out.append("(step @q%d true :rule chk :args ((eo::is_eq (eo::is_eq %s %s) %s)))\n" % (
                k, a, b, "true" if (t, args) == (t2, args2) else "false"))
        keys.append((k, True))
    final = None
    if alld and s.p(40):
        n, d = s.pick(alld)
        free = [c for c in cons if c not in [x[0] for x in decls[n]]]
        bad = ["(Set U V)", "3", "Set"]
        if free:
            c = s.pick(free)
            bad += ["(%s U%s)" % (c, " U" if c == "Pr" else "")] * 4 + ["U", "Bool", "W"]
        t = s.pick(bad)
        final = s.pick(["(define @last () (as %s %s) :type %s)" % (n, t, t),
                        "(declare-const @p (-> %s Bool))\n(assume @last (@p (as %s %s)))" % (t, n, t)])
    return out, keys, final


# -- an overload at a fresh type changes nothing

def setup_worker(env):
    env.base = [(n, t, v) for n, t, v in sx.accepted(env) if len(t) < 60000]


HEADLESS = {"eo::nil", "eo::cons", "eo::list_concat", "eo::list_len", "eo::list_nth", "eo::list_find", "eo::list_rev", "eo::list_erase",
            "eo::list_erase_all", "eo::list_setof", "eo::list_minclude", "eo::list_meq", "eo::list_diff", "eo::list_inter",
            "eo::list_singleton_elim", "_", "as", "eo::as", "eo::typeof", "eo::nameof", "declare-const"}


def places(text):
    """functions all of whose occurrences are heads: [(name, command index)]"""
    cs = sx.parse(text)
    decl, bad, prev = {}, set(), {}
    for i, c in enumerate(cs):
        if c.head in ("declare-const", "declare-parameterized-const") and len(c.kids) > 2:
            n = c.kids[1].text
            if n in decl:
                bad.add(n)
            decl[n] = i
            ty = c.kids[3 if c.head[8] == "p" and len(c.kids) > 3 else 2]
            if ty.head != "->" and c.head == "declare-const":
                bad.add(n)
            scan = c.kids[2:]
            if ":binder" in c.text or ":let-binder" in c.text:
                bad.add(n)
        else:
            scan = [c]
        for x in scan:
            for y in x.walk():
                if y.k == "(" and y.kids:
                    for p, z in zip(y.kids, y.kids[1:]):
                        if z.k in "aq":
                            bad.add(z.text)
                        elif p.text[0] == ":" and z.kids:
                            bad.add(z.kids[0].text)     # a list, not an application
                    if len(y.kids) == 1:
                        bad.add(y.kids[0].text)
            if x.k in "aq":
                bad.add(x.text)
        if c.head in ("reset", "push", "pop"):
            bad.update(decl)
    return cs, [(n, i) for n, i in decl.items() if n not in bad and not any("|" in x for x in (n,))]


def gen_fresh(s):
    return s.n(1 << 30), s.n(1 << 30), s.n(1 << 30), s.n(4), s.p(50)


FRESH = ["(declare-const %s (-> @@Z @@Z))", "(declare-const %s (-> @@Z @@Z @@Z))", "(declare-const %s (-> @@Z @@Z @@Z) :right-assoc-nil @@z)",
         "(declare-const %s (-> @@Z Bool @@Z))"]


def check_fresh(case, env):
    a, b, c, kind, after = case
    name, text, v = env.base[a % len(env.base)]
    if not hasattr(env, "pl"):
        env.pl = {}
    if name not in env.pl:
        env.pl[name] = places(text)
    cs, pl = env.pl[name]
    if not pl:
        raise Discard()
    f, i = pl[b % len(pl)]
    if after:
        j = i + 1 + c % (len(cs) - i)
        pos = cs[j].a if j < len(cs) else len(text)
        later = text[pos:]
        if cs[i].head != "declare-const" and "-nil" in cs[i].text:
            raise Discard()     # the type of its non-ground applications is not known
        if any(x.head in ("program", "define", "declare-rule", "declare-parameterized-const") and any(y.k in "aq" and y.text == f for y in x.walk()) for x in cs[j:]):
            raise Discard()     # bodies with parameters: the types of their applications need not be known
        if "(%s " % f not in later and "(%s\n" % f not in later:
            raise Discard()
    else:
        pos = cs[i].a
    d = FRESH[kind] % f
    t = text[:pos] + "\n(declare-const @@Z Type)(declare-const @@z @@Z)\n%s\n" % d + text[pos:]
    files = {"p.eo": t}
    r = env.run(files, "p.eo")
    if r.verdict != v:
        raise Violation("%s is %s, but with an overload of %s at a fresh type: %s" % (name, v, f, r.show()), files, "ethos p.eo")
    return [(name + f + str(pos) + str(kind), True)]


PARTS = [Part("histories", gen, check, 16000, 400000),
         Part("ambiguous", gen_amb, check, 4000, 80000),
         Part("fresh", gen_fresh, check_fresh, 5000, 100000)]
