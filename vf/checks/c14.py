"""C14: datatype declarations introduce exactly the declared signature."""
from ..engine import Part, Discard, Violation
from ..eo import CHK
from .. import sx

ID = "C14"
VARIANTS = ["release"]
RULE = ("an evaluation is one question about one symbol, application, list of constructors or list of selectors, or one final "
        "command that has to be rejected; non-trivial if it involves a parametric or nested type, an application with "
        "arguments, a list of two or more symbols, or a rejection; distinct by text of the declaration and the question")
TECHNIQUE = ("model-based property-based testing: random declarations of datatypes (simple, mutually recursive, nested, parametric, "
             "ambiguous, with overloaded selectors, in scopes that are left and entered again) against a reference model of the "
             "signature they introduce, with first-order matching as the typing rule")
NOTE = "Random search; partial applications are only typed where the remaining type is ground."
ASSUMPTIONS = ["applications of a partially instantiated ambiguous constructor are not judged",
               "empty constructor lists, repeated parameters and constructors of one name in one block are not generated"]

HEAD = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const Set (-> Type Type))
(declare-const Arr (-> Type Type Type))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(program $cs ((T Type)) :signature (Type) eo::List ((($cs T) (eo::dt_constructors T))))
(program $cx ((D Type) (x D)) :signature (D) eo::List ((($cx x) (eo::dt_constructors (eo::typeof x)))))
(program $ss ((C Type) (c C)) :signature (C) eo::List ((($ss c) (eo::dt_selectors c))))
"""

BASE = ["Int", "U", "V", "Bool"]


def T(n, *a):
    return ('t', n, a)


def V(n):
    return ('v', n)


def pt(t):
    if t[0] == 'v' or not t[2]:
        return t[1]
    return "(%s %s)" % (t[1], " ".join(map(pt, t[2])))


def sub(t, m):
    if t[0] == 'v':
        return m.get(t[1], t)
    return ('t', t[1], tuple(sub(x, m) for x in t[2]))


def tvars(t, out=None):
    out = [] if out is None else out
    if t[0] == 'v':
        out.append(t[1])
    else:
        for x in t[2]:
            tvars(x, out)
    return out


def match(p, t, m):
    if p[0] == 'v':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    return t[0] == 't' and p[1] == t[1] and len(p[2]) == len(t[2]) and all(match(a, b, m) for a, b in zip(p[2], t[2]))


class DT:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.type = T(name, *[V(p) for p in params])
        self.cons = []         # (name, [(selector, type)], ambiguous)


class Block:
    """one declaration: its text and datatypes"""


def rtype(s, depth, dts, params=(), fn=True):
    """a random type over the datatypes (name, arity) and the parameters"""
    m = s.n(10)
    if depth <= 0 or m < 3:
        if params and s.p(60):
            return V(s.pick(params))
        z = [n for n, k in dts if k == 0]
        return T(s.pick(z)) if z and s.p(50) else T(s.pick(BASE))
    if m == 3:
        return T("Set", rtype(s, depth - 1, dts, params))
    if m == 4:
        return T("Arr", rtype(s, depth - 1, dts, params), rtype(s, depth - 1, dts, params))
    if m == 5 and fn:
        return T("->", rtype(s, depth - 1, dts, params, False), rtype(s, 0, [], params, False))
    if not dts:
        return T(s.pick(BASE))
    n, k = s.pick(dts)
    return T(n, *[rtype(s, depth - 1, dts, params) for _ in range(k)])


def block(s, names, known, selpool):
    """a block of datatypes over the known ones [(name, arity)]"""
    single = s.p(40)
    k = 1 if single else s.w([(3, 1), (4, 2), (2, 3)])
    ds = []
    for _ in range(k):
        ar = s.w([(4, 0), (3, 1), (2, 2), (1, 3)])
        ps = []
        while len(ps) < ar:
            p = s.pick(["X", "Y", "Z", "U", "T", "Int", "W"])
            if p not in ps:
                ps.append(p)
        ds.append(DT(names.pop(0), ps))
    inner = [(d.name, len(d.params)) for d in ds]
    out = []
    for d in ds:
        cs = []
        shadow = set(d.params)
        pool = [x for x in known + inner + inner + inner if x[0] not in shadow]
        sels = set()
        for _ in range(s.w([(3, 1), (4, 2), (3, 3), (1, 5)])):
            c = names.pop(0)
            if s.p(10):
                c = "|%s|" % c
            fs = []
            for _ in range(s.w([(3, 0), (3, 1), (3, 2), (2, 3), (1, 4)])):
                n = s.pick(selpool) if s.p(25) else names.pop(0)
                if n in sels:
                    n = names.pop(0)
                sels.add(n)
                t = rtype(s, s.w([(3, 0), (3, 1), (2, 2)]), pool, d.params)
                if shadow & set(BASE):
                    t = fix(t, shadow)
                fs.append((n, t))
            amb = bool(set(d.params) - {v for _, t in fs for v in tvars(t)})
            d.cons.append((c.strip("|"), fs, amb))
            cs.append("(%s%s)" % (c, "".join(" (%s %s)" % (n, pt(t)) for n, t in fs)))
        body = "(%s)" % " ".join(cs)
        out.append("(par (%s) %s)" % (" ".join(d.params), body) if d.params else body)
    if single:
        txt = "(declare-datatype %s %s)" % (ds[0].name, out[0])
    else:
        txt = "(declare-datatypes (%s) (%s))" % (" ".join("(%s %d)" % x for x in inner), " ".join(out))
    return txt, ds


def fix(t, shadow):
    """sorts shadowed by parameters are the parameters"""
    if t[0] == 't' and not t[2] and t[1] in shadow:
        return V(t[1])
    if t[0] == 't':
        return ('t', t[1], tuple(fix(x, shadow) for x in t[2]))
    return t


class W:
    """what is declared at some point"""
    def __init__(self):
        self.dts = []
        self.sels = []        # (name, datatype, type), oldest first
        self.konst = {}
        self.lines = []

    def copy(self):
        w = W()
        w.dts, w.sels, w.konst, w.lines = list(self.dts), list(self.sels), dict(self.konst), self.lines
        return w

    def k(self, t, i=0):
        key = (t, i)
        if key not in self.konst:
            n = "k%d" % len(self.lines)
            self.konst[key] = n
            self.lines.append(("(declare-const %s %s)" % (n, pt(t)), None))
        return self.konst[key]

    def add(self, d):
        self.dts.append(d)
        for _, fs, _ in d.cons:
            for n, t in fs:
                self.sels.append((n, d, t))

    def sel(self, name, arg):
        """type of the selector of that name applied to type arg"""
        for n, d, t in reversed(self.sels):
            m = {}
            if n == name and match(d.type, arg, m):
                return sub(t, m)
        return None


def ground(s, w, depth=2):
    """a ground type"""
    return rtype(s, depth, [(d.name, len(d.params)) for d in w.dts] * 2, (), s.p(20))


def term(s, w, t, depth):
    """a term of ground type t"""
    d = [d for d in w.dts if d.name == t[1] and t[0] == 't']
    if not d or depth <= 0 or s.p(25):
        if t == T("Int") and s.p(40):
            return str(s.n(20))
        if d and s.p(25):
            pass
        # a selector or an updater of that result
        c = [(n, x, ty) for n, x, ty in w.sels if depth > 0 and match(ty, t, {})]
        if c and s.p(50):
            n, x, ty = s.pick(c)
            m = {}
            match(ty, t, m)
            for p in x.params:
                m.setdefault(p, T(s.pick(BASE)))
            a = sub(x.type, m)
            if w.sel(n, a) == t:
                return "(%s %s)" % (n, term(s, w, a, depth - 1))
        return w.k(t, s.n(2))
    d = d[0]
    m = {}
    match(d.type, t, m)
    if s.p(15):
        fs = [(n, ty) for n, x, ty in w.sels if x is d and w.sel(n, t) == sub(ty, m)]
        if fs:
            n, ty = s.pick(fs)
            return "(update-%s %s %s)" % (n, term(s, w, t, depth - 1), term(s, w, sub(ty, m), depth - 1))
    c, fs, amb = s.pick(d.cons)
    args = [term(s, w, sub(ty, m), depth - 1) for _, ty in fs]
    h = "(as %s %s)" % (c, pt(t)) if amb else c
    if not args:
        return h
    return "(%s %s)" % (h, " ".join(args)) if s.p(80) else curry(h, args)


def curry(h, args):
    for a in args:
        h = "(_ %s %s)" % (h, a)
    return h


def elist(xs):
    return "(eo::List::cons %s)" % " ".join(xs) if xs else "eo::List::nil"


def questions(s, w, out):
    """append questions about the signature"""
    def ask(q, nt=True):
        out.append(q)
        w.lines.append(("(step q%d true :rule chk :args (%s))" % (len(w.lines), q), (q, nt)))

    def typ(x, t, nt=True):
        ask("(eo::is_eq (eo::typeof %s) %s)" % (x, pt(t)), nt)

    for d in w.dts:
        m = {p: ground(s, w, 1) for p in d.params}
        dt = sub(d.type, m)
        par = bool(d.params)
        if s.p(60):
            typ(d.name, T("->", *[T("Type")] * (len(d.params) + 1)) if par else T("Type"), par)
        # constructors
        for c, fs, amb in d.cons:
            h = "(as %s %s)" % (c, pt(dt)) if amb else c
            args = [term(s, w, sub(t, m), 1) for _, t in fs]
            if s.p(70):
                typ("(%s %s)" % (h, " ".join(args)) if args else h, dt, par or bool(args))
            if not par or amb:
                # the constructor itself and partial applications
                rest = [sub(t, m) for _, t in fs]
                j = s.n(len(fs) + 1)
                x = curry(h, args[:j]) if s.p(50) or not j else "(%s %s)" % (h, " ".join(args[:j]))
                typ(x, T("->", *rest[j:], dt) if rest[j:] else dt, par or bool(j))
            if s.p(30):
                ask("(eo::is_eq (eo::nameof %s) \"%s\")" % (c, c), False)
            k = w.k(dt, s.n(2))
            if s.p(60):
                typ("(is-%s %s)" % (c, k), T("Bool"), par)
            if not par and s.p(40):
                typ("is-%s" % c, T("->", dt, T("Bool")), False)
            for n, t in fs:
                r = w.sel(n, dt)
                st = sub(t, m)
                if s.p(60):
                    typ("(%s %s)" % (n, term(s, w, dt, s.n(2))), r, par)
                if r == st and s.p(60):
                    typ("(update-%s %s %s)" % (n, term(s, w, dt, s.n(2)), term(s, w, st, s.n(2))), dt, True)
                last = [x for x in w.sels if x[0] == n][-1]
                if not par and last[1] is d:
                    if s.p(30):
                        typ(n, T("->", dt, st), False)
                    if s.p(30):
                        typ("update-" + n, T("->", dt, st, dt), False)
            # selectors
            if all([x for x in w.sels if x[0] == n][-1][1] is d for n, _ in fs):
                l = elist([n for n, _ in fs])
                nt = len(fs) > 1
                ask("(eo::is_eq (eo::dt_selectors %s) %s)" % (c, l), nt)
                ask("(eo::is_eq ($ss %s) %s)" % (h, l), nt)
                if amb:
                    ask("(eo::is_eq (eo::dt_selectors %s) %s)" % (h, l), True)
            elif fs:
                ask("(eo::is_ok (eo::dt_selectors %s))" % c)
            if args and s.p(40):
                a = "(%s %s)" % (h, " ".join(args))
                ask("(eo::not (eo::is_ok (eo::dt_selectors %s)))" % a)
                if len(args) > 1 and (not par or amb):
                    ask("(eo::not (eo::is_ok (eo::dt_selectors %s)))" % curry(h, args[:1]))
            if s.p(20):
                ask("(eo::not (eo::is_ok (eo::dt_constructors %s)))" % h)
            for n, _ in fs:
                if s.p(15):
                    ask("(eo::not (eo::is_ok (eo::dt_selectors %s)))" % s.pick([n, "update-" + n, "is-" + c]))
        # constructors of the type
        if s.p(60):
            cs = [c for c, _, _ in d.cons]
            f = s.pick(["(eo::dt_constructors %s)", "($cs %s)"]) if not par else "(eo::dt_constructors %s)"
            ask("(eo::is_eq %s %s)" % (f % d.name, elist(cs)), len(cs) > 1)
        for _ in range(1 + par):
            m2 = {p: ground(s, w, s.r(0, 2)) for p in d.params}
            d2 = sub(d.type, m2)
            l = elist(["(as %s %s)" % (c, pt(d2)) if a else c for c, _, a in d.cons])
            f = s.pick(["(eo::dt_constructors %s)", "($cs %s)", "($cx %s)", "(eo::dt_constructors (eo::typeof %s))"])
            x = w.k(d2, s.n(2)) if "x" in f or "typeof" in f else pt(d2)
            if "x" in f or "typeof" in f:
                if s.p(50):
                    x = term(s, w, d2, 1)
            ask("(eo::is_eq %s %s)" % (f % x, l), par or len(d.cons) > 1)
        if len(d.params) > 1:
            a = [pt(ground(s, w, 1)) for _ in d.params][:-s.r(1, len(d.params) - 1)]
            ask("(eo::not (eo::is_ok (eo::dt_constructors (%s %s))))" % (d.name, " ".join(a)))
        if s.p(30):
            ask("(eo::not (eo::is_ok (eo::dt_selectors %s)))" % s.pick([d.name, pt(dt)]))
        if s.p(30):
            ask("(eo::not (eo::is_ok (eo::dt_constructors %s)))" % s.pick([w.k(dt), "U", "(Set %s)" % pt(dt), "Set", "Bool", "12",
                                                                          "(-> %s %s)" % (pt(dt), pt(dt)), "true", "eo::List", "Type"]))
        if s.p(30):
            ask("(eo::not (eo::is_ok (eo::dt_selectors %s)))" % s.pick([w.k(dt), "U", "Set", "\"a\"", "12", "eo::List::nil", "true"]))
        # two symbols
        if len(d.cons) > 1 and s.p(50):
            a, b = s.perm(d.cons)[:2]
            ask("(eo::not (eo::is_eq %s %s))" % (a[0], b[0]), False)
    # terms
    for _ in range(s.r(1, 5)):
        t = ground(s, w)
        typ(term(s, w, t, s.r(1, 4)), t)


def types(s, w, n, right):
    """an application of a symbol of a datatype to n random constants and its type or None"""


def bad(s, w):
    """a command that has to be rejected: (declarations before it, command)"""
    d = s.pick(w.dts)
    m = {p: ground(s, w, 1) for p in d.params}
    dt = sub(d.type, m)
    k = s.n(12)
    x = None
    if k < 4:
        # a constructor with one wrong argument
        c, fs, amb = s.pick(d.cons)
        if not fs:
            return bad_use(w, "(%s %s)" % ("(as %s %s)" % (c, pt(dt)) if amb else c, w.k(ground(s, w, 1))))
        ts = [sub(t, m) for _, t in fs]
        i = s.n(len(ts))
        ts[i] = ground(s, w, 2) if s.p(50) else wrong(s, w, ts[i])
        mm = dict(m) if amb else {}
        if all([match(t, u, mm) for (_, t), u in zip(fs, ts)]):
            if all(p in mm for p in d.params):
                # well typed: the type is not another one
                t2 = wrong(s, w, sub(d.type, mm))
                h = "(as %s %s)" % (c, pt(dt)) if amb else c
                x = "(%s %s)" % (h, " ".join(w.k(t) for t in ts))
                return "(define bad () %s :type %s)" % (x, pt(t2))
            return None
        h = "(as %s %s)" % (c, pt(dt)) if amb else c
        x = "(%s %s)" % (h, " ".join(w.k(t) for t in ts))
    elif k == 4:
        fs = [f for c in d.cons for f in c[1]]
        if not fs:
            return None
        n, t = s.pick(fs)
        t2 = wrong(s, w, dt)
        if w.sel(n, t2) is not None:
            return None
        x = "(%s %s)" % (n, w.k(t2))
    elif k == 5:
        fs = [f for c in d.cons for f in c[1]]
        if not fs:
            return None
        n, t = s.pick(fs)
        if len([z for z in w.sels if z[0] == n]) > 1:
            return None
        a, b = dt, sub(t, m)
        if s.p(50):
            b = wrong(s, w, b)
        else:
            a = wrong(s, w, a)
        mm = {}
        if match(d.type, a, mm) and match(t, b, mm):
            return None
        x = "(update-%s %s %s)" % (n, w.k(a), w.k(b))
    elif k == 6:
        c = s.pick(d.cons)[0]
        t2 = wrong(s, w, dt)
        if match(d.type, t2, {}):
            return None
        x = "(is-%s %s)" % (c, w.k(t2))
    elif k == 7:
        a = [c for c in d.cons if c[2] and not c[1]]
        if not a:
            return None
        c = s.pick(a)[0]
        t2 = s.pick([ground(s, w, 2), T(d.name, *[T("U")] * (len(d.params) + 1)), T(s.pick(["Set", "Int"]), *([T("U")] * s.n(2)))])
        if match(d.type, t2, {}):
            # the annotation is the type
            return "(define bad () (as %s %s) :type %s)" % (c, pt(t2), pt(wrong(s, w, t2)))
        x = "(as %s %s)" % (c, pt(t2))
    elif k == 8:
        # an ambiguous constructor without its annotation
        a = [c for c in d.cons if c[2] and c[1]]
        if not a:
            return None
        c, fs, _ = s.pick(a)
        x = "(%s %s)" % (c, " ".join(w.k(sub(t, m)) for _, t in fs))
    elif k == 9:
        # the type itself with a wrong number of arguments
        n = s.pick([i for i in range(5) if i != len(d.params)])
        t = T(d.name, *[ground(s, w, 0) for _ in range(n)])
        return "(declare-const bad %s)" % pt(t) if s.p(60) else "(declare-datatype Bad ((mkbad (unbad %s))))" % pt(t)
    elif k == 10:
        # parameters are not visible outside
        ps = [p for p in d.params if p not in BASE and p not in [y.name for y in w.dts]]
        if not ps:
            return None
        return "(declare-const bad %s)" % s.pick(ps)
    else:
        c, fs, amb = s.pick(d.cons)
        h = "(as %s %s)" % (c, pt(dt)) if amb else c
        x = "(%s %s)" % (h, " ".join([w.k(sub(t, m)) for _, t in fs] + [w.k(ground(s, w, 0))]))
    return bad_use(w, x, s.n(3))


def wrong(s, w, t):
    for _ in range(30):
        u = ground(s, w, 1)
        if t[0] == 't' and t[2] and s.p(50):
            i = s.n(len(t[2]))
            u = ('t', t[1], t[2][:i] + (wrong(s, w, t[2][i]),) + t[2][i + 1:])
        if u != t:
            return u
    return T("V") if t != T("V") else T("U")


def bad_use(w, x, k=0):
    return ["(assume bad (= %s %s))", "(step bad true :rule chk :args ((eo::is_eq (eo::typeof %s) (eo::typeof %s))))",
            "(assume bad (= (eo::typeof %s) (eo::typeof %s)))"][k] % (x, x)


def bad_decl(s, w, names):
    """a declaration that has to be rejected"""
    known = [(d.name, len(d.params)) for d in w.dts]
    txt, ds = block(s, names, known, ["s1", "s2"])
    cs = sx.parse(txt)[0]
    multi = cs.head == "declare-datatypes"
    k = s.n(8)
    E = []
    dnode = cs.kids[2].kids if multi else [cs.kids[2]]
    i = s.n(len(ds))
    dn = dnode[i]
    par = dn.head == "par"
    if k == 0 and multi:
        a = cs.kids[1].kids[i].kids[1]
        E = [(a.a, a.b, str(s.pick([x for x in range(4) if x != len(ds[i].params)])))]
    elif k == 1 and multi:
        if s.p(50) or len(ds) == 1:
            E = [(dn.b, dn.b, " ((extra))")]
        else:
            E = [(dn.a, dn.b, "")]
    elif k == 2 and par:
        E = [(dn.kids[1].a, dn.kids[1].b, "()")]
        if multi and s.p(50):
            a = cs.kids[1].kids[i].kids[1]
            E.append((a.a, a.b, "0"))
            E.sort()
    elif k in (3, 4, 5):
        body = dn.kids[2] if par else dn
        fs = [f for c in body.kids for f in c.kids[1:]]
        if not fs:
            return None
        f = s.pick(fs)
        ty = f.kids[1]
        p = ds[i]
        b = ["unknownsort", "true", "12", "Set", "Arr", "(Set U V)", "(U V)", "(-> U true)", "(-> 1 U)"]
        if p.params:
            b += [p.name, "(%s %s U)" % (p.name, " ".join(p.params)), p.params[0] + " " + p.params[0], "(%s U)" % p.params[0]]
        else:
            b += ["(%s U)" % p.name]
        o = [q for q in ("Q", "X", "Y", "W") if q not in p.params]
        b.append(s.pick(o))
        if not multi:
            b.append("")
        n = s.pick(b)
        E = [(ty.a, ty.b, n)]
    elif k == 6:
        body = dn.kids[2] if par else dn
        c = s.pick(body.kids)
        n = c.kids[0]
        E = [(n.a, n.b, s.pick(["12", "\"a\"", "(q)", ":k", "#b1", ""]))]
    else:
        n = (cs.kids[1].kids[i].kids[0] if multi else cs.kids[1])
        E = [(n.a, n.b, s.pick(["12", "\"a\"", "(q)", ":k", "#b1"]))]
    if not E:
        return None
    return sx.replace(txt, E)


def gen(s):
    names = ["%s%d" % (s.pick(["D", "c", "n", "x", "Tr", "l"]), i) for i in range(400)]
    w = W()
    out = []
    selpool = ["s1", "s2", "s3"]
    kinds = []
    lines = w.lines
    if s.p(30):
        # a scope that is left, after which its names are used again
        keep = list(names)
        w2 = w.copy()
        lines.append(("(push)", None))
        for _ in range(s.r(1, 2)):
            txt, ds = block(s, names, [(d.name, len(d.params)) for d in w2.dts], selpool)
            lines.append((txt, None))
            for d in ds:
                w2.add(d)
        questions(s, w2, out)
        lines.append(("(pop)", None))
        names = keep
    depth = 0
    stack = []
    for _ in range(s.r(1, 4)):
        if s.p(15):
            lines.append(("(push)", None))
            stack.append(w)
            w = w.copy()
        txt, ds = block(s, names, [(d.name, len(d.params)) for d in w.dts], selpool)
        lines.append((txt, None))
        for d in ds:
            w.add(d)
        if s.p(30):
            questions(s, w, out)
        if stack and s.p(30):
            lines.append(("(pop)", None))
            w = stack.pop()
    if not w.dts:
        raise Discard()
    questions(s, w, out)
    b = None
    if s.p(70):
        b = bad(s, w) if s.p(70) else bad_decl(s, w, names)
    return list(lines), b, s.n(4)


def check(case, env):
    lines, b, split = case
    text = HEAD + CHK + "\n" + "".join(l + "\n" for l, _ in lines)
    files = {"q.eo": text}
    if split == 0:
        files = {"q.eo": '(include "d.eo")\n(echo "end")\n', "d.eo": text}
    r = env.run(files, "q.eo")
    decls = "".join(l for l, q in lines if q is None and l.startswith("(declare-data"))
    if r.verdict != "correct":
        import re
        m = re.search(r"[qd]\.eo:(\d+)\.", r.errmsg())
        ls = text.split("\n")
        n = int(m.group(1)) if m else 0
        q = ls[n - 1] if 0 < n <= len(ls) else ""
        raise Violation("expected true: %s\n%s" % (q, r.show()), files, "ethos q.eo")
    keys = [(decls + q[0], q[1]) for _, q in lines if q is not None]
    for _, q in lines:
        if q is not None:
            k = "types" if "typeof" in q[0] and "dt_" not in q[0] else "constructors" if "dt_c" in q[0] or "$c" in q[0] else \
                "selectors" if "dt_s" in q[0] or "$s" in q[0] else "other"
            k = ("not " if "eo::not" in q[0] else "") + k
            env.notes[k] = env.notes.get(k, 0) + 1
    if b:
        t2 = text + "(echo \"here\")\n" + b + "\n"
        r = env.run({"q.eo": t2}, "q.eo")
        if r.verdict != "reject":
            raise Violation("accepted: %s\n%s" % (b, r.show()), {"q.eo": t2}, "ethos q.eo")
        if b"here" not in r.out:
            raise Violation("rejected before: %s\n%s" % (b, r.show()), {"q.eo": t2}, "ethos q.eo")
        keys.append((decls + b, True))
        k = "rejected " + b[1:].split(" ")[0]
        env.notes[k] = env.notes.get(k, 0) + 1
    return keys


PARTS = [Part("signatures", gen, check, 10000, 250000)]
