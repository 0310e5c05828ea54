"""C27: a declaration that breaks a side condition of its command is rejected, the same one without the fault is accepted."""
from ..engine import Part, Violation

ID = "C27"
RULE = ("an evaluation is one run on a file with several well-formed commands, or with these and one ill-formed command; non-trivial "
        "if the command is in a context other than the top level of the main file or its parts are nested; distinct by context and command")
TECHNIQUE = ("property-based testing: commands generated together with one that breaks one side condition at a random place (fault "
             "injection); accepted or rejected by construction")
NOTE = ("Random search over commands of every kind, with random arities, positions and nesting of the fault, in contexts with scopes, "
        "assumptions, includes and resets.")
ASSUMPTIONS = ["that the message of the error is about the right place is decided in C22"]

HEAD = """(declare-const U Type)
(declare-const V Type)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const a U)
(declare-const b U)
(declare-const v V)
(declare-const g (-> U U))
(declare-const h (-> U U U))
(declare-const p (-> U Bool))
(declare-const imp (-> Bool Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const List (-> Type Type))
(declare-const Vec (-> U Type))
(declare-parameterized-const nilof ((T Type)) (List T))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(program dec ((x U)) :signature (U) U)
(program twice ((x U)) :signature (U) U (((twice x) (h x x))))
(program tpred ((x U)) :signature (U) Bool (((tpred x) true)))
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule scope ((A Bool)) :assumption A :conclusion (imp A A))
"""


def term(s, ps, d, hole=None):
    """a term of type U over the names in ps; hole, if given, occurs in it"""
    if hole is not None:
        t = hole
        for _ in range(s.n(d + 1)):
            m = s.n(3)
            t = "(g %s)" % t if m == 0 else "(h %s %s)" % ((t, term(s, ps, 1)) if m == 1 else (term(s, ps, 1), t))
        return t
    m = s.n(6)
    if d <= 0 or m < 3:
        return s.pick(list(ps) + ["a", "b"]) if s.p(70) and ps else s.pick(["a", "b"])
    if m < 5:
        return "(h %s %s)" % (term(s, ps, d - 1), term(s, ps, d - 1))
    return "(g %s)" % term(s, ps, d - 1)


def form(s, ps, d, hole=None):
    """a formula; hole is a term of type U"""
    t = "(p %s)" % term(s, ps, d, hole)
    for _ in range(s.n(d + 1)):
        m = s.n(3)
        o = "(p %s)" % term(s, ps, 1)
        t = "(imp %s %s)" % (t, o) if m == 0 else "(imp %s %s)" % (o, t) if m == 1 else "(and %s %s true)" % (t, o)
    return t


def evl(s, ps):
    """a term of type U that has to be evaluated if it contains parameters"""
    x = s.pick(list(ps)) if ps else "a"
    y = term(s, ps, 1)
    return s.pick(["(twice %s)" % x, "(eo::ite (eo::is_eq %s %s) a b)" % (x, y), "(eo::requires %s %s b)" % (x, y), "(dec %s)" % x,
                   "(twice (h %s %s))" % (x, y)])


# ----- programs

def prog(s, n, nargs, cases):
    """the text of program n; cases is a list of pairs of texts"""
    ps = ["x%d" % i for i in range(5)]
    sig = " ".join(["U"] * nargs)
    return "(program %s (%s) :signature (%s) U (%s))" % (n, " ".join("(%s U)" % p for p in ps), sig, " ".join("(%s %s)" % c for c in cases))


def cases(s, n, nargs, k):
    out = []
    for _ in range(k):
        ps = ["x%d" % i for i in range(5)]
        args = [term(s, ps, s.n(3)) for _ in range(nargs)]
        used = [p for p in ps if any(p in a for a in args)]
        rhs = term(s, used, 2)
        if s.p(30):
            rhs = "(%s %s)" % (n, " ".join(term(s, used, 1) for _ in range(nargs)))
        elif s.p(30) and used:
            rhs = evl(s, used)
        out.append([args, used, rhs])
    return out


def show(n, cs):
    return [("(%s %s)" % (n, " ".join(c[0])), c[2]) for c in cs]


def p_case(s, n):
    """one case of the program is not an application of it to patterns, or its result has other parameters"""
    nargs = s.r(1, 4)
    k = s.r(1, 4)
    cs = cases(s, n, nargs, k)
    good = prog(s, n, nargs, show(n, cs))
    i = s.n(k)
    bad = [list(c) for c in cs]
    sh = None
    m = s.n(7)
    ps = ["x%d" % j for j in range(5)]
    if m == 0:
        j = s.n(nargs)
        bad[i][0] = list(bad[i][0])
        bad[i][0].insert(j, term(s, bad[i][1], 1))
        what = "too many arguments"
    elif m == 1 and nargs > 1:
        bad[i][0] = bad[i][0][:-1]
        bad[i][2] = "a"
        what = "too few arguments"
    elif m == 2:
        sh = show(n, bad)
        head = s.pick(["dec", "twice", "g", "h", "zz"])
        if head == "zz":
            sh[i] = (s.pick(["a", "x0", n, "(g (%s %s))" % (n, " ".join(["a"] * nargs)), "3"]), "b")
        else:
            if head in ("dec", "twice"):
                sh[i] = ("(%s %s)" % (head, bad[i][0][0]), "b")
            elif head == "g":
                sh[i] = ("(g %s)" % bad[i][0][0], "b")
            else:
                sh[i] = ("(h %s a)" % bad[i][0][0], "b")
        what = "no application of the program"
    elif m in (3, 4):
        # an argument that is no pattern
        j = s.n(nargs)
        bad[i][0] = list(bad[i][0])
        e = evl(s, ["x0", "x1"]) if s.p(80) else "(%s %s)" % (n, " ".join(["x0"] * nargs))
        bad[i][0][j] = term(s, ["x2"], 2, e)
        bad[i][2] = "a"
        what = "no pattern"
    else:
        free = [p for p in ps if p not in bad[i][1]]
        if not free:
            bad[i][0] = ["x0"] * nargs
            bad[i][1] = ["x0"]
            free = ["x1", "x2"]
        f = s.pick(free)
        bad[i][2] = term(s, bad[i][1], 2, f)
        if s.p(30):
            bad[i][2] = "(eo::requires %s a b)" % bad[i][2]
        what = "result with a parameter that is not in the pattern"
    return what, good, prog(s, n, nargs, sh or show(n, bad))


def p_type(s, n):
    """the parameter in the type of a parameter is not bound by the pattern; types of a signature"""
    if s.p(60):
        good, bads = s.pick([("(eo::quote x)", ["(eo::quote a)", "(eo::quote (g x))", "(eo::quote (g a))", "(eo::quote U)", "(eo::quote)",
                                                "(eo::quote x x)", "(eo::quote zz)", "(eo::quote 3)", "(eo::quote true)", "(eo::quote (twice a))"]),
                             ("U", ["(eo::requires a b U)", "(eo::typeof (g x))", "(eo::ite a U U)", "a", "(g a)", "3", "List",
                                    "(Vec U)", "(List a)", "(tpred a)", "x"]),
                             ("(eo::requires a a U)", ["(eo::requires a b U)", "(eo::requires x x U)"]),
                             ("(Vec x)", ["x", "(Vec v)", "(g x)", "(Vec (twice v))"])])
        arg = "y" if good == "(Vec x)" else "x"
        i = s.n(3)
        f = "(program %s ((x U) (y (Vec x))) :signature (%%s) U (((%s %s) a)))" % (n, n, " ".join(arg if j == i else "b" for j in range(3)))
        sg = lambda t: f % " ".join(t if j == i else "U" for j in range(3))
        return "signature with something else than types", sg(good), sg(s.pick(bads))
    rest = ") :signature ((List T)) U (((%s x) a)))" % n
    good = "(program %s ((T Type) (x (List T))%s" % (n, rest)
    bad = "(program %s ((T Type) (x (List T))) :signature ((List T)) %s (((%s x) %s)))" % (n, s.pick(["Type", "(List T)"]), n, "%s")
    bad = bad % ("T" if ") Type (" in bad else "(nilof T)")
    return "result with a parameter that is only in a type", good, bad


def p_again(s, n):
    nargs = s.r(1, 3)
    one = lambda: prog(s, n, nargs, show(n, cases(s, n, nargs, s.r(1, 2))))
    fwd = "(program %s ((x U)) :signature (%s) U)" % (n, " ".join(["U"] * nargs))
    good = "\n".join(s.pick([[one()], [fwd, one()], [fwd, fwd, one()]]))
    k = s.n(6)
    if k >= 4:
        # another type than the forward declaration
        ty = [s.pick(["U", "V", "Bool", "(List U)", "(-> U U)"]) for _ in range(nargs)]
        ret = s.pick(["U", "U", "Bool"])
        val = "a" if ret == "U" else "true"
        sig = lambda ty, ret: "(program %s (%s) :signature (%s) %s" % (n, " ".join("(x%d %s)" % x for x in enumerate(ty)), " ".join(ty), ret)
        body = " (((%s %s) %s)))" % (n, " ".join("x%d" % i for i in range(nargs)), val)
        good = sig(ty, ret) + ")\n" + sig(ty, ret) + body
        ty2, ret2 = ty[:], ret
        i = s.n(nargs + 2)
        if i < nargs:
            ty2[i] = s.pick([t for t in ["U", "V", "Bool", "(List U)", "(List V)", "(-> U U)"] if t != ty[i]])
        elif i == nargs:
            ret2 = "V" if ret == "U" else "Int"
        elif s.p(50):
            ty2 = ty + ["U"]
        else:
            ty2 = ["V"] + ty
        bad = sig(ty2, ret2) + ")\n" + s.pick([sig(ty, ret) + body, sig(ty, ret) + ")\n" + sig(ty, ret) + body])
        return "program of another type than its forward declaration", good, bad
    if k == 0:
        bad = good + "\n" + one()
    elif k == 1:
        bad = good + "\n(push)\n" + one() + "\n(pop)"
    elif k == 2:
        bad = good + "\n" + fwd
    else:
        bad = s.pick(["(declare-const %s U)", "(define %s () a)", "(declare-const %s (-> U U))", "(define %s ((x U)) x)",
                      "(declare-sort %s 0)", "(declare-datatype %s ((@c)))", "(declare-datatype @D ((%s)))"]) % n + "\n" + one()
        if k == 3 and s.p(30):
            bad = "(push)\n%s\n(pop)" % bad
    return "program declared again", good, bad


def p_shape(s, n):
    nargs = s.r(1, 3)
    cs = cases(s, n, nargs, s.r(1, 3))
    good = prog(s, n, nargs, show(n, cs))
    bad = s.pick([
        "(program %s ((x U)) :signature () U)" % n, "(program %s () :signature () U (((%s) a)))" % (n, n),
        prog(s, n, nargs, []), good.replace(":signature", s.pick([":type", "", ":sig"]), 1),
        good.replace("(x0 U)", s.pick(["(x0 U :implicit)", "(x0 U :opaque)", "(x0 U :right-assoc)", "(x0 a)", "(x0)", "(x0 List)", "(x0 U U)", "x0"]), 1),
        good.replace("U)", "a)", 1), good.replace(") U ((", ") a ((", 1), good.replace(") U ((", ") ((", 1),
        good.replace(") U ((", ") U (((%s%s))" % (n, " a" * nargs) + " (", 1), good[:-1] + " U)", good[:-1] + " :list)",
    ])
    return "program of wrong shape", good, bad


# ----- rules

def rule(s, n, kind, args, prem, assum, reqs, conc, post="", key=":conclusion"):
    t = "(declare-rule %s (%s)" % (n, " ".join("(x%d U)" % i for i in range(4)) + " (F Bool) (G Bool)")
    if assum:
        t += " :assumption %s" % assum
    if kind == "list":
        t += " :premise-list %s and" % prem[0]
    elif prem:
        t += " :premises (%s)" % " ".join(prem)
    if args:
        t += " :args (%s)" % " ".join(args)
    if reqs:
        t += " :requires (%s)" % " ".join("(%s %s)" % r for r in reqs)
    return t + " %s %s%s)" % (key, conc, post)


def r_parts(s):
    ps = ["x%d" % i for i in range(4)]
    kind = s.pick(["", "", "list"])
    args = [term(s, ps, s.n(3)) for _ in range(s.n(3))]
    prem = [s.pick(["F", "G"])] if kind else [s.pick(["F", "(imp F G)", form(s, ps, 1)]) for _ in range(s.n(3))]
    assum = s.pick([None, None, "F", "G", form(s, ps, 1)])
    if not args and not prem and not assum:
        args = ["x0"]
    both = " ".join(args + prem + ([assum] if assum else []))
    used = [p for p in ps if p in both]
    fs = [f for f in ("F", "G") if f in both]
    reqs = [(term(s, used, 1), term(s, used, 1)) for _ in range(s.n(3))]
    if s.p(30) and used:
        reqs.append((evl(s, used), term(s, used, 1)))
    conc = s.pick(fs) if fs and s.p(40) else form(s, used, 2)
    return kind, args, prem, assum, reqs, conc, used, fs


def r_free(s, n):
    kind, args, prem, assum, reqs, conc, used, fs = r_parts(s)
    post = s.pick(["", "", " :sorry"])
    good = rule(s, n, kind, args, prem, assum, reqs, conc, post)
    free = [p for p in ["x0", "x1", "x2", "x3"] if p not in used]
    if not free:
        args, prem, assum, reqs, kind, used = ["x0"], [], None, [], "", ["x0"]
        free = ["x3"]
        good = rule(s, n, kind, args, prem, assum, reqs, "(p x0)", post)
    f = s.pick(free)
    if reqs and s.p(40):
        reqs = list(reqs)
        i = s.n(len(reqs))
        r = list(reqs[i])
        r[s.n(2)] = term(s, used, 2, f)
        reqs[i] = tuple(r)
        what = "requirement with a parameter that is not bound"
    else:
        conc = form(s, used, 2, f)
        what = "conclusion with a parameter that is not bound"
    return what, good, rule(s, n, kind, args, prem, assum, reqs, conc, post)


def r_eval(s, n):
    kind, args, prem, assum, reqs, conc, used, fs = r_parts(s)
    conc = "true"
    post = s.pick(["", "", " :sorry"])
    good = rule(s, n, kind, args, prem, assum, reqs, conc, post)
    e = evl(s, ["x0", "x1"])
    m = s.n(4)
    what = "argument of a rule that is no pattern"
    key = ":conclusion"
    if m == 0 or m == 1:
        args = list(args)
        args.insert(s.n(len(args) + 1), term(s, ["x2"], 2, e))
    elif m == 2:
        pe = s.pick([form(s, ["x2"], 1, e), "(tpred x0)", "(eo::is_eq x0 x1)"])
        if kind:
            prem = [pe]
        else:
            prem = list(prem)
            prem.insert(s.n(len(prem) + 1), pe)
        what = "premise that is no pattern"
    elif s.p(50):
        assum = form(s, ["x2"], 1, e)
        what = "assumption that is no pattern"
    else:
        key = ":conclusion-explicit"
        conc = form(s, ["x2"], 1, e)
        what = "explicit conclusion that is no pattern"
    return what, good, rule(s, n, kind, args, prem, assum, [r for r in reqs] if m < 3 else [], conc, post, key)


def r_shape(s, n):
    kind, args, prem, assum, reqs, conc, used, fs = r_parts(s)
    good = rule(s, n, kind, args, prem, assum, reqs, conc)
    m = s.n(7)
    if m == 0:
        good = "(declare-rule %s () :conclusion %s)" % (n, form(s, [], 2))
        bad = s.pick(["(declare-rule %s ((x U)) :conclusion %s)" % (n, form(s, [], 2, "x")),
                      "(declare-rule %s () :conclusion %s)" % (n, form(s, [], 2, "(dec a)")),
                      "(declare-rule %s () :requires ((%s)) :conclusion true)" % (n, s.pick(["a b", "(g a) (g b)", "(dec a) a"])),
                      "(declare-rule %s ((x U)) :requires ((x x)) :conclusion true)" % n])
        return "rule without arguments that is not ground or does not evaluate", good, bad
    if m == 1:
        return "rule without conclusion", good, good[:good.rindex(" :conclusion")] + ")"
    if m == 2:
        return "rule with an attribute of something else", good, good[:-1] + s.pick([" :list", " :implicit", " :right-assoc", " :type Bool", " :binder a"]) + ")"
    if m in (3, 4):
        k = s.pick([":concl", ":assumptions", ":premise", ":arg"])
        return "unknown part of a rule", good, good.replace(" :conclusion", " %s true :conclusion" % k, 1)
    if m == 5:
        return "parameter of a rule", good, good.replace("(x0 U)", s.pick(["(x0 a)", "(x0)", "(x0 U :implicit)", "(x0 U :opaque)", "x0", "(x0 U U)", "(x0 List)"]), 1)
    return "rule with something after the conclusion", good, good[:-1] + s.pick([" true", " ()", " a"]) + ")"


# ----- constants

def k_par(s, n):
    """declare-parameterized-const"""
    m = s.n(7)
    T = s.pick(["T", "S", "|T T|"])
    ret = s.pick(["U", "Bool", "(List U)"])
    if m == 0:
        # opaque arguments come first
        k = s.r(1, 3)
        i = s.n(k)
        ok = ["(o%d %s :opaque)" % (j, s.pick(["U", "Int", "Type"])) for j in range(k)]
        no = ["(e%d %s)" % (j, s.pick(["U", "V"])) for j in range(s.r(1, 2))]
        ps = ok[:]
        ps.insert(i, no[0])
        return ("opaque argument after another", "(declare-parameterized-const %s (%s) %s)" % (n, " ".join(ok + no), ret),
                "(declare-parameterized-const %s (%s) %s)" % (n, " ".join(ps + no[1:]), ret))
    if m == 1:
        at = s.pick([":right-assoc", ":left-assoc", ":right-assoc-nil a", ":chainable and", ":pairwise and"])
        return ("opaque arguments and an attribute", "(declare-parameterized-const %s ((o U :opaque)) (-> U U U))" % n,
                "(declare-parameterized-const %s ((o U :opaque)) (-> U U U) %s)" % (n, at))
    if m == 2:
        at = s.pick([":right-assoc", ":left-assoc", ":right-assoc-nil a", ":chainable and", ":pairwise and"])
        r = s.pick(["(List %s)" % T, T, "(-> U (List %s))" % T])
        return ("ambiguous function with an attribute", "(declare-parameterized-const %s ((%s Type :implicit)) (-> U U %s))" % (n, T, r),
                "(declare-parameterized-const %s ((%s Type :implicit)) (-> U U %s) %s)" % (n, T, r, at))
    if m == 3:
        return ("ambiguous function with opaque arguments", "(declare-parameterized-const %s ((%s Type :implicit)) (List %s))" % (n, T, T),
                "(declare-parameterized-const %s ((%s Type :implicit) (o U :opaque)) (List %s))" % (n, T, T))
    if m == 4:
        return ("parameter of a type with parameters in a type", "(declare-parameterized-const %s ((%s Type :implicit) (x U) (y %s)) (-> (Vec x) U))" % (n, T, T),
                "(declare-parameterized-const %s ((%s Type) (x %s)) %s)" % (n, T, T, s.pick(["(Vec x)", "(-> (Vec x) U)", "(List (Vec x))"])))
    if m == 5:
        good, bad = s.pick([("(-> (Vec x) U)", "(-> x U)"), ("(-> U (Vec x) U)", "(-> U x U)"), ("(-> U (Vec x) U)", "(-> x (Vec x) U)"),
                            ("(-> (-> (Vec x) U) U)", "(-> (-> x U) U)"), ("(-> U (Vec x))", "(-> (g x) U)"), ("(Vec x)", "(-> U (g x) U)")])
        at = s.pick(["", " :implicit", " :opaque"])
        f = "(declare-parameterized-const %s ((x U%s)) %%s)" % (n, at)
        return "function type over a parameter that is no type", f % good, f % bad
    good = "(declare-parameterized-const %s ((%s Type :implicit) (x %s)) %s)" % (n, T, T, ret)
    return "parameter", good, good.replace("(x %s)" % T, s.pick(["(x %s :right-assoc)" % T, "(x a)", "(x)", "(x %s U)" % T, "(x List)", "(x ZZ)", "(x %s :type U)" % T]))


def k_const(s, n):
    good, bads = s.pick([
        ("(declare-const %s U)", ["(declare-const %s U :type U)", "(declare-const %s U :list)", "(declare-const %s U :implicit)",
                                  "(declare-const %s U :sorry)", "(declare-const %s)", "(declare-const %s U U)", "(declare-const %s a)",
                                  "(declare-const %s (List))", "(declare-const %s List)", "(declare-const %s (-> U a))",
                                  "(declare-const %s (-> (g a) U))", "(declare-const %s (eo::quote a))", "(declare-const 3 U)",
                                  "(declare-const \"%s\" U)", "(declare-const :%s U)", "(declare-const (%s) U)", "(declare-const %s zz)",
                                  "(declare-const %s (Vec U))"]),
        ("(declare-const %s (-> U U U) :right-assoc-nil a)", ["(declare-const %s (-> U U U) :right-assoc-nil)", "(declare-const %s (-> U U U) :right-assoc-nil zz)",
                                                             "(declare-const %s (-> U U U) :left-assoc-nil)", "(declare-const %s (-> U U Bool) :chainable)",
                                                             "(declare-const %s (-> U U Bool) :pairwise)", "(declare-const %s (-> U U U) a)",
                                                             "(declare-const %s (-> eo::List Bool Bool) :binder)", "(declare-const %s (-> U U U) :right-assoc :list)"]),
        ("(declare-datatype %s ((c@%s (s@%s U))))", ["(declare-datatype %s ((c@%s (s@%s a))))", "(declare-datatype %s ((c@%s (s@%s))))",
                                                  "(declare-datatype %s ((c@%s (s@%s zz))))", "(declare-datatype %s ((c@%s (s@%s U U))))",
                                                  "(declare-datatype %s (c@%s s@%s))", "(declare-datatype %s (par () ((c@%s (s@%s U)))))",
                                                  "(declare-datatype %s (par (X) ((c@%s (s@%s (%s X U))))))", "(declare-datatype %s ((c@%s (s@%s U))) ((d)))",
                                                  "(declare-datatype %s ((c@%s (s@%s U))) U)", "(declare-datatype %s ((c@%s (s@%s (%s U)))))",
                                                  "(declare-datatype %s (par (X) ((c@%s (s@%s %s)))))", "(declare-datatype %s)"]),
        ("(define %s () (g a) :type U)", ["(define %s () (g a) :type V)", "(define %s () (g a) :type a)", "(define %s () (g a) :list)", "(define %s (g a))",
                                          "(define %s () (g a) :type)", "(define %s () (g a) U)", "(define %s ())", "(define %s () (g v) :type U)",
                                          "(define %s () eo::add)", "(define %s () (h eo::add a))", "(define %s () (eo::add))", "(define %s () ((g) a))",
                                          "(define %s () ())", "(define %s () (3 a))", "(define %s () 1/0)", "(define %s () -2/00)", "(define %s () 17/0000)",
                                          "(define %s () (forall () true))", "(define %s () (let () a))", "(define %s () (let ((x)) a))", "(define %s () (let ((x a) y) a))",
                                          "(define %s () (eo::define ((x a b)) x))", "(define %s () (! a zz))"]),
        ("(define %s ((T Type :implicit) (x (List T)) (y U)) y)", ["(define %s ((T Type :implicit) (x (List T)) (y U)) T)", "(define %s ((T Type :implicit) (x (List T)) (y U)) (nilof T))",
                                                                   "(define %s ((y U) (T Type :implicit) (x (List T))) (eo::typeof T))",
                                                                   "(define %s ((z U :implicit) (x (Vec z)) (y U)) (h y (g z)))", "(define %s ((y U) (z U :implicit)) z)",
                                                                   "(define %s ((y a)) y)", "(define %s ((y U :right-assoc)) y)", "(define %s ((y)) a)", "(define %s (y) a)"]),
        ("(declare-sort %s 2)", ["(declare-sort %s -1)", "(declare-sort %s 1.0)", "(declare-sort %s U)", "(declare-sort %s 01)", "(declare-sort %s)", "(declare-sort %s 4294967296)"]),
    ])
    f = lambda t: t.replace("%s", n)
    return "constant or definition: " + good.split(" ")[0][1:], f(good), f(s.pick(bads))


def k_datatypes(s, n):
    """several datatypes"""
    k = s.r(1, 4)
    ar = [s.n(3) for _ in range(k)]
    names = ["%s-%d" % (n, i) for i in range(k)]
    ty = lambda i: names[i] if not ar[i] else "(%s %s)" % (names[i], " ".join(["U"] * ar[i]))

    def body(i, arity=None):
        A = ar[i] if arity is None else arity
        xs = ["X", "Y", "Z", "W"][:A]
        cons = []
        for c in range(s.r(1, 3)):
            cons.append("(c%d-%s%s)" % (c, names[i], "".join(" (s%d%d-%s %s)" % (c, j, names[i], s.pick(xs + ["U", ty(s.n(k))])) for j in range(s.n(3)))))
        t = "(%s)" % " ".join(cons)
        return "(par (%s) %s)" % (" ".join(xs), t) if A else t
    sorts = lambda names, ar: " ".join("(%s %d)" % x for x in zip(names, ar))
    bodies = [body(i) for i in range(k)]
    good = "(declare-datatypes (%s) (%s))" % (sorts(names, ar), " ".join(bodies))
    m = s.n(6)
    i = s.n(k)
    if m < 2:
        A = s.pick([x for x in range(4) if x != ar[i]])
        if m == 0:
            bodies[i] = body(i, A)
            bad = "(declare-datatypes (%s) (%s))" % (sorts(names, ar), " ".join(bodies))
        else:
            ar2 = ar[:]
            ar2[i] = A
            bad = "(declare-datatypes (%s) (%s))" % (sorts(names, ar2), " ".join(bodies))
        what = "wrong number of parameters of a datatype"
    elif m == 2:
        del bodies[i]
        bad = "(declare-datatypes (%s) (%s))" % (sorts(names, ar), " ".join(bodies))
        what = "too few datatypes"
    elif m == 3:
        bodies.insert(i, "((d-%s))" % n)
        bad = "(declare-datatypes (%s) (%s))" % (sorts(names, ar), " ".join(bodies))
        what = "too many datatypes"
    elif m == 4:
        bad = "(declare-datatypes () ())"
        what = "no datatypes"
    else:
        bad = good.replace("(%s %d)" % (names[i], ar[i]), s.pick(["(%s)", "(%s U)", "(%s -1)", "%s", "(%s 1 1)", "(%s 00)"]) % names[i], 1)
        what = "wrong arity of a datatype"
    return what, good, bad


def k_level(s, n):
    """commands at a wrong assumption level"""
    good = s.pick(["(declare-rule %s ((x U)) :args (x) :conclusion true)", "(push)\n(declare-const %s U)\n(pop)", "(push 2)\n(pop 1)\n(declare-const %s U)\n(pop)",
                   "(assume-push %s (p a))\n(step-pop @%s (imp (p a) (p a)) :rule scope)"]).replace("%s", n)
    bad = s.pick(["(assume-push @o (p a))\n(declare-rule %s ((x U)) :args (x) :conclusion true)\n(step-pop @q :rule scope)",
                  "(assume-push @o (p a))\n(push)\n(step-pop @q :rule scope)\n(pop)",
                  "(assume-push @o (p a))\n(push)\n(pop)\n(step-pop @q :rule scope)",
                  "(push)\n(assume-push @o (p a))\n(pop)\n(step-pop @q :rule scope)",
                  "(step-pop @q :rule scope)", "(assume-push @o (p a))\n(step-pop @q :rule scope)\n(step-pop @r :rule scope)",
                  "(assume-push @o (p a))\n(include \"e.eo\")\n(step-pop @q :rule scope)",
                  "(assume-push @o (p a))\n(reference \"e.eo\")\n(step-pop @q :rule scope)",
                  "(reference \"e.eo\")\n(reference \"e.eo\")", "(pop 3)\n(push 3)",
                  "(include e.eo)", "(include)", "(include \"nothere.eo\")", "(reference)"]).replace("%s", n)
    return "command at a wrong place", good, bad


def k_assume(s, n):
    """formulas"""
    good = s.pick(["(assume %s (p a))", "(step %s true :rule chk :args (true))", "(assume-push %s (p a))\n(step-pop @%s :rule scope)"]).replace("%s", n)
    x = s.pick(["a", "U", "3", "p", "Bool", "(g a)", "(p v)", "chk", "(p (p a))", "(p)", "twice", "(imp true)", "eo::is_eq", "zz", "()"])
    bad = s.pick(["(assume %s %x)", "(step %s %x :rule chk :args (true))", "(assume-push %s %x)\n(step-pop @%s :rule scope)", "(step %s :rule chk :args (%x))",
                  "(assume-push %s (p a))\n(step-pop @%s %x :rule scope)"]).replace("%s", n).replace("%x", x)
    if s.p(30):
        bad = s.pick(["(step %s true :rule nochk :args (true))", "(step %s true :args (true))", "(step %s true :rule chk :args true)", "(step %s true :rule chk :args (true true))",
                      "(step %s true :rule chk)", "(step %s true :rule chk :premises (zz) :args (true))", "(step %s true :rule chk :args (true) :premises ())",
                      "(step %s true chk :args (true))", "(step %s true :rule scope)", "(assume %s)", "(assume (p a))", "(step :rule chk :args (true))",
                      "(step %s true :rule twice :args (a))", "(step %s true :rule (chk) :args (true))"]).replace("%s", n)
    return "assumption or step", good, bad


def k_step(s, n):
    """steps of a rule with premises and arguments"""
    k, m = s.n(3), s.n(3)
    while not k + m:
        k, m = s.n(3), s.n(3)
    prem = ["(p z%d)" % i for i in range(k)]
    args = ["y%d" % i for i in range(m)]
    zs = [s.pick(["a", "b", "(g a)"]) for _ in range(k)]
    ys = [s.pick(["a", "b", "(h a b)"]) for _ in range(m)]
    conc = "(p %s)" % s.pick(args + ["z%d" % i for i in range(k)])
    inst = conc
    for i, z in enumerate(zs):
        inst = inst.replace("z%d" % i, z)
    for i, y in enumerate(ys):
        inst = inst.replace("y%d" % i, y)
    pre = "(declare-rule r-%s (%s)%s%s :conclusion %s)\n" % (
        n, " ".join("(%s U)" % x for x in args + ["z%d" % i for i in range(k)]), " :premises (%s)" % " ".join(prem) if k else "",
        " :args (%s)" % " ".join(args) if m else "", conc)
    pre += "".join("(assume q%d-%s (p %s))\n" % (i, n, z) for i, z in enumerate(zs))
    qs = ["q%d-%s" % (i, n) for i in range(k)]
    parts = [inst] if s.p(60) else []
    parts += [":rule r-%s" % n]
    r = len(parts) - 1
    parts += [":premises (%s)" % " ".join(qs)] if k or s.p(20) else []
    parts += [":args (%s)" % " ".join(ys)] if m or s.p(20) else []
    show = lambda ps: pre + "(step s-%s %s)" % (n, " ".join(ps))
    good = show(parts)
    bad = parts[:]
    f = s.n(9)
    tail = parts[r + 1:]
    if f == 0:
        bad.insert(s.r(r + 1, len(bad)), s.pick(["zz", "()", "(p a)", ":rule r-%s" % n, ":conclusion true", ":assumption (p a)", ":requires ()", ":argz (a)", ":premises",
                                                 ":args", ":discharge ()", ":sorry", "3"]))
    elif f == 1:
        bad.append(s.pick([":premises (%s)" % " ".join(qs), ":args (%s)" % " ".join(ys)]) if len(tail) == 2 else tail[0])
    elif f == 2 and len(tail) == 2:
        bad[r + 1], bad[r + 2] = bad[r + 2], bad[r + 1]
    elif f == 3:
        bad[r] = s.pick([":rule", ":rule zz", ":rule chk r-%s" % n, "r-%s" % n, ":rule (r-%s)" % n, ":rulez r-%s" % n, ":rule :r-%s" % n, ":rule \"r-%s\"" % n, ":rule p",
                         ":args (a) :rule r-%s" % n, ":premises () :rule r-%s" % n])
    elif f == 4:
        # one too many
        bad = parts[:r + 1] + [":premises (%s)" % " ".join(qs + qs[:1])] * (k > 0) + [":args (%s)" % " ".join(ys + (["a"] if not k or s.p(20) else []))]
        bad = bad if k or m else parts + [":args (a)"]
    elif f == 5:
        # one too few
        if k and (not m or s.p(50)):
            bad = parts[:r + 1] + [":premises (%s)" % " ".join(qs[1:]), ":args (%s)" % " ".join(ys)]
        else:
            bad = parts[:r + 1] + [":premises (%s)" % " ".join(qs), ":args (%s)" % " ".join(ys[1:])]
    elif f == 6 and k:
        # a premise that is a formula or a name of something else
        i = s.n(k)
        qs2 = qs[:]
        qs2[i] = s.pick(["(p %s)" % zs[i], "zz", "a", "true", "r-%s" % n, "p", "(%s)" % qs[i], "3"])
        bad = parts[:r + 1] + [":premises (%s)" % " ".join(qs2), ":args (%s)" % " ".join(ys)]
    elif f == 7 and k:
        bad = parts[:r + 1] + [":premises %s" % s.pick(["", qs[0], "(%s" % qs[0], "((%s))" % qs[0]]), ":args (%s)" % " ".join(ys)]
    elif f == 8:
        bad = [s.pick(["(p v)", "(h %s %s)" % ("a", "a"), "a", "false", "(imp %s %s)" % (inst, inst), "(s)", "()"])] + parts[r:]
    if bad == parts:
        bad = parts + ["true"]
    return "step of wrong shape", good, show(bad)


def k_pop(s, n):
    j = s.r(0, 3)
    d = "(declare-const %s U)\n" % n
    push = s.pick(["(push %d)\n" % j, "(push)\n" * j]) if j else ""
    popj = s.pick(["(pop %d)" % j, "\n".join(["(pop)"] * j)]) if j else "(push 0)"
    extra = s.r(1, 3)
    return "more scopes popped than pushed", push + d + popj, push + d + s.pick(["(pop %d)" % (j + extra), "\n".join(["(pop)"] * (j + extra)), popj + "\n(pop %d)" % extra])


CAT = [(4, k_step), (1, k_pop), (6, p_case), (3, p_type), (3, p_again), (3, p_shape), (4, r_free), (4, r_eval), (3, r_shape), (4, k_par), (6, k_const), (3, k_datatypes), (2, k_level),
       (2, k_assume)]
LEVEL0 = (r_free, r_eval, r_shape, k_level, k_step, k_pop)


def gen(s):
    sites = []
    for i in range(s.r(2, 5)):
        f = s.w(CAT)
        what, good, bad = f(s, s.pick(["n%d", "N%d", "|n %d|", "@n%d"]) % i if f not in (k_const, k_datatypes, k_level, k_assume, k_step, k_pop) else "n%d" % i)
        sites.append((f in LEVEL0, what, good, bad))
    ctx = s.pick(["top", "top", "push", "include", "reset", "assume"])
    if ctx == "assume" and any(x[0] for x in sites):
        ctx = "push"
    return ctx, sites, s.n(len(sites))


def files(ctx, cmds):
    t = "\n".join(cmds) + "\n"
    d = {"e.eo": ""}
    if ctx == "push":
        d["m.eo"] = HEAD + "(push)\n" + t + "(pop)\n"
    elif ctx == "include":
        d["s.eo"] = HEAD
        d["d/t.eo"] = "(include \"../s.eo\")\n" + t
        d["d/e.eo"] = ""
        d["m.eo"] = "(include \"s.eo\")\n(include \"d/t.eo\")\n(define @m () a)\n"
    elif ctx == "reset":
        d["m.eo"] = HEAD + "(reset)\n" + HEAD + t
    elif ctx == "assume":
        d["m.eo"] = HEAD + "(assume-push @as (p b))\n" + t + "(step-pop @cl (imp (p b) (p b)) :rule scope)\n"
    else:
        d["m.eo"] = HEAD + t
    return d


def check(case, env):
    ctx, sites, i = case
    keys = []
    base = files(ctx, [x[2] for x in sites])
    if sum(map(len, base.values())) > 60000:
        return keys
    r = env.run(base, "m.eo")
    if r.verdict not in ("correct", "incomplete"):
        raise Violation("well-formed commands are rejected (%s)\n%s" % (ctx, r.show()), base, "ethos m.eo")
    keys.append((ctx + repr(base), ctx != "top"))
    for j, x in enumerate(sites):
        if len(sites) > 3 and j != i:
            continue
        bad = files(ctx, [y[3] if k == j else y[2] for k, y in enumerate(sites)])
        r = env.run(bad, "m.eo")
        if r.verdict != "reject":
            raise Violation("%s: accepted (%s)\n%s\n%s" % (x[1], ctx, x[3], r.show()), bad, "ethos m.eo")
        env.notes[x[1]] = env.notes.get(x[1], 0) + 1
        keys.append((ctx + x[3], ctx != "top" or x[3].count("(") > 6))
    return keys


PARTS = [Part("commands", gen, check, 12000, 400000)]
