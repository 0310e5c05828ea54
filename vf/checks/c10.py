"""C10: a term is accepted exactly when it is well typed, with its right type."""
from ..engine import Part, Discard, Violation

ID = "C10"
RULE = ("an evaluation is one term whose acceptance, or whose type, is compared with the reference type checker; non-trivial "
        "if the term applies a function; distinct by the declarations used and the term")
TECHNIQUE = ("property-based testing: random signatures of curried, parametric, dependent, conditional and opaque functions "
             "and well-typed and mutated terms, against a reference type checker")
NOTE = ("Random search. Terms are put into definitions with :type, declarations, assumptions, step arguments and conclusions; "
        "every ill-typed one is run on its own. Definitions without :type and macro arguments are not type checked by "
        "design and not generated in this role.")
ASSUMPTIONS = ["types are compared by eo::is_eq of eo::typeof and by :type"]

# Types: atoms 'U', 'Type', 'Bool', numbers, tuples ('->',A,B), (constructor, args..);
# patterns also have ('?',name) and ('eo',op,args..) and ('prog',name,args..)

KINDS = {"List": ["Type"], "Pair": ["Type", "Type"], "BitVec": ["Int"], "FP": ["Int", "Int"], "Ix": ["U"], "Fam": ["Type", "Int"]}
BASE = """(declare-const U Type)
(declare-const V Type)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const List (-> Type Type))
(declare-const Pair (-> Type Type Type))
(declare-const BitVec (-> Int Type))
(declare-const FP (-> Int Int Type))
(declare-const Ix (-> U Type))
(declare-const Fam (-> Type Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(program $mx ((n Int) (m Int)) :signature (Int Int) Int ((($mx n m) (eo::ite (eo::gt n m) n m))))
(program $elt ((T Type) (S Type)) :signature (Type) Type ((($elt (List T)) T) (($elt (Pair T S)) S) (($elt (-> T S)) ($elt T))))
(declare-const u0 U)
(declare-const u1 U)
"""


def tx(t):
    if isinstance(t, int):
        return str(t) if t >= 0 else str(t)
    if isinstance(t, str):
        return t
    if t[0] == '?':
        return t[1]
    if t[0] == 'eo':
        return "(eo::%s %s)" % (t[1], " ".join(tx(x) for x in t[2:]))
    if t[0] == 'prog':
        return "(%s %s)" % (t[1], " ".join(tx(x) for x in t[2:]))
    return "(%s)" % " ".join(tx(x) for x in t)


def ev(p, m):
    """value of a pattern; None if it does not evaluate"""
    if not isinstance(p, tuple):
        return p
    if p[0] == '?':
        return m.get(p[1])
    if p[0] == 'eo':
        if p[1] == 'ite':
            c = ev(p[2], m)
            return ev(p[3], m) if c == 'true' else ev(p[4], m) if c == 'false' else None
        a = [ev(x, m) for x in p[2:]]
        if None in a:
            return None
        if p[1] == 'requires':
            return a[2] if a[0] == a[1] else None
        if p[1] in ('eq', 'is_eq'):
            return 'true' if a[0] == a[1] else 'false'
        if not all(isinstance(x, int) for x in a):
            return None
        return {'add': lambda x, y: x + y, 'mul': lambda x, y: x * y, 'neg': lambda x: -x,
                'gt': lambda x, y: 'true' if x > y else 'false', 'is_neg': lambda x: 'true' if x < 0 else 'false'}[p[1]](*a)
    if p[0] == 'prog':
        a = [ev(x, m) for x in p[2:]]
        if None in a:
            return None
        if p[1] == '$mx':
            return max(a) if all(isinstance(x, int) for x in a) else None
        t = a[0]
        while isinstance(t, tuple) and t[0] == '->':
            t = t[1]
        if isinstance(t, tuple) and t[0] in ("List", "Pair"):
            return t[-1]
        return None
    r = tuple(ev(x, m) for x in p[1:])
    return None if None in r else (p[0],) + r


def match(p, t, m):
    if not isinstance(p, tuple):
        return p == t and type(p) == type(t)
    if p[0] == '?':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    if not isinstance(t, tuple) or len(p) != len(t) or p[0] != t[0]:
        return False
    return all(match(x, y, m) for x, y in zip(p[1:], t[1:]))


def params_of(p, acc=None):
    acc = [] if acc is None else acc
    if isinstance(p, tuple):
        if p[0] == '?':
            acc.append(p[1])
        else:
            for x in p:
                params_of(x, acc)
    return acc


class Fn:
    """a declared symbol: list of ('t', pattern) or ('q', pattern, type) and a result pattern"""
    def __init__(self, name, args, ret, text, opaque=0):
        self.name, self.args, self.ret, self.text, self.opaque = name, args, ret, text, opaque


# Terms: ('c',name) ('n',int) ('bv',bits) ('b',bool) ('ty',type) ('app',head,(args))

def tt(t):
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'n':
        return str(t[1])
    if k == 'bv':
        return "#b" + t[1]
    if k == 'b':
        return "true" if t[1] else "false"
    if k == 'ty':
        return tx(t[1])
    return "(%s%s %s)" % ("_ " if t[1][0] == 'app' else "", tt(t[1]), " ".join(tt(a) for a in t[2]))


def val(t):
    """the ground value a term has inside types (quoted)"""
    if t[0] == 'ty':
        return t[1]
    if t[0] == 'n':
        return t[1]
    if t[0] in ('c', 'b', 'bv'):
        return tt(t)
    return ('!', tt(t))


def kind(t, w):
    """type of a type expression"""
    if isinstance(t, int):
        return "Int"
    if isinstance(t, str) and t in KINDS:
        t = (t,)
    if isinstance(t, str):
        return "Bool" if t in ("true", "false") else "Type" if t in ("U", "V", "Int", "Bool", "Type") else w.consts.get(t)
    if t[0] == '->':
        return "Type" if all(kind(x, w) == "Type" for x in t[1:]) else None
    if t[0] not in KINDS or len(t) - 1 > len(KINDS[t[0]]):
        return None
    if any(kind(x, w) != k for x, k in zip(t[1:], KINDS[t[0]])):
        return None
    r = "Type"
    for k in reversed(KINDS[t[0]][len(t) - 1:]):
        r = ('->', k, r)
    return r


def synth(t, w):
    """type of a term, or None if it is ill typed"""
    k = t[0]
    if k == 'c':
        if t[1] in w.fns:
            f = w.fns[t[1]]
            return w.gtype(f)
        return w.consts.get(t[1])
    if k == 'n':
        return "Int"
    if k == 'bv':
        return ("BitVec", len(t[1]))
    if k == 'b':
        return "Bool"
    if k == 'ty':
        return kind(t[1], w)
    h, args = t[1], list(t[2])
    ats = [synth(a, w) for a in args]
    if None in ats:
        return None
    cur = None
    if h[0] == 'c' and h[1] in w.fns:
        f = w.fns[h[1]]
        m = {}
        n = min(len(args), len(f.args))
        for i in range(n):
            a = f.args[i]
            if a[0] == 'q':
                if ats[i] != a[2] or not match(a[1], val(args[i]), m):
                    return None
            elif not match(a[1], ats[i], m):
                return None
        if len(args) < len(f.args):
            if len(args) < f.opaque:
                raise Discard()   # only warned about
            # partial application
            rest = f.ret
            for a in reversed(f.args[n:]):
                if a[0] == 'q':
                    raise Discard()
                rest = ('->', a[1], rest)
            if any(p not in m for p in params_of(rest)):
                raise Discard()
            return ev(rest, m)
        cur = ev(f.ret, m)
        args, ats = args[n:], ats[n:]
    else:
        cur = synth(h, w)
    for a in ats:
        if not isinstance(cur, tuple) or cur[0] != '->' or cur[1] != a:
            return None
        cur = cur[2]
    return cur


class W:
    def __init__(self):
        self.consts = {"u0": "U", "u1": "U"}
        self.fns = {}
        self.text = BASE

    def gtype(self, f):
        """type of the symbol by itself, if it is ground"""
        r = f.ret
        for a in reversed(f.args):
            if a[0] == 'q':
                raise Discard()
            r = ('->', a[1], r)
        if params_of(r):
            raise Discard()
        return ev(r, {})


def gtype(s, d=2):
    if d <= 0 or s.p(35):
        return s.pick(["U", "V", "Bool", "Int"])
    m = s.n(7)
    if m == 0:
        return ("List", gtype(s, d - 1))
    if m == 1:
        return ("Pair", gtype(s, d - 1), gtype(s, d - 1))
    if m == 2:
        return ('->', gtype(s, d - 1), gtype(s, d - 1))
    if m == 3:
        return ("FP", s.r(1, 3), s.r(1, 3))
    if m == 4:
        return ("Ix", s.pick(["u0", "u1"]))
    if m == 5:
        return ("Fam", gtype(s, d - 1), s.r(1, 3))
    return ("BitVec", s.r(1, 4))


def gpat(s, tp, ip, d=2):
    """argument pattern over type parameters tp and integer parameters ip"""
    if tp and s.p(45):
        return ('?', s.pick(tp))
    if d <= 0:
        return s.pick(["U", "V", "Bool", "Int"])
    num = lambda: ('?', s.pick(ip)) if ip and s.p(80) else s.r(1, 3)
    m = s.n(6) if not ip else s.pick([0, 1, 2, 3, 4, 5, 5, 5, 3, 4])
    if m == 0:
        return ("List", gpat(s, tp, ip, d - 1))
    if m == 1:
        return ("Pair", gpat(s, tp, ip, d - 1), gpat(s, tp, ip, d - 1))
    if m == 2:
        return ('->', gpat(s, tp, ip, d - 1), gpat(s, tp, ip, d - 1))
    if m == 3:
        return ("FP", num(), num())
    if m == 4:
        return ("Fam", gpat(s, tp, ip, d - 1), num())
    return ("BitVec", num())


def gret(s, tp, ip, d=2):
    """result pattern, with computation"""
    def num(k=2):
        if not ip or k <= 0 or s.p(30):
            return ('?', s.pick(ip)) if ip else s.r(1, 3)
        m = s.n(5)
        if m < 2:
            return ('eo', s.pick(['add', 'mul']), num(k - 1), num(k - 1) if s.p(60) else s.r(0, 2))
        if m == 2:
            return ('prog', '$mx', num(k - 1), num(k - 1))
        if m == 3:
            return ('eo', 'ite', cond(), num(k - 1), num(k - 1))
        return ('?', s.pick(ip))

    def cond():
        if ip and s.p(60):
            return ('eo', s.pick(['gt', 'eq', 'is_eq']), ('?', s.pick(ip)), ('?', s.pick(ip)) if s.p(50) else s.r(1, 3))
        if tp:
            return ('eo', s.pick(['eq', 'is_eq']), ('?', s.pick(tp)), ('?', s.pick(tp)) if s.p(60) else gtype(s, 1))
        return s.pick(['true', 'false'])

    m = s.n(12)
    if d > 0 and m == 0:
        return ('eo', 'requires', cond(), s.w([(3, 'true'), (1, 'false')]), gret(s, tp, ip, d - 1))
    if d > 0 and m == 1:
        return ('eo', 'ite', cond(), gret(s, tp, ip, d - 1), gret(s, tp, ip, d - 1))
    if tp and m == 2:
        return ('prog', '$elt', gpat(s, tp, [], 1))
    if tp and m in (3, 4, 5):
        return ('?', s.pick(tp))
    if m == 6:
        return ("List", gret(s, tp, ip, d - 1) if d > 0 else "U")
    if m == 7 and ip:
        return ("FP", num(), num())
    if m == 8:
        return ("Fam", gret(s, tp, ip, d - 1) if d > 0 else "V", num())
    if m == 9:
        return "Bool"
    if m == 10 and d > 0:
        # no computation inside function types: whether a partial type is
        # rejected early is not what we look at
        return ('->', gpat(s, tp, ip, 1), gpat(s, tp, ip, 1))
    return ("BitVec", num())


def stuck(p):
    """some closed part does not evaluate (so that the declaration is rejected)"""
    if not isinstance(p, tuple) or p[0] == '?':
        return False
    if not params_of(p) and ev(p, {}) is None:
        return True
    if p[:2] == ('eo', 'requires') and not params_of(p[2]) and not params_of(p[3]) and ev(p[2], {}) != ev(p[3], {}):
        return True
    return any(stuck(x) for x in p[1:])


def gen_fn(s, name):
    m = s.n(10)
    if m < 2:
        args = [gtype(s) for _ in range(s.r(1, 3))]
        r = gtype(s)
        return Fn(name, [('t', a) for a in args], r,
                  "(declare-const %s (-> %s %s))" % (name, " ".join(tx(a) for a in args), tx(r)))
    tp = ["T", "S"][:s.r(0, 2)]
    ip = ["n", "m"][:s.r(0 if tp else 1, 2)]
    explicit = [p for p in tp + ip if s.p(25)]
    terms = s.p(15)
    nop = 0
    for _ in range(20):
        args = [('t', gpat(s, tp, ip)) for _ in range(s.r(1, 3))]
        pats = [a[1] for a in args]
        bound = set(explicit)
        for p in pats:
            bound |= set(params_of(p))
        tb, ib = [p for p in tp if p in bound], [p for p in ip if p in bound]
        if tb or ib:
            break
    else:
        raise Discard()
    ret = gret(s, tb, ib)
    if terms and not (set(params_of(ret)) - bound):
        # the type depends on a term
        ret = ("Ix", ('?', "x")) if s.p(50) else ("Pair", ("Ix", ('?', "x")), ret)
        explicit.append("x")
    bound |= {"x"}
    if any(stuck(x) for x in [ret] + pats):
        raise Discard()
    rest = ret
    if set(params_of(rest)) - bound:
        raise Discard()
    # opaque prefix of explicit ordinary arguments
    order = []
    used_later = lambda p: None
    imps = [p for p in tp + ip if p not in explicit and p in bound]
    exs = s.perm(explicit)
    named = s.p(40)
    nop = s.r(0, len(args)) if named and s.p(40) else 0
    allp = set(params_of(ret))
    for a in pats:
        allp |= set(params_of(a))
    fargs = []
    ptext = ["(%s %s :implicit)" % (p, "Type" if p in tp else "Int") for p in imps]
    opq = nop > 0
    for p in exs:
        k = "Type" if p in tp else "U" if p == "x" else "Int"
        ptext.append("(%s %s%s)" % (p, k, " :opaque" if opq else ""))
        # a parameter that occurs in no type is an ordinary argument
        fargs.append(('q', ('?', p), k) if p in allp else ('t', k))
    total_op = len(exs) if opq else 0
    if named:
        body = ret
        for i, a in enumerate(pats):
            ptext.append("(a%d %s%s)" % (i, tx(a), " :opaque" if i < nop else ""))
        if opq:
            total_op += nop
        fargs += args
        t = tx(ret)
    else:
        fargs += args
        t = "(-> %s %s)" % (" ".join(tx(a) for a in pats), tx(ret))
    return Fn(name, fargs, ret, "(declare-parameterized-const %s (%s) %s)" % (name, " ".join(ptext), t), total_op)


def gen_world(s):
    w = W()
    for i in range(s.r(4, 9)):
        t = gtype(s)
        n = "c%d" % i
        w.consts[n] = t
        w.text += "(declare-const %s %s)\n" % (n, tx(t))
    for i in range(s.r(3, 7)):
        try:
            f = gen_fn(s, "f%d" % i)
        except Discard:
            continue
        w.fns[f.name] = f
        w.text += f.text + "\n"
        # constants of the types the function expects
        if s.p(80):
            m = {}
            for a in f.args:
                if a[0] == 't':
                    for p in params_of(a[1]):
                        m.setdefault(p, gtype(s, 1) if p in "TS" else s.r(1, 3))
                    t = ev(a[1], m)
                    if t is not None and t not in ("Type", "Int", "Bool"):
                        n = "c%d" % len(w.consts)
                        w.consts[n] = t
                        w.text += "(declare-const %s %s)\n" % (n, tx(t))
    return w


def gen_term(s, w, pool):
    """a random application of known terms; pool: [(term, type)]"""
    f = s.pick(sorted(w.fns)) if w.fns and s.p(85) else None
    if f is None:
        hs = [(t, ty) for t, ty in pool if isinstance(ty, tuple) and ty[0] == '->']
        if not hs:
            raise Discard()
        h, ty = s.pick(hs)
        args = []
        while isinstance(ty, tuple) and ty[0] == '->' and (not args or s.p(60)):
            c = [t for t, u in pool if u == ty[1]]
            if not c:
                raise Discard()
            args.append(s.pick(c))
            ty = ty[2]
        return ('app', h, tuple(args)) if h[0] != 'app' or s.p(50) or h[1][0] == 'app' else ('app', h[1], h[2] + tuple(args))
    f = w.fns[f]
    m, args = {}, []
    # choose arguments that match
    for a in f.args:
        if a[0] == 'q':
            want = m.get(a[1][1])
            if want is None:
                want = gtype(s, 1) if a[2] == "Type" else s.r(1, 3) if a[2] == "Int" else s.pick(["u0", "u1"])
                m[a[1][1]] = want
                # prefer values that later arguments can have
                for b in f.args:
                    if b[0] == 't':
                        c = [u for t, u in pool if match(b[1], u, {})]
                        if c and s.p(80):
                            mm = {}
                            match(b[1], s.pick(c), mm)
                            if a[1][1] in mm:
                                m[a[1][1]] = want = mm[a[1][1]]
            args.append(('n', want) if isinstance(want, int) else ('c', want) if a[2] == "U" else ('ty', want))
        else:
            c = []
            for t, u in pool:
                mm = dict(m)
                if match(a[1], u, mm):
                    c.append((t, mm))
            if not c:
                raise Discard()
            t, m = s.pick(c)
            args.append(t)
    if len(args) > 1 and s.p(10):
        args = args[:s.r(1, len(args) - 1)]
    return ('app', ('c', f.name), tuple(args))


def mutate(s, w, t, pool):
    """change one place of a term"""
    if t[0] == 'app' and s.p(75):
        args = list(t[2])
        m = s.n(8)
        i = s.n(len(args))
        if m < 3:
            args[i] = mutate(s, w, args[i], pool)
        elif m == 3:
            args[i] = s.pick(pool)[0]
        elif m == 4:
            j = s.n(len(args))
            args[i], args[j] = args[j], args[i]
        elif m == 5:
            args.insert(i, s.pick(pool)[0] if s.p(50) else args[i])
        elif m == 6 and len(args) > 1:
            del args[i]
        else:
            h = ('c', s.pick(sorted(w.fns) + sorted(w.consts)))
            return ('app', h, t[2])
        return ('app', t[1], tuple(args))
    if t[0] == 'ty' and s.p(60):
        return ('ty', mutty(s, t[1]))
    if t[0] == 'n':
        return s.pick([('n', t[1] + 1), ('ty', "U"), ('b', True)])
    return s.pick(pool)[0]


def mutty(s, t):
    if isinstance(t, tuple) and s.p(70):
        i = s.r(1, len(t) - 1)
        x = list(t)
        m = s.n(4)
        if m < 2:
            x[i] = mutty(s, x[i])
        elif m == 2 and len(x) > 2 and t[0] != '->':
            del x[i]
        elif t[0] != '->':
            x.insert(i, x[i])
        return tuple(x)
    if isinstance(t, int):
        return s.pick([t + 1, "U", "u0"])
    return s.pick(["U", "V", "Int", ("List", "U"), 2, "u0", "List"])


def edit(s, t):
    """a type that differs from t in one place, if possible with the same shape of parts"""
    if isinstance(t, int):
        return s.pick([t + 1, max(0, t - 1), t + 2])
    if isinstance(t, str):
        return s.pick([x for x in ("U", "V", "Bool", "Int") if x != t])
    if s.p(50) and len(t) > 1:
        c = [i for i in range(1, len(t))]
        i = s.pick(c)
        if not (t[0] == "Ix"):
            return t[:i] + (edit(s, t[i]),) + t[i + 1:]
    h = t[0]
    if h == "->":
        return s.pick([("List", t[2]), ("List", t[2]), ("Pair", t[1], t[2]), t[2], t[1], ("->", t[2], t[1]), ("->", t[1], t)])
    if h == "List":
        return s.pick([("->", t[1], t[1]), t[1], ("List", t), ("Pair", t[1], t[1]), ("->", "U", t[1])])
    if h == "Pair":
        return s.pick([("->", t[1], t[2]), ("Pair", t[2], t[1]), ("Pair", t[1], t[1]), ("List", t[2]), ("Fam", t[1], 1)])
    if h == "FP":
        return s.pick([("FP", t[2], t[1]), ("BitVec", t[2]), ("FP", t[1], t[1]), ("Fam", "U", t[2])])
    if h == "BitVec":
        return s.pick([("FP", t[1], t[1]), ("Fam", "Int", t[1])])
    if h == "Fam":
        return s.pick([("FP", t[2], t[2]), ("BitVec", t[2]), ("Pair", t[1], t[1])])
    if h == "Ix":
        return ("Ix", "u1" if t[1] == "u0" else "u0")
    return "U"


def near(s, w):
    """an application whose arguments have the types that the function expects, but for a change in one of them"""
    f = w.fns[s.pick(sorted(w.fns))]
    idx = [i for i, a in enumerate(f.args) if a[0] == 't']
    if not idx:
        return None
    i = s.pick(idx)
    m, args = {}, []
    for a in f.args:
        for p in params_of(a[1]):
            m.setdefault(p, gtype(s, 1) if p in "TS" else s.r(1, 3) if p in "nm" else s.pick(["u0", "u1"]))
    for j, a in enumerate(f.args):
        v = ev(a[1], m) if a[0] == 'q' or isinstance(a[1], tuple) else a[1]
        if a[0] == 'q':
            args.append(('n', v) if isinstance(v, int) else ('c', v) if a[2] == "U" else ('ty', v))
            continue
        if j == i:
            v = edit(s, v)
        try:
            if v is None or isinstance(v, int) or kind(v, w) != "Type":
                return None
        except Discard:
            return None
        if v == "Type":
            args.append(('ty', gtype(s, 1)))
            continue
        c = [n for n, t in w.consts.items() if t == v]
        if not c:
            n = "n%d" % len(w.consts)
            w.consts[n] = v
            w.text += "(declare-const %s %s)\n" % (n, tx(v))
            c = [n]
        args.append(('c', s.pick(sorted(c))))
    return ('app', ('c', f.name), tuple(args))


CTX = ["define", "typeof", "declare", "assume", "arg", "rule", "nested"]


def gen(s):
    w = gen_world(s)
    pool = [(('c', n), t) for n, t in sorted(w.consts.items())] + \
        [(('n', k), "Int") for k in (1, 2)] + [(('bv', b), ("BitVec", len(b))) for b in ("1", "01", "101")] + \
        [(('b', True), "Bool"), (('ty', "U"), "Type"), (('ty', ("List", "V")), "Type")]
    good = []
    for _ in range(s.r(6, 20)):
        try:
            t = gen_term(s, w, pool)
            ty = synth(t, w)
        except Discard:
            continue
        if len(tt(t)) > 400:
            continue
        if ty is None:
            good.append((t, None))
            continue
        good.append((t, ty))
        pool.append((t, ty))
    if not good:
        raise Discard()
    muts = []
    for _ in range(s.r(2, 6)):
        t = s.pick(good)[0]
        t = mutate(s, w, t, pool)
        try:
            muts.append((t, synth(t, w)))
        except Discard:
            pass
    for _ in range(s.r(1, 4)):
        t = near(s, w) if w.fns else None
        if t is not None:
            try:
                muts.append((t, synth(t, w)))
            except Discard:
                pass
    wrong = []
    ok = [x for x in good if x[1] is not None]
    for _ in range(s.r(0, 2)):
        if ok:
            t, ty = s.pick(ok)
            u = s.pick([x[1] for x in pool]) if s.p(40) else mutty(s, ty)
            try:
                if u != ty and kind(u, w) == "Type":
                    wrong.append((t, u))
            except Discard:
                pass
    return w, good, muts, wrong, [s.pick(CTX) for _ in range(len(good) + len(muts))]


def place(ctx, i, t, ty, w):
    """commands that use the term, accepted iff it is well typed with type ty
    (if it is None, with whatever type)"""
    x = tt(t)
    if ctx == "assume" and ty in (None, "Bool"):
        return "(assume a%d %s)\n" % (i, x)
    if ctx == "declare" and ty in (None, "Type"):
        return "(declare-const d%d %s)\n" % (i, x)
    if ctx == "arg" and ty in (None, "Bool"):
        return "(step s%d :rule any_arg :args (%s))\n" % (i, x)
    if ctx == "rule" and ty in (None, "Bool"):
        return "(declare-rule r%d () :conclusion %s)\n(step s%d %s :rule r%d)\n" % (i, x, i, x, i)
    if ctx == "nested" and ty is not None and ty != "Type":
        return "(define d%d () (tag %s) :type (Tag %s))\n" % (i, x, tx(ty))
    if ty is None:
        # any type will do
        return "(define d%d () (tag %s))\n(assume b%d (isTag d%d))\n" % (i, x, i, i)
    return "(define d%d () %s :type %s)\n" % (i, x, tx(ty))


HEAD = """(declare-const Tag (-> Type Type))
(declare-parameterized-const tag ((TT Type :implicit)) (-> TT (Tag TT)))
(declare-parameterized-const isTag ((TT Type :implicit)) (-> (Tag TT) Bool))
(declare-rule any_arg ((x Bool)) :args (x) :conclusion x)
(declare-rule chk ((x Bool)) :args (x) :requires ((x true)) :conclusion true)
"""


def check(case, env):
    w, good, muts, wrong, ctxs = case
    head = w.text + HEAD
    body, keys = "", []
    i = 0
    neg = []
    for (t, ty), c in zip(good + muts, ctxs):
        i += 1
        if ty is None:
            neg.append((place(c, i, t, None, w), t, "ill typed", c))
            continue
        if c == "typeof":
            body += "(step q%d true :rule chk :args ((eo::is_eq (eo::typeof %s) %s)))\n" % (i, tt(t), tx(ty))
        else:
            body += place(c, i, t, ty, w)
            if c == "nested" and ty != "Type":
                body += "(step q%d true :rule chk :args ((eo::is_eq (eo::typeof d%d) (Tag %s))))\n" % (i, i, tx(ty))
        # the other sorts of commands
        if ty != "Bool" and c == "assume":
            neg.append(("(assume a%d %s)\n" % (i, tt(t)), t, "not a formula", c))
        if ty != "Type" and c == "declare":
            neg.append(("(declare-const d%d %s)\n" % (i, tt(t)), t, "not a type", c))
        if ty != "Bool" and c == "arg":
            neg.append(("(step s%d :rule any_arg :args (%s))\n" % (i, tt(t)), t, "not a formula", c))
        if ty != "Bool" and c == "rule":
            neg.append(("(declare-rule r%d () :conclusion %s)\n(step s%d %s :rule r%d)\n" % (i, tt(t), i, tt(t), i), t, "not a formula", c))
        keys.append((head + tt(t), t[0] == 'app'))
        env.notes["well typed, in " + c] = env.notes.get("well typed, in " + c, 0) + 1
    r = env.run({"b.eo": head + body}, "b.eo")
    if not r.accepted:
        # one of them
        for l in body.splitlines():
            pass
        raise Violation("a file of well-typed terms is rejected: " + r.show(), dict(env.have), "ethos b.eo")
    for t, ty in wrong:
        i += 1
        neg.append(("(define d%d () %s :type %s)\n" % (i, tt(t), tx(ty)), t, "of another type", "define"))
    for text, t, why, c in neg:
        r = env.run({"b.eo": head + text}, "b.eo")
        if r.verdict != "reject":
            raise Violation("a term that is %s is accepted: %s: %s" % (why, text, r.show()), dict(env.have), "ethos b.eo")
        keys.append((head + text, True))
        env.notes["%s, in %s" % (why, c)] = env.notes.get("%s, in %s" % (why, c), 0) + 1
    return keys


# ----- types, in every position where a type is expected

THEAD = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const a U)
(declare-const b U)
(declare-const v V)
(declare-const g (-> U U))
(declare-const List (-> Type Type))
(declare-const Pair (-> Type Type Type))
(declare-const Arr (-> U Type))
(declare-const BV (-> Int Type))
(declare-const Mix (-> Type U Int Type))
(declare-const HO (-> (-> Type Type) Type))
(declare-const VL Type)
(declare-const vn VL)
(declare-parameterized-const vc ((T Type :implicit)) (-> T VL VL) :right-assoc-nil vn)
(declare-const all (-> VL Bool Bool) :binder vc)
(declare-parameterized-const tyc ((T Type)) U)
(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
"""
TCTX = ["(declare-const x %s)", "(declare-const x (-> U %s))", "(declare-const x (-> U %s U))", "(declare-const x (-> U (-> %s U) U))",
        "(declare-const x (List (List %s)))",
        "(program f ((x %s)) :signature (%s) U (((f x) a)))", "(program f ((x U)) :signature (%s) U)",
        "(program f ((x U)) :signature (U) %s)", "(program f ((T Type) (x (Pair T %s))) :signature ((Pair T %s)) T)",
        "(declare-rule r ((x %s)) :args (x) :conclusion true)", "(define f ((x %s)) x)", "(define f ((T Type) (x (Pair T %s))) x)",
        "(define f () (all ((x %s)) true))", "(define f () (all ((y U) (x %s)) true))",
        "(declare-datatype D ((c (s %s))))", "(declare-datatypes ((D 0) (E 1)) (((c (s U))) (par (X) ((d (s2 X) (s3 %s))))))",
        "(declare-consts <string> %s)", "(declare-parameterized-const c ((x %s)) U)", "(declare-parameterized-const c ((x U)) %s)",
        "(declare-parameterized-const c ((T Type :implicit) (x %s :opaque)) (-> T U))",
        "(declare-const x (-> (! U :foo) %s))",
        "(step s true :rule chk :args ((eo::is_ok (eo::var \"x\" %s))))",
        "(step s true :rule chk :args ((eo::is_var (eo::var \"x\" (List %s)))))"]


def gen_ty(s, d):
    """a tree: ('t', text) for a type without parts, ('n', head, parts), ('v', text) a term of type U, ('i', text) an integer,
    ('h', text) a type constructor"""
    m = s.n(12)
    if d <= 0 or m < 3:
        return ("t", s.pick(["U", "V", "Bool", "Int", "U"]))
    r = lambda: gen_ty(s, d - 1)
    if m < 5:
        return ("n", "->", [r() for _ in range(s.r(2, 4))])
    if m < 7:
        return ("n", "List", [r()])
    if m == 7:
        return ("n", "Pair", [r(), r()])
    if m == 8:
        return ("n", "Arr", [("v", s.pick(["a", "b", "(g a)"]))])
    if m == 9:
        return ("n", "BV", [("i", s.pick(["0", "8", "(eo::add 3 5)"]))])
    if m == 10:
        return ("n", "Mix", [r(), ("v", s.pick(["a", "(g (g b))"])), ("i", "4")])
    return ("n", "HO", [("h", s.pick(["List", "(_ Pair U)"]))])


def ty_text(t):
    return t[1] if t[0] != "n" else "(%s %s)" % (t[1], " ".join(ty_text(x) for x in t[2]))


def ty_paths(t, p=()):
    yield p
    if t[0] == "n":
        for i, x in enumerate(t[2]):
            yield from ty_paths(x, p + (i,))


def ty_edit(t, p, f):
    if not p:
        return f(t)
    xs = list(t[2])
    xs[p[0]] = ty_edit(xs[p[0]], p[1:], f)
    return ("n", t[1], xs)


def gen_types(s):
    good = [(gen_ty(s, s.r(0, 4)), s.pick(TCTX)) for _ in range(4)]

    def bad(t):
        if t[0] in ("t", "n"):
            return s.pick([("t", "a"), ("t", "true"), ("t", "3"), ("t", "List"), ("t", "Pair"), ("t", "(g a)"), ("t", "(_ Pair U)"),
                           ("n", "Arr", [("t", "U")]), ("n", "BV", [("t", "a")]), ("n", "HO", [("t", "U")]), ("t", "Arr"),
                           ("n", "List", [("t", "U"), ("t", "U")]), ("t", "g"), ("n", "U", [("t", "U")]), ("t", "v")])
        if t[0] == "v":
            return s.pick([("v", "U"), ("v", "v"), ("v", "3"), ("v", "g"), ("v", "(g v)"), ("v", "true")])
        if t[0] == "i":
            return s.pick([("i", "a"), ("i", "Int"), ("i", "true"), ("i", "(eo::add 1 a)"), ("i", "(eo::zdiv 1 0)")])
        return s.pick([("h", "U"), ("h", "Pair"), ("h", "a"), ("h", "(List U)"), ("h", "Arr")])
    out = []
    for _ in range(3):
        t = gen_ty(s, s.r(0, 4))
        p = s.pick(list(ty_paths(t)))
        out.append((ty_edit(t, p, bad), s.pick(TCTX)))
    return good, out


def check_types(case, env):
    good, bad = case
    keys = []
    for k, cs in enumerate((good, bad)):
        for t, c in cs:
            x = ty_text(t)
            if len(x) > 1000:
                continue
            text = THEAD + c.replace("%s", x) + "\n"
            r = env.run({"b.eo": text}, "b.eo")
            want = ("correct", "reject")[k]
            if r.verdict != want:
                raise Violation("%s in: %s\n%s" % ("a well-formed type is rejected" if not k else "something that is not a type is accepted as one",
                                                   c.replace("%s", x), r.show()), {"b.eo": text}, "ethos b.eo")
            env.notes[("type in ", "no type in ")[k] + c.split(" ")[0][1:]] = env.notes.get(("type in ", "no type in ")[k] + c.split(" ")[0][1:], 0) + 1
            keys.append((c + x, t[0] == "n"))
    return keys


PARTS = [Part("types", gen_types, check_types, 1200, 30000),
         Part("typing", gen, check, 4000, 120000)]
