"""Reference model of Eunoia terms, literals, desugaring and evaluation.

Values (fully evaluated ground terms) are tuples
  ('b',bool) ('z',int) ('q',Fraction) ('d',Fraction)      Boolean, numeral, rational, decimal
  ('y',width,value) ('x',width,value)                     binary, hexadecimal
  ('s',(code points...))                                  string
  ('c',name)                                              constant (or type constant)
  ('v',name,type)                                         variable
  ('a',f,x)                                               curried application
STUCK is the result of an evaluation that fails.

Surface terms are
  ('L',value) ('S',symbol) ('A',head,(args)) ('_',f,(args)) ('E',operator,(args))
  ('P',program,(args))
"""
from fractions import Fraction
import re, sys

sys.setrecursionlimit(200000)


class _Stuck:
    def __repr__(self):
        return "STUCK"


STUCK = _Stuck()


class Fuel(Exception):
    """the model gives up on this evaluation"""


TRUE, FALSE = ('b', True), ('b', False)


def B(b):
    return TRUE if b else FALSE


def Z(n):
    return ('z', n)


def Q(n, d=1):
    return ('q', Fraction(n, d))


def S(s):
    return ('s', tuple(ord(c) for c in s))


def C(n):
    return ('c', n)


def app(f, *xs):
    for x in xs:
        f = ('a', f, x)
    return f


def spine(v):
    args = []
    while v[0] == 'a':
        args.append(v[2])
        v = v[1]
    return v, args[::-1]


# ------------------------------------------------------------------ printing

def str_lit(cps):
    o = []
    for c in cps:
        if c == 34:
            o.append('""')
        elif 32 <= c < 127 and c != 92:
            o.append(chr(c))
        else:
            o.append("\\u{%X}" % c)
    return '"' + "".join(o) + '"'


def dec_lit(f):
    """a terminating decimal"""
    s = "-" if f < 0 else ""
    f = abs(f)
    n, d = f.numerator, f.denominator
    k = 0
    while (10 ** k) % d:
        k += 1
        if k > 400:
            raise Fuel()
    k = max(k, 1)
    t = str(n * 10 ** k // d).rjust(k + 1, "0")
    return s + t[:-k] + "." + t[-k:]


SIMPLE = re.compile(r"^[A-Za-z~!@$%^&*_+=<>?/.:\-][0-9A-Za-z~!@$%^&*_+=<>?/.:\-]*$")


def sym(n):
    if SIMPLE.match(n) and not n.startswith(":"):
        return n
    return "|" + n + "|"


def pv(v):
    """print a value, applications as explicit curried ones"""
    k = v[0]
    if k == 'b':
        return "true" if v[1] else "false"
    if k == 'z':
        return str(v[1])
    if k == 'q':
        return "%d/%d" % (v[1].numerator, v[1].denominator)
    if k == 'd':
        return dec_lit(v[1])
    if k == 'y':
        if v[1] == 0:
            return "(eo::to_bin 0 0)"
        return "#b" + bin(v[2])[2:].rjust(v[1], "0")
    if k == 'x':
        if v[1] == 0 or (k == 'x' and v[1] % 4):
            raise Fuel()
        return "#x" + ("%x" % v[2]).rjust(v[1] // 4, "0")
    if k == 's':
        return str_lit(v[1])
    if k == 'c':
        return sym(v[1])
    if k == 'v':
        return "(eo::var %s %s)" % (str_lit([ord(c) for c in v[1]]), pv(v[2]))
    if k == 'a':
        f, xs = spine(v)
        return "(_ %s)" % " ".join([pv(f)] + [pv(x) for x in xs])
    if k == 'alt':
        return max((pv(x) for x in v[1:] if x is not STUCK), key=len, default="")
    raise ValueError(v)


def ps(t):
    """print a surface term"""
    k = t[0]
    if k == 'L':
        return pv(t[1])
    if k == 'S':
        return sym(t[1])
    if k == 'A':
        return "(%s)" % " ".join([ps(t[1])] + [ps(x) for x in t[2]])
    if k == '_':
        return "(_ %s)" % " ".join([ps(t[1])] + [ps(x) for x in t[2]])
    if k == 'E':
        return "(eo::%s)" % " ".join([t[1]] + [ps(x) for x in t[2]])
    if k == 'P':
        return "(%s)" % " ".join([sym(t[1])] + [ps(x) for x in t[2]])
    if k == 'T':       # verbatim text
        return t[1]
    raise ValueError(t)


def lit(v):
    return ('L', v)


def E(op, *args):
    return ('E', op, tuple(args))


def A(h, *args):
    return ('A', ('S', h) if isinstance(h, str) else h, tuple(args))


def size(t):
    if t[0] in 'LST':
        return 1
    n = 1
    for x in t[2]:
        n += size(x)
    return n


# ------------------------------------------------------------------ literals

LITK = "bzqdyxs"
NARY = ("and", "or", "xor", "add", "mul", "concat")
ARITY = {"not": 1, "neg": 1, "qdiv": 2, "zdiv": 2, "zmod": 2, "is_neg": 1, "gt": 2, "len": 1,
         "extract": 3, "find": 2, "to_z": 1, "to_q": 1, "to_bin": 2, "to_str": 1}
LITOPS = list(NARY) + list(ARITY)


def litop(op, a):
    """value of a literal operator on values, or STUCK, or ('alt', v1, v2..)
    where the manual leaves a choice"""
    n = len(a)
    if op in NARY:
        if n < 2:
            return STUCK
    elif n != ARITY[op]:
        return STUCK
    if any(x[0] not in LITK for x in a):
        return STUCK
    ks = {x[0] for x in a}
    k = a[0][0]
    same = len(ks) == 1
    if op in ("and", "or", "xor"):
        if not same:
            return STUCK
        f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
        if k == 'b':
            r = a[0][1]
            for x in a[1:]:
                r = f(r, x[1])
            return B(r)
        if k in "yx":
            if len({x[1] for x in a}) != 1:
                return STUCK
            r = a[0][2]
            for x in a[1:]:
                r = f(r, x[2])
            return (k, a[0][1], r)
        return STUCK
    if op == "not":
        if k == 'b':
            return B(not a[0][1])
        if k in "yx":
            return (k, a[0][1], (1 << a[0][1]) - 1 - a[0][2])
        return STUCK
    if op in ("add", "mul"):
        if not same:
            return STUCK
        if k in "zqd":
            r = a[0][1]
            for x in a[1:]:
                r = r + x[1] if op == "add" else r * x[1]
            return (k, r)
        if k in "yx":
            if len({x[1] for x in a}) != 1:
                return STUCK
            r = a[0][2]
            for x in a[1:]:
                r = r + x[2] if op == "add" else r * x[2]
            return (k, a[0][1], r % (1 << a[0][1]))
        return STUCK
    if op == "concat":
        if not same:
            return STUCK
        if k == 's':
            return ('s', sum((x[1] for x in a), ()))
        if k in "yx":
            w, r = 0, 0
            for x in a:
                w += x[1]
                r = (r << x[1]) | x[2]
            v = (k, w, r)
            return v if k == 'y' else ('alt', STUCK, v)
        return STUCK
    if op == "neg":
        if k in "zqd":
            return (k, -a[0][1])
        if k in "yx":
            v = (k, a[0][1], -a[0][2] % (1 << a[0][1]))
            return v if k == 'y' else ('alt', STUCK, v)
        return STUCK
    if op == "qdiv":
        if same and k in "zqd" and a[1][1] != 0:
            return ('q', Fraction(a[0][1]) / Fraction(a[1][1]))
        return STUCK
    if op in ("zdiv", "zmod"):
        if not same:
            return STUCK
        if k == 'z':
            x, y = a[0][1], a[1][1]
            if y == 0:
                return STUCK
            fl = (x // y, x % y)
            eu = fl if y > 0 else (-(x // -y), x % -y)
            i = 0 if op == "zdiv" else 1
            if fl == eu:
                return Z(fl[i])
            return ('alt', Z(eu[i]), Z(fl[i]))
        if k in "yx":
            if a[0][1] != a[1][1]:
                return STUCK
            w, x, y = a[0][1], a[0][2], a[1][2]
            if op == "zdiv":
                return (k, w, (1 << w) - 1 if y == 0 else x // y)
            return (k, w, x if y == 0 else x % y)
        return STUCK
    if op == "is_neg":
        return B(a[0][1] < 0) if k in "zqd" else STUCK
    if op == "gt":
        if not same:
            return STUCK
        if k in "zqd":
            return B(a[0][1] > a[1][1])
        if k in "yx":
            return ('alt', STUCK, B(a[0][2] > a[1][2]))
        return STUCK
    if op == "len":
        if k == 'y':
            return Z(a[0][1])
        if k == 's':
            return Z(len(a[0][1]))
        return STUCK
    if op == "extract":
        if a[1][0] != 'z' or a[2][0] != 'z':
            return STUCK
        i, j = a[1][1], a[2][1]
        if k == 's':
            s = a[0][1]
            return ('s', s[i:j + 1] if 0 <= i <= j else ())
        if k in "yx":
            w, x = a[0][1], a[0][2]
            if i < 0 or j < i or i >= w:
                v = (k, 0, 0)
            else:
                j = min(j, w - 1)
                v = (k, j - i + 1, (x >> i) & ((1 << (j - i + 1)) - 1))
            return v if k == 'y' else ('alt', STUCK, v)
        return STUCK
    if op == "find":
        if same and k == 's':
            s, t = a[0][1], a[1][1]
            for i in range(len(s) - len(t) + 1):
                if s[i:i + len(t)] == t:
                    return Z(i)
            return Z(-1)
        return STUCK
    if op == "to_z":
        if k == 'z':
            return a[0]
        if k == 'q':
            return Z(a[0][1].__floor__())
        if k == 'd':
            return ('alt', STUCK, Z(a[0][1].__floor__()))
        if k == 'y':
            return Z(a[0][2])
        if k == 's':
            return Z(a[0][1][0]) if len(a[0][1]) == 1 else STUCK
        return STUCK
    if op == "to_q":
        if k == 'q':
            return a[0]
        if k == 'z':
            return ('q', Fraction(a[0][1]))
        if k == 'd':
            return ('alt', STUCK, ('q', a[0][1]))
        return STUCK
    if op == "to_bin":
        if k != 'z' or not 0 <= a[0][1] < 2 ** 32:
            return STUCK
        w = a[0][1]
        if w > 4096:
            raise Fuel()
        x = a[1]
        if x[0] == 'y':
            return ('y', w, x[2] % (1 << w))
        if x[0] == 'x':
            return ('alt', STUCK, ('y', w, x[2] % (1 << w)))
        if x[0] == 'z':
            v = ('y', w, x[1] % (1 << w))
            return v if x[1] >= 0 else ('alt', STUCK, v)
        return STUCK
    if op == "to_str":
        if k == 's':
            return a[0]
        if k == 'z':
            return ('s', (a[0][1],)) if 0 <= a[0][1] < 196608 else STUCK
        if k == 'q':
            return S("%d/%d" % (a[0][1].numerator, a[0][1].denominator))
        if k == 'd':
            f = a[0][1]
            full = S("%d/%d" % (f.numerator, f.denominator))
            if f.denominator == 1:
                return ('alt', S("%d" % f.numerator), full)
            return full
        if k == 'y':
            return S("#b" + (bin(a[0][2])[2:].rjust(a[0][1], "0") if a[0][1] else ""))
        if k == 'x':
            return S("#x" + (("%x" % a[0][2]).rjust(a[0][1] // 4, "0") if a[0][1] else ""))
        return STUCK
    raise ValueError(op)


# ----------------------------------------------------------------- signature

LISTOPS = {"nil": 2, "cons": 3, "list_len": 2, "list_concat": 3, "list_nth": 3, "list_find": 3,
           "list_rev": 2, "list_erase": 3, "list_erase_all": 3, "list_setof": 2, "list_minclude": 3,
           "list_meq": 3, "list_diff": 3, "list_inter": 3, "list_singleton_elim": 2}
NILATTRS = ("right-assoc-nil", "left-assoc-nil", "right-assoc-ns-nil", "left-assoc-ns-nil")
ATTRTEXT = {"right-assoc-ns-nil": "right-assoc-non-singleton-nil",
            "left-assoc-ns-nil": "left-assoc-non-singleton-nil"}


class Op:
    """An operator: attribute, the term that goes with it (nil as a value or a
    function of the type of the list; combining operator; constructor)."""
    def __init__(self, name, attr=None, term=None):
        self.name, self.attr, self.term = name, attr, term
        self.left = bool(attr) and attr.startswith("left")

    @property
    def isnil(self):
        return self.attr in NILATTRS

    @property
    def ns(self):
        return self.attr in ("right-assoc-ns-nil", "left-assoc-ns-nil")


class Sig:
    def __init__(self):
        self.ops = {}      # name -> Op
        self.progs = {}    # name -> list of (patterns, rhs), lists: set of list parameters
        self.params = {}   # program -> its parameters
        self.lists = {}    # program -> set of parameters marked :list
        self.builtin_eq = True


def mknode(op, e, rest):
    return app(C(op.name), rest, e) if op.left else app(C(op.name), e, rest)


def elems(op, nil, v):
    """elements, the outermost one first, or None"""
    r = []
    f = C(op.name)
    while v != nil:
        if v[0] == 'a' and v[1][0] == 'a' and v[1][1] == f:
            if op.left:
                r.append(v[2])
                v = v[1][2]
            else:
                r.append(v[1][2])
                v = v[2]
        else:
            return None
    return r


def build(op, tail, es):
    for e in reversed(es):
        tail = mknode(op, e, tail)
    return tail


def listop(name, op, nil, a):
    """a: values after the operator. nil: its nil terminator"""
    if name == "nil":
        return nil
    if name == "cons":
        if elems(op, nil, a[1]) is None:
            return STUCK
        return mknode(op, a[0], a[1])
    x = elems(op, nil, a[0])
    if x is None:
        return STUCK
    if name == "list_len":
        return Z(len(x))
    if name == "list_concat":
        y = elems(op, nil, a[1])
        if y is None:
            return STUCK
        return build(op, a[0], y) if op.left else build(op, a[1], x)
    if name == "list_nth":
        if a[1][0] != 'z' or not 0 <= a[1][1] < len(x):
            return STUCK
        return x[a[1][1]]
    if name == "list_find":
        return Z(x.index(a[1]) if a[1] in x else -1)
    if name == "list_rev":
        return build(op, nil, x[::-1])
    if name == "list_erase":
        if a[1] in x:
            i = x.index(a[1])
            x = x[:i] + x[i + 1:]
        return build(op, nil, x)
    if name == "list_erase_all":
        return build(op, nil, [e for e in x if e != a[1]])
    if name == "list_setof":
        r = []
        for e in x:
            if e not in r:
                r.append(e)
        return build(op, nil, r)
    if name == "list_singleton_elim":
        return x[0] if len(x) == 1 else a[0]
    y = elems(op, nil, a[1])
    if y is None:
        return STUCK
    if name in ("list_minclude", "list_meq"):
        le = all(x.count(e) <= y.count(e) for e in x)
        ge = all(y.count(e) <= x.count(e) for e in y)
        return B(le if name == "list_minclude" else le and ge)
    rest = list(y)
    d, i = [], []
    for e in x:
        if e in rest:
            rest.remove(e)
            i.append(e)
        else:
            d.append(e)
    return build(op, nil, d if name == "list_diff" else i)


class Model:
    """Evaluates surface terms."""
    def __init__(self, sig, fuel=20000):
        self.sig, self.fuel0 = sig, fuel
        self.fuel = fuel
        self.calls = 0
        self.sizes = {}
        self.pats = {}
        self.maxsize = 5000
        self.pending = ()      # programs whose cases are not known yet

    def big(self, v):
        """give up on values whose unfolding is big"""
        if v is not STUCK and self.sizeof(v) > self.maxsize:
            raise Fuel()
        return v

    def sizeof(self, v):
        if v[0] != 'a':
            if v[0] == 'z':
                return 1 + v[1].bit_length() // 2
            return 1 + len(v[1]) if v[0] == 's' else 1
        r = self.sizes.get(id(v))
        if r is None:
            r = (self.sizeof(v[1]) + self.sizeof(v[2]), v)
            self.sizes[id(v)] = r
        return r[0]

    def nil(self, op, typ=None):
        return op.term(typ) if callable(op.term) else op.term

    # -- application of operators with attributes to evaluated arguments
    def apply(self, name, args, flags):
        """args: values; flags: is the argument a :list parameter"""
        op = self.sig.ops.get(name)
        f = C(name)
        if op is None or op.attr is None or not args:
            return app(f, *args)
        if op.isnil:
            nil = self.nil(op, None)
            xs = list(zip(args, flags))
            if op.left:
                xs.reverse()
            # xs: from the tail end backwards ... work on the right-hand form
            if op.ns:
                # not a list if it has less than two children that are not lists
                nonl = sum(1 for _, l in xs if not l)
                if len(xs) == 1:
                    return xs[0][0] if not xs[0][1] else self.elim(op, nil, xs[0][0])
                r = self.spl(op, nil, xs)
                if nonl < 2:
                    r = self.elim(op, nil, r)
                return r
            return self.spl(op, nil, xs)
        if op.attr in ("right-assoc", "left-assoc"):
            if len(args) < 2:
                return app(f, *args)
            if op.attr == "right-assoc":
                r = args[-1]
                for x in reversed(args[:-1]):
                    r = app(f, x, r)
            else:
                r = args[0]
                for x in args[1:]:
                    r = app(f, r, x)
            return r
        if op.attr == "arg-list":
            if len(args) == 1 and flags[0]:
                return app(f, args[0])
            l = self.apply(op.term, args, flags)
            return STUCK if l is STUCK else app(f, l)
        if op.attr in ("chainable", "pairwise"):
            if len(args) == 2:
                return app(f, *args)
            if op.attr == "chainable":
                cs = [app(f, x, y) for x, y in zip(args, args[1:])]
            else:
                cs = [app(f, args[i], args[j]) for i in range(len(args)) for j in range(i + 1, len(args))]
            comb = self.sig.ops[op.term]
            if len(args) == 1:
                return self.nil(comb)
            return self.apply(op.term, cs, [False] * len(cs))
        raise ValueError(op.attr)

    def spl(self, op, nil, xs):
        """xs in right-associative order"""
        if xs and xs[-1][1]:
            r, xs = xs[-1][0], xs[:-1]
        else:
            r = nil
        for v, l in reversed(xs):
            if r is STUCK:
                return STUCK
            if l:
                a = [r, v] if op.left else [v, r]
                r = listop("list_concat", op, nil, a)
            else:
                r = mknode(op, v, r)
        return r

    def elim(self, op, nil, v):
        if v is STUCK:
            return STUCK
        return listop("list_singleton_elim", op, nil, [v])

    # -- evaluation
    def eval(self, t, env=None):
        self.fuel = self.fuel0
        self.sizes.clear()
        self.calls = 0
        return self.ev(t, env or {}, frozenset())

    def ev(self, t, env, lists):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = t[0]
        if k == 'L':
            return t[1]
        if k == 'S':
            if t[1] in env:
                return env[t[1]]
            return C(t[1])
        if k == 'E':
            return self.evop(t[1], t[2], env, lists)
        args = []
        stuck = False
        for x in t[2]:
            v = self.ev(x, env, lists)
            if v is STUCK:
                stuck = True
            elif v[0] == 'alt':
                raise Fuel()
            args.append(v)
        if stuck:
            return STUCK
        if k == 'P':
            return self.call(t[1], args)
        if k == '_':
            f = self.ev(t[1], env, lists)
            return STUCK if f is STUCK else app(f, *args)
        if k == 'A':
            h = t[1]
            if h[0] == 'S' and h[1] not in env:
                fl = [x[0] == 'S' and x[1] in lists for x in t[2]]
                return self.big(self.apply(h[1], args, fl))
            f = self.ev(h, env, lists)
            return STUCK if f is STUCK else self.big(app(f, *args))
        raise ValueError(t)

    def evop(self, op, ts, env, lists):
        ev = lambda i: self.ev(ts[i], env, lists)
        if op == "ite":
            c = ev(0)
            if c is not STUCK and c[0] == 'alt':
                raise Fuel()
            if c == TRUE:
                return ev(1)
            if c == FALSE:
                return ev(2)
            # ethos evaluates the branches (they can make it diverge)
            ev(1), ev(2)
            return STUCK
        if op == "requires":
            a, b, c = ev(0), ev(1), ev(2)
            if any(x is not STUCK and x[0] == 'alt' for x in (a, b)):
                raise Fuel()
            if a is STUCK or b is STUCK:
                return STUCK
            return c if a == b else STUCK
        a = [ev(i) for i in range(len(ts))]
        if any(x is not STUCK and x[0] == 'alt' for x in a):
            raise Fuel()
        if op == "is_ok":
            return B(a[0] is not STUCK)
        if op == "is_eq":
            return B(a[0] is not STUCK and a[1] is not STUCK and a[0] == a[1])
        if op in ("is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var"):
            kk = {"is_z": 'z', "is_q": 'q', "is_bin": 'y', "is_str": 's', "is_bool": 'b', "is_var": 'v'}[op]
            return B(a[0] is not STUCK and a[0][0] == kk)
        if any(x is STUCK for x in a):
            return STUCK
        if op == "eq":
            return B(a[0] == a[1])
        if op == "nameof":
            return S(a[0][1]) if a[0][0] in "cv" else STUCK
        if op == "var":
            return ('v', "".join(chr(c) for c in a[0][1]), a[1]) if a[0][0] == 's' else STUCK
        if op in LISTOPS:
            if len(a) != LISTOPS[op]:
                return STUCK
            o = self.sig.ops.get(a[0][1]) if a[0][0] == 'c' else None
            if o is None or not o.isnil:
                return STUCK
            nil = self.nil(o, a[1] if op == "nil" else None)
            return self.big(listop(op, o, nil, a[1:]))
        if op in LITOPS:
            return self.big(litop(op, a))
        raise ValueError(op)

    def call(self, prog, args):
        self.calls += 1
        if prog in self.pending:
            # unevaluated calls let eo::ite evaluate both branches, which need not end
            raise Fuel()
        lists = self.sig.lists.get(prog, frozenset())
        params = self.sig.params[prog]
        for pats, rhs in self.sig.progs[prog]:
            m = {}
            ok = True
            for p, v in zip(pats, args):
                if not self.match(p, v, m, params, lists):
                    ok = False
                    break
            if ok:
                return self.ev(rhs, m, lists)
        return STUCK

    def pat(self, t, params, lists):
        """core form of a pattern: a value with ('p',name) for parameters"""
        r = self.pats.get(id(t))
        if r is None:
            env = {p: ('p', p) for p in params}
            v = self.ev(t, env, lists)
            if v is STUCK:
                raise Fuel()
            r = self.pats[id(t)] = (v, t)
        return r[0]

    def match(self, p, v, m, params, lists):
        return pmatch(self.pat(p, params, lists), v, m)


def pmatch(p, v, m):
    if p[0] == 'p':
        if p[1] in m:
            return m[p[1]] == v
        m[p[1]] = v
        return True
    if p[0] == 'a':
        return v[0] == 'a' and pmatch(p[1], v[1], m) and pmatch(p[2], v[2], m)
    return p == v


def subst(v, m):
    if v[0] == 'p':
        return m.get(v[1], v)
    if v[0] == 'a':
        return ('a', subst(v[1], m), subst(v[2], m))
    return v


# ------------------------------------------------------- queries about terms

CHK = "(declare-rule chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)\n"


class Queries:
    """A file in which every line asks one question, expecting the answer true."""
    def __init__(self):
        self.items = []        # (text, key, nontrivial)

    def true(self, text, key=None, nontrivial=True):
        self.items.append((text, key or text, nontrivial))

    def equal(self, text, value, nontrivial=True):
        self.true("(eo::is_eq %s %s)" % (text, pv(value)), None, nontrivial)

    def stuck(self, text, nontrivial=True):
        self.true("(eo::not (eo::is_ok %s))" % text, None, nontrivial)

    def notequal(self, text, value, nontrivial=True):
        self.true("(eo::not (eo::is_eq %s %s))" % (text, pv(value)), None, nontrivial)

    def value(self, text, v, nontrivial=True):
        """text evaluates to v, which may be STUCK or a choice"""
        if v is STUCK:
            self.stuck(text, nontrivial)
        elif v[0] == 'alt':
            o = []
            for x in v[1:]:
                o.append("(eo::not (eo::is_ok %s))" % text if x is STUCK
                         else "(eo::is_eq %s %s)" % (text, pv(x)))
            self.true("(eo::or %s)" % " ".join(o), None, nontrivial)
        else:
            self.equal(text, v, nontrivial)

    def text(self, header, start=0):
        out = [header, CHK]
        for i, (q, _, _) in enumerate(self.items):
            out.append("(step q%d true :rule chk :args (%s))\n" % (i, q))
        return "".join(out)

    def keys(self):
        return [(k, n) for _, k, n in self.items]

    def run(self, env, header, name="q.eo", args=(), variant="release", extra=None):
        from .engine import Violation
        text = self.text(header)
        files = dict(extra or {})
        files[name] = text
        r = env.run(files, name, args, variant)
        if r.verdict == "correct":
            return self.keys()
        m = re.search(re.escape(name).replace("/", ".") + r":(\d+)\.", r.errmsg())
        line = ""
        if m:
            ls = text.split("\n")
            n = int(m.group(1))
            if n <= len(ls):
                line = ls[n - 1]
                # a file with this question alone
                q1 = Queries()
                q1.items = [(line[line.index(":args (") + 7:-2], "", True)] if ":args (" in line else self.items
                files[name] = q1.text(header)
                r1 = env.run(files, name, args, variant)
                if r1.verdict == "correct":
                    files[name] = text
        raise Violation("expected true but got %s for: %s\n%s" % (r.verdict, line, r.show()), files,
                        "ethos %s" % " ".join(list(args) + [name]))
