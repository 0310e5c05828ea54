"""Random monomorphic signatures with operators of all attributes, and typed
surface terms over them."""
from .eo import *

SORTS = ["U", "V", "Bool", "Int", "Str"]

BASE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const U Type)
(declare-const V Type)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const not (-> Bool Bool))
"""


class World:
    def __init__(self):
        self.sig = Sig()
        self.text = BASE
        self.consts = {"U": [], "V": [], "Bool": [], "Int": [], "Str": []}
        self.fns = []      # (name, argument sorts, result sort)
        self.ops = []      # (name, attr, element sort, list sort)
        self.argcons = {}  # operator -> (its list constructor, attr, element sort, list type)
        self.progs = []    # (name, argument sorts, result sort)
        self.sig.ops["and"] = Op("and", "right-assoc-nil", TRUE)
        self.sig.ops["or"] = Op("or", "left-assoc-nil", FALSE)
        self.sig.ops["not"] = Op("not")
        self.ops += [("and", "right-assoc-nil", "Bool", "Bool"), ("or", "left-assoc-nil", "Bool", "Bool")]
        self.fns.append(("not", ("Bool",), "Bool"))
        self.decls = []
        self.one = False   # apply chainable and pairwise operators to one argument

    def declare(self, t):
        self.decls.append(t)
        self.text += t + "\n"


def gen_world(s, nops=None, attrs=None):
    w = World()
    for t in SORTS:
        for i in range(s.r(2, 4)):
            n = "%s%d" % ({"U": "u", "V": "v", "Bool": "p", "Int": "n", "Str": "s"}[t], i)
            w.consts[t].append(n)
            w.declare("(declare-const %s %s)" % (n, t))
    for i in range(s.r(2, 5)):
        a = tuple(s.pick(SORTS) if s.p(40) else s.pick("UV") for _ in range(s.r(1, 3)))
        r = s.pick(["U", "U", "V", "Bool", "Int"])
        n = "h%d" % i
        w.fns.append((n, a, r))
        w.declare("(declare-const %s (-> %s %s))" % (n, " ".join(a), r))
    attrs = attrs or list(NILATTRS) + ["right-assoc", "left-assoc", "chainable", "pairwise", "arg-list"]
    for i in range(s.r(1, 4) if nops is None else nops):
        add_op(s, w, "f%d" % i, s.pick(attrs))
    return w


def add_op(s, w, n, attr):
    left = attr.startswith("left")
    if attr in NILATTRS:
        lt = s.pick(["U", "V", "U", "Int", "Bool", "Str"])
        et = lt if s.p(60) else s.pick(SORTS)
        nil = {"U": C(s.pick(w.consts["U"])), "V": C(s.pick(w.consts["V"])), "Int": Z(s.r(0, 2)),
               "Bool": B(s.p(50)), "Str": s.pick([S(""), S("a")])}[lt]
        if lt in "UV" and s.p(15):
            cand = [(f, a) for f, a, r in w.fns if r == lt and len(a) == 1 and a[0] in "UV"]
            if cand:
                f, a = s.pick(cand)
                nil = app(C(f), C(w.consts[a[0]][0]))
        w.sig.ops[n] = Op(n, attr, nil)
        w.ops.append((n, attr, et, lt))
        w.declare("(declare-const %s (-> %s %s %s) :%s %s)" % (
            n, lt if left else et, et if left else lt, lt, ATTRTEXT.get(attr, attr), pv(nil)))
    elif attr in ("right-assoc", "left-assoc"):
        lt = s.pick(["U", "V", "Int", "Bool"])
        et = lt if s.p(60) else s.pick(SORTS)
        w.sig.ops[n] = Op(n, attr)
        w.ops.append((n, attr, et, lt))
        w.declare("(declare-const %s (-> %s %s %s) :%s)" % (n, lt if left else et, et if left else lt, lt, attr))
    elif attr in ("chainable", "pairwise"):
        # combined with an operator on Bool
        et = s.pick(SORTS)
        comb = s.pick([o[0] for o in w.ops if o[3] == "Bool" and o[2] == "Bool" and o[1] in
                       NILATTRS + ("right-assoc", "left-assoc")])
        w.sig.ops[n] = Op(n, attr, comb)
        w.ops.append((n, attr, et, "Bool"))
        w.declare("(declare-const %s (-> %s %s Bool) :%s %s)" % (n, et, et, attr, comb))
    elif attr == "arg-list":
        et = s.pick(SORTS)
        rt = s.pick(["U", "Bool", "V"])
        cn, nn, ln = n + "cons", n + "nil", n + "List"
        ca = s.pick(["right-assoc-nil", "left-assoc-nil"])
        w.sig.ops[cn] = Op(cn, ca, C(nn))
        w.sig.ops[n] = Op(n, "arg-list", cn)
        w.ops.append((n, attr, et, rt))
        w.argcons[n] = (cn, ca, et, ln)
        w.declare("(declare-const %s Type)" % ln)
        w.declare("(declare-const %s %s)" % (nn, ln))
        w.declare("(declare-const %s (-> %s %s %s) :%s %s)" % (
            cn, ln if ca[0] == 'l' else et, et if ca[0] == 'l' else ln, ln, ca, nn))
        w.declare("(declare-const %s (-> %s %s) :arg-list %s)" % (n, ln, rt, cn))


def gen_lit(s, t):
    if t == "Int":
        return ('L', Z(s.r(0, 3)))
    if t == "Str":
        return ('L', s.pick([S("a"), S(""), S("ab")]))
    if t == "Bool":
        return ('L', B(s.p(50)))
    return None


def gen_term(s, w, t, depth, params=None, eo=False, progs=(), leaf=50):
    """A surface term of sort t. params: {sort: [names]}; eo: allow operators
    that compute; progs: programs that may be called."""
    ps_ = (params or {}).get(t, [])
    if depth <= 0 or s.p(20):
        m = s.n(100)
        if ps_ and m >= leaf - 20:
            x = s.pick(ps_)
            return x if isinstance(x, tuple) else ('S', x)
        if t in ("Int", "Str", "Bool") and m % 2:
            return gen_lit(s, t)
        return ('S', s.pick(w.consts[t]))
    rec = lambda u: gen_term(s, w, u, depth - 1, params, eo, progs, leaf)

    def recl(u):
        # list parameters also stand for themselves (where they do not splice)
        lp = (params or {}).get("lists " + u)
        return ('S', s.pick(lp)) if lp and s.p(50) else rec(u)
    if eo and s.p(35):
        m = s.n(10)
        if m < 3:
            return E("ite", gen_cond(s, w, depth - 1, params, progs), rec(t), rec(t))
        if m == 3:
            u = s.pick(SORTS)
            x = gen_term(s, w, u, 1, params, False, (), leaf)
            y = x if s.p(60) else gen_term(s, w, u, 1, params, False, (), leaf)
            return E("requires", x, y, rec(t))
        if t == "Int":
            o = s.pick(["add", "mul", "neg", "list_len", "zdiv", "to_z"])
            if o == "list_len":
                ls = [x for x in w.ops if x[1] in NILATTRS]
                x = s.pick(ls)
                return E(o, ('S', x[0]), recl(x[3]))
            if o == "to_z":
                return E(o, rec("Str"))
            return E(o, rec("Int")) if o == "neg" else E(o, rec("Int"), rec("Int"))
        if t == "Bool":
            return gen_cond(s, w, depth - 1, params, progs)
        if t == "Str":
            return E("concat", rec("Str"), rec("Str"))
        ls = [x for x in w.ops if x[1] in NILATTRS and x[3] == t]
        if ls:
            x = s.pick(ls)
            o = s.pick(["cons", "list_concat", "list_rev", "list_setof", "list_erase"])
            f = ('S', x[0])
            if o == "cons":
                return E(o, f, rec(x[2]), recl(t))
            if o == "list_concat":
                return E(o, f, recl(t), recl(t))
            if o == "list_erase":
                return E(o, f, recl(t), rec(x[2]))
            return E(o, f, recl(t))
    pr = [p for p in progs if p[2] == t]
    if pr and s.p(50):
        p = s.pick(pr)
        return ('P', p[0], tuple(recl(u) if s.p(40) else gen_term(s, w, u, 0, params, eo, progs, 0) for u in p[1]))
    c = [("f", f) for f in w.fns if f[2] == t] + [("o", o) for o in w.ops if o[3] == t]
    if not c:
        return rec(t) if depth > 1 else gen_term(s, w, t, 0, params, eo, progs, leaf)
    k, x = s.pick(c)
    if k == "f":
        return ('A', ('S', x[0]), tuple(rec(u) for u in x[1]))
    return gen_op(s, w, x, rec, params)


def gen_op(s, w, x, rec, params=None):
    """an application of an operator with an attribute"""
    n, attr, et, lt = x
    if attr in NILATTRS:
        k = s.w([(4, 2), (3, 1), (3, 3), (1, 4), (1, 5)])
        hetero = "ns" in attr and et != lt
        if hetero:
            # one element alone denotes itself, which has another sort
            k = max(k, 2)
        args = [rec(et) for _ in range(k)]
        lp = (params or {}).get("list " + n, [])
        # (f l) with a list parameter l is l itself, which is a list parameter
        # where it occurs: whether that splices is not decided
        if lp and not hetero and k > 1:
            for i in range(len(args)):
                if s.p(30):
                    args[i] = ('S', s.pick(lp))
        return ('A', ('S', n), tuple(args))
    if attr in ("right-assoc", "left-assoc"):
        k = s.w([(4, 2), (3, 3), (1, 4)])
        args = [rec(et) for _ in range(k)]
        args[0 if attr == "left-assoc" else -1] = rec(lt)
        return ('A', ('S', n), tuple(args))
    one = attr == "arg-list" or w.one and not params and w.sig.ops[w.sig.ops[n].term].isnil
    k = s.w([(4, 2), (3, 3), (1, 4), (1, 1 if one else 2)])
    args = [rec(et) for _ in range(k)]
    if attr == "arg-list":
        lp = (params or {}).get("list " + w.argcons[n][0], [])
        if lp:
            for i in range(k):
                if s.p(35):
                    args[i] = ('S', s.pick(lp))
    return ('A', ('S', n), tuple(args))


def gen_cond(s, w, depth, params, progs):
    m = s.n(6)
    u = s.pick(SORTS)
    a = lambda: gen_term(s, w, u, max(0, depth), params, False, progs, 0)
    if m < 3:
        x = a()
        return E(s.pick(["eq", "is_eq"]), x, x if s.p(25) else a())
    if m == 3:
        return E("not", gen_cond(s, w, depth - 1, params, progs))
    if m == 4:
        return E(s.pick(["is_z", "is_str", "is_bool", "is_ok"]), a())
    return E(s.pick(["and", "or"]), gen_cond(s, w, depth - 1, params, progs), gen_cond(s, w, depth - 1, params, progs))
