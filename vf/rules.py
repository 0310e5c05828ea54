"""Random proof rules over random signatures (world.py), steps that apply them,
and a model of when a step is accepted."""
from .eo import *
from .world import *
from .checks.c07 import gen_pat, instantiate, value, vars_of


class Rule:
    pass


def gen_rule(s, w, name, allow=("assumption", "premise-list", "explicit")):
    r = Rule()
    r.name = name
    r.sorry = False
    params, order, lists = {}, [], set()
    for t in SORTS:
        for j in range(2):
            p = "%s_%d" % ({"U": "x", "V": "y", "Bool": "b", "Int": "i", "Str": "z"}[t], j)
            params.setdefault(t, []).append(p)
            order.append((p, t, False))
    for o in w.ops:
        if o[1] in NILATTRS and s.p(60):
            p = "l_" + o[0]
            params.setdefault("list " + o[0], []).append(p)
            order.append((p, o[3], True))
            lists.add(p)
    pat = lambda t, d: gen_pat(s, w, t, params, d, lists)
    r.argsorts = [s.pick(SORTS) if s.p(60) else "Bool" for _ in range(s.w([(2, 1), (2, 0), (2, 2), (1, 3)]))]
    r.args = [pat(t, s.r(0, 2)) for t in r.argsorts]
    r.explicit = pat("Bool", s.r(0, 2)) if "explicit" in allow and s.p(20) else None
    r.assumption = pat("Bool", s.r(0, 2)) if "assumption" in allow and s.p(20) else None
    r.plist = None
    r.premises = []
    if "premise-list" in allow and s.p(20):
        o = s.pick([o for o in w.ops if o[2] == "Bool" and o[3] == "Bool" and o[1] in NILATTRS + ("right-assoc", "left-assoc")])
        r.plist = o[0]
        r.premises = [('S', s.pick(params["Bool"]))] if s.p(60) else [pat("Bool", 2)]
    else:
        r.premises = [pat("Bool", s.r(0, 2)) for _ in range(s.w([(3, 1), (2, 0), (2, 2), (1, 3)]))]
    pats = r.args + ([r.explicit] if r.explicit else []) + ([r.assumption] if r.assumption else []) + r.premises
    bound = set()
    names = {q for q, _, _ in order}
    for p in pats:
        vars_of(p, bound, names)
    bp = {}
    for q, t, l in order:
        if q in bound:
            if l:
                bp.setdefault("list " + q[2:], []).append(q)
                bp.setdefault("lists " + t, []).append(q)
            else:
                bp.setdefault(t, []).append(q)
    r.requires = []
    for _ in range(s.w([(5, 0), (2, 1), (1, 2)])):
        m = s.n(4)
        if m == 0:
            t = s.pick(SORTS)
            x = gen_term(s, w, t, 1, bp, True, (), 0)
            r.requires.append((x, x if s.p(70) else gen_term(s, w, t, 1, bp, True, (), 0)))
        elif m == 1:
            t = s.pick(SORTS)
            r.requires.append((E("is_eq", gen_term(s, w, t, 0, bp), gen_term(s, w, t, 0, bp)),
                               ('L', B(s.p(35)))))
        elif m == 2:
            ls = [o for o in w.ops if o[1] in NILATTRS]
            o = s.pick(ls)
            r.requires.append((E("is_z", E("list_len", ('S', o[0]), gen_term(s, w, o[3], 1, bp))), ('L', B(s.p(60)))))
        else:
            r.requires.append((E("is_ok", gen_term(s, w, s.pick(SORTS), 1, bp, True, (), 0)), ('L', TRUE)))
    r.concl = gen_term(s, w, "Bool", s.r(0, 3), bp, s.p(60), (), 0)
    if s.p(15) and bp.get("Bool"):
        r.concl = ('S', s.pick(bp["Bool"]))
    r.order = [x for x in order if x[0] in bound or s.p(15)]
    r.lists = frozenset(lists)
    rhs = r.concl if not r.explicit or s.p(100) else r.concl
    if r.explicit is not None:
        rhs = r.explicit
    r.rhs = rhs
    for a, b in reversed(r.requires):
        rhs = E("requires", a, b, rhs)
    if not pats:
        # nothing to match: the conclusion has to be evaluated already
        r.requires = []
        try:
            v = Model(w.sig, 2000).eval(r.concl)
        except Fuel:
            v = STUCK
        rhs = r.concl = r.rhs = ('L', TRUE) if v is STUCK else r.concl
    pn = "rule " + name
    w.sig.progs[pn] = [(tuple(pats), rhs)]
    w.sig.params[pn] = [q for q, _, _ in order]
    w.sig.lists[pn] = r.lists
    return r


def rule_text(r, ps=ps):
    o = "(declare-rule %s (%s)" % (r.name, " ".join("(%s %s%s)" % (q, t, " :list" if l else "") for q, t, l in r.order))
    if r.assumption is not None:
        o += " :assumption " + ps(r.assumption)
    if r.plist:
        o += " :premise-list %s %s" % (ps(r.premises[0]), r.plist)
    elif r.premises:
        o += " :premises (%s)" % " ".join(ps(p) for p in r.premises)
    if r.args:
        o += " :args (%s)" % " ".join(ps(p) for p in r.args)
    if r.requires:
        o += " :requires (%s)" % " ".join("(%s %s)" % (ps(a), ps(b)) for a, b in r.requires)
    if r.explicit is not None:
        o += " :conclusion-explicit " + ps(r.explicit)
    else:
        o += " :conclusion " + ps(r.concl)
    if r.sorry:
        o += " :sorry"
    return o + ")\n"


def sort_of(w, v):
    """sort of a value if it is well typed (and not a partial application), or None"""
    k = v[0]
    if k in "bzs":
        return {"b": "Bool", "z": "Int", "s": "Str"}[k]
    f, xs = spine(v)
    if f[0] != 'c':
        return None
    n = f[1]
    if not xs:
        for t in SORTS:
            if n in w.consts[t]:
                return t
        for o in w.ops:
            # the nil of an argument list
            if o[1] == "arg-list" and n == o[0] + "nil":
                return o[0] + "List"
        return None
    ts = [sort_of(w, x) for x in xs]
    for g, a, r in w.fns:
        if g == n:
            return r if list(a) == ts else None
    for g, attr, et, lt in w.ops:
        if attr == "arg-list":
            if g == n:
                return lt if ts == [g + "List"] else None
            if n == g + "cons":
                l = g + "List"
                left = w.sig.ops[n].left
                return l if ts == ([l, et] if left else [et, l]) else None
        elif g == n:
            if attr in ("chainable", "pairwise"):
                return lt if ts == [et, et] else None
            return lt if ts == ([lt, et] if attr.startswith("left") else [et, lt]) else None
    return None


def premise_value(m, r, facts):
    """values handed to the rule for its premises, or None if rejected"""
    if r.plist is None:
        return list(facts)
    op = m.sig.ops[r.plist]
    if not facts:
        return [op.term] if op.isnil else None
    if len(facts) == 1 and not op.isnil:
        return [facts[0]]
    return [m.apply(r.plist, list(facts), [False] * len(facts))]


def predict(w, m, r, args, stated, assumption, facts):
    """Model of a step. facts: values of the premises. Returns the conclusion,
    or None if the step is rejected."""
    if (assumption is None) != (r.assumption is None):
        return None
    if r.explicit is not None and stated is None:
        return None
    if len(args) != len(r.args) or (r.plist is None and len(facts) != len(r.premises)):
        if len(args) + len(facts) == len(r.args) + len(r.premises) or r.plist:
            if len(args) != len(r.args) and r.plist is None:
                raise Fuel()
        return None
    pv_ = premise_value(m, r, facts)
    if pv_ is None:
        return None
    vals = list(args)
    if r.explicit is not None:
        vals.append(stated)
    if assumption is not None:
        vals.append(assumption)
    vals += pv_
    m.fuel, m.calls = 3000, 0
    v = m.call("rule " + r.name, vals)
    if v is STUCK or sort_of(w, v) != "Bool":
        return None
    if stated is not None and stated != v:
        return None
    return v
