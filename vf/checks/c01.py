"""C01: steps are accepted exactly when their rule derives their conclusion."""
import os, re
from ..engine import Part, Discard, Violation
from ..eo import *
from ..world import *
from ..rules import *
from .. import sx

ID = "C01"
RULE = ("an evaluation is one step (good or tampered with) whose acceptance was predicted by the model, or one file of the "
        "test-suite with one step tampered with; non-trivial if the rule has at least one parameter or the step was tampered "
        "with; distinct by rule text and step text")
TECHNIQUE = ("property-based testing: generated proof rules and proofs with one tampered step, against a reference model of "
             "rule application; mutation of the proofs of the test-suite")
NOTE = ("Random search over rules with all combinations of :assumption, :premises, :premise-list, :args, :requires and both "
        "kinds of conclusion. Whether ill-sorted arguments whose sort does not matter are accepted is not decided (the manual "
        "leaves it open), nor are premises handed over in place of arguments.")
ASSUMPTIONS = ["evaluation inside rules is predicted by the same model as in C05-C08",
               "types are monomorphic here (C10)"]

SAME = "(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)\n"


def mutate_value(s, w, v):
    """another value, of the same sort where possible"""
    subs = []

    def walk(v, path):
        subs.append((v, path))
        f, xs = spine(v)
        for i, x in enumerate(xs):
            walk(x, path + [i])
    walk(v, [])
    m = Model(w.sig)
    x, path = subs[-1 - s.n(len(subs))] if s.p(70) else subs[0]
    t = sort_of(w, x)
    if t not in SORTS:
        return v
    k = s.n(4)
    if t == "Bool" and k == 0:
        y = app(C("not"), x)
    elif k == 1 and spine(x)[1]:
        f, xs = spine(x)
        xs = s.perm(xs)
        y = app(f, *xs)
        if sort_of(w, y) != t:
            y = x
    else:
        y = m.eval(gen_term(s, w, t, s.r(0, 1)))

    def put(v, path):
        if not path:
            return y
        f, xs = spine(v)
        xs = list(xs)
        xs[path[0]] = put(xs[path[0]], path[1:])
        return app(f, *xs)
    return put(v, path)


def gen(s, rt=None):
    w = gen_world(s)
    rules = [gen_rule(s, w, "r%d" % i) for i in range(s.r(1, 4))]
    m = Model(w.sig, 3000)
    cmds = []      # text
    facts = []     # (name, value)
    keys = []
    cnt = [0]

    def fresh(p):
        cnt[0] += 1
        return "@%s%d" % (p, cnt[0])

    def prove(v, facts, cmds):
        """name of a proof of v"""
        have = [n for n, u in facts if u == v]
        if have and s.p(80):
            return s.pick(have)
        n = fresh("a")
        cmds.append("(assume %s %s)\n" % (n, pv(v)))
        facts.append((n, v))
        return n

    def setup_step(r, mut):
        """arguments, premises (values) and assumption for a step of r"""
        bind = {}
        args = [value(m, instantiate(s, w, p, t, r.order, bind, s.r(0, 2), mut)) for p, t in zip(r.args, r.argsorts)]
        ex = value(m, instantiate(s, w, r.explicit, "Bool", r.order, bind, s.r(0, 2), mut)) if r.explicit is not None else None
        asm = value(m, instantiate(s, w, r.assumption, "Bool", r.order, bind, s.r(0, 2), mut)) if r.assumption is not None else None
        if r.plist is None:
            prem = [value(m, instantiate(s, w, p, "Bool", r.order, bind, s.r(0, 2), mut)) for p in r.premises]
        else:
            v = value(m, instantiate(s, w, r.premises[0], "Bool", r.order, bind, s.r(0, 2), mut))
            op = w.sig.ops[r.plist]
            es = elems(op, op.term, v) if op.isnil and v is not STUCK else None
            if es is None or s.p(10):
                es = [m.eval(gen_term(s, w, "Bool", 1)) for _ in range(s.n(4))]
                if r.premises[0][0] == 'S' and v is not STUCK and r.premises[0][1] in bind:
                    es = [v] if s.p(50) else es
            elif op.left:
                es = es[::-1]
            prem = es
        allv = args + prem + [x for x in (ex, asm) if x is not None]
        if STUCK in allv or any(len(pv(x)) > 1500 for x in allv) or any(sort_of(w, x) is None for x in allv):
            return None
        return args, prem, ex, asm

    def step(cmds, facts, r, tamper, level):
        # mostly steps whose rule applies
        for k in range(6):
            n0, f0, k0 = len(cmds), len(facts), len(keys)
            res = step1(cmds, facts, r, tamper, level, k < 5 and not s.p(4))
            if res is not None:
                return res
            del cmds[n0:], facts[f0:], keys[k0:]
            r = s.pick(rules)
        return True

    def step1(cmds, facts, r, tamper, level, must):
        """emits one step; returns the verdict (True/False)"""
        x = setup_step(r, s.pick([0, 0, 0, 20]))
        if x is None:
            return None
        args, prem, ex, asm = x
        pfx = ""
        if r.assumption is not None:
            h = fresh("h")
            cmds.append("(assume-push %s %s)\n" % (h, pv(asm)))
            inner = list(facts) + [(h, asm)]
            if s.p(30):
                # something inside the scope
                v = m.eval(gen_term(s, w, "Bool", 1))
                n = fresh("a")
                cmds.append("(assume %s %s)\n" % (n, pv(v)))
                inner.append((n, v))
                if s.p(40) and level < 2:
                    r2 = s.pick(rules)
                    if not step(cmds, inner, r2, False, level + 1):
                        return False
        else:
            inner = facts
        names = [prove(v, inner, cmds) for v in prem]
        # what is predicted without tampering
        c = predict(w, m, r, args, ex, asm, prem)
        if c is None and must:
            return None
        stated = ex if ex is not None else (c if s.p(60) else None)
        use = r
        pop = r.assumption is not None
        known = True
        tag = "good"
        if tamper:
            tag = s.pick(["stated", "stated", "arg", "arg", "prem", "prem", "droparg", "addarg", "dropprem", "addprem",
                          "swapargs", "swapprem", "rule", "unknown", "notproof", "pop", "nostated", "dupprem"])
            if tag == "stated":
                base = stated if stated is not None else c
                stated = mutate_value(s, w, base) if base is not None else m.eval(gen_term(s, w, "Bool", 1))
            elif tag == "arg" and args:
                i = s.n(len(args))
                args[i] = mutate_value(s, w, args[i]) if s.p(80) else m.eval(gen_term(s, w, s.pick(SORTS), 1))
            elif tag in ("prem", "dupprem") and names:
                i = s.n(len(names))
                if tag == "dupprem" and len(names) > 1:
                    j = (i + 1) % len(names)
                    names[i], prem[i] = names[j], prem[j]
                else:
                    v = mutate_value(s, w, prem[i])
                    names[i], prem[i] = prove(v, inner, cmds), v
            elif tag == "droparg" and args:
                args.pop(s.n(len(args)))
            elif tag == "addarg":
                args.insert(s.n(len(args) + 1), m.eval(gen_term(s, w, s.pick(SORTS), 0)))
            elif tag == "dropprem" and names:
                i = s.n(len(names))
                names.pop(i), prem.pop(i)
            elif tag == "addprem" and inner:
                i = s.n(len(names) + 1)
                n, v = s.pick(inner)
                names.insert(i, n), prem.insert(i, v)
            elif tag == "swapargs" and len(args) > 1:
                args.insert(0, args.pop())
            elif tag == "swapprem" and len(names) > 1:
                names.insert(0, names.pop())
                prem.insert(0, prem.pop())
            elif tag == "rule":
                use = s.pick(rules)
            elif tag == "unknown" and names:
                names[s.n(len(names))] = s.pick(["nosuch", "@p", fresh("zz")])
                known = False
            elif tag == "notproof" and names:
                i = s.n(len(names))
                names[i] = pv(prem[i])
                known = False
            elif tag == "pop":
                pop = not pop
            elif tag == "nostated":
                stated = None
            else:
                tag = "good"
        if pop and asm is None:
            # step-pop without an assumption of its own: nothing is open at top level
            exp = None
        else:
            try:
                exp = predict(w, m, use, args, stated, asm if pop else None, prem) if known else None
            except RecursionError:
                raise Fuel()
        if exp is not None and tag != "good":
            # arguments of unexpected sorts are not decided
            if [sort_of(w, a) for a in args] != use.argsorts and len(args) == len(use.argsorts):
                raise Discard()
        n = fresh("s")
        t = "(%s %s" % ("step-pop" if pop else "step", n)
        if stated is not None:
            t += " " + pv(stated)
        t += " :rule %s" % use.name
        if names or s.p(10):
            t += " :premises (%s)" % " ".join(names)
        if args or s.p(10):
            t += " :args (%s)" % " ".join(pv(a) for a in args)
        cmds.append(t + ")\n")
        keys.append((rule_text(use) + t, bool(use.order) or tag != "good", tag, exp is not None))
        if exp is None:
            return False
        facts.append((n, exp))
        return True

    ok = True
    try:
        for i in range(s.r(2, 7)):
            ok = step(cmds, facts, s.pick(rules), False, 0)
            if not ok:
                break
            if facts and s.p(40):
                n, v = facts[-1]
                e = fresh("e")
                cmds.append("(step %s true :rule same :premises (%s) :args (%s))\n" % (e, n, pv(v)))
                facts.append((e, TRUE))
        else:
            if s.p(75):
                if facts and s.p(15):
                    n, v = s.pick(facts)
                    u = mutate_value(s, w, v)
                    ok = u == v
                    cmds.append("(step @last true :rule same :premises (%s) :args (%s))\n" % (n, pv(u)))
                    keys.append(("same " + pv(v) + pv(u), True, "same", ok))
                else:
                    ok = step(cmds, facts, s.pick(rules), True, 0)
    except (Fuel, RecursionError):
        raise Discard()
    if not keys:
        raise Discard()
    sig = w.text + SAME + "".join(rt(w, r) if rt else rule_text(r) for r in rules)
    return sig, cmds, ok, keys, s.n(3)


def check(case, env):
    sig, cmds, ok, keys, mode = case
    pf = "".join(cmds)
    # everything but the last command is accepted, with the last one it is as predicted
    if mode == 0:
        files, main = {"p.eo": sig + pf}, "p.eo"
    else:
        files, main = {"s.eo": sig, "p.eo": '(include "s.eo")\n' + pf}, "p.eo"
    r = env.run(files, main)
    want = "correct" if ok else "reject"
    k = "%s %s" % (keys[-1][2], "accepted" if keys[-1][3] else "rejected")
    env.notes[k] = env.notes.get(k, 0) + 1
    if r.verdict != want:
        raise Violation("the last step should be %s, but: %s" % ("accepted" if ok else "rejected", r.show()), files, "ethos p.eo")
    if not ok:
        # rejected because of the last command only
        f2 = dict(files)
        f2[main] = f2[main][:len(f2[main]) - len(cmds[-1])]
        c = len(keys) - 1
        # local scopes must be closed for a file to be accepted
        depth = sum(x.startswith("(assume-push") - x.startswith("(step-pop") for x in cmds[:-1])
        r2 = env.run(f2, main)
        if depth:
            if "preserve assumption scope" not in r2.errmsg():
                raise Violation("the steps before the last should be accepted, but: %s" % r2.show(), f2, "ethos p.eo")
        elif r2.verdict != "correct":
            raise Violation("the steps before the last should be accepted, but: %s" % r2.show(), f2, "ethos p.eo")
    return [(k, n) for k, n, _, _ in keys]


# ----- proofs of the test-suite with one command changed

_steps = None


def corpus_steps(env):
    """[(file, text, step node, rule node, commands)]"""
    global _steps
    if _steps is None:
        _steps = []
        for n, t, v in sx.accepted(env):
            cs = sx.parse(t)
            rules = {}
            for c in cs:
                if c.head == "declare-rule":
                    rules[c.kids[1].text] = c
                if c.head in ("step", "step-pop"):
                    f = fields(c)
                    r = rules.get(f[":rule"].text)
                    if r is not None:
                        _steps.append((n, t, c, r, cs, f))
    return _steps


def fields(c):
    """keyword fields of a step or rule; '' is the stated conclusion"""
    f = {}
    i = 2
    if c.head.startswith("step") and not c.kids[2].text.startswith(":"):
        f[""] = c.kids[2]
    while i < len(c.kids):
        if c.kids[i].text.startswith(":"):
            f[c.kids[i].text] = c.kids[i + 1] if i + 1 < len(c.kids) else None
        i += 1
    return f


def gen_corpus(s):
    return s.n(1 << 20), s.n(1 << 20), s.n(10)


def check_corpus(case, env):
    steps = corpus_steps(env)
    name, text, c, r, cs, f = steps[case[0] % len(steps)]
    rk = {k.text for k in r.kids[3:] if k.text.startswith(":")}
    prem = f.get(":premises")
    args = f.get(":args")
    # bound local names may hide what is meant: only distinct names are changed
    m = case[2]
    want = "reject"
    k = case[1]
    explicit = ":conclusion-explicit" in rk
    if m == 0 and "" in f and not explicit:
        ed, want, what = [(f[""].a, f[""].b, "")], None, "stated conclusion dropped"
    elif m in (1, 2) and "" in f and not explicit:
        new = "false" if f[""].text != "false" else "true"
        ed, what = [(f[""].a, f[""].b, new)], "stated conclusion replaced"
    elif m == 3 and prem is not None and prem.kids and ":premises" in rk:
        x = prem.kids[k % len(prem.kids)]
        ed, what = [(x.a, x.b, "")], "premise dropped"
    elif m == 4 and prem is not None and prem.kids and ":premises" in rk:
        x = prem.kids[k % len(prem.kids)]
        ed, what = [(x.a, x.b, x.text + " " + x.text)], "premise repeated"
    elif m == 5 and prem is not None and prem.kids:
        x = prem.kids[k % len(prem.kids)]
        ed, what = [(x.a, x.b, "nosuchproof")], "unknown premise"
    elif m == 6 and prem is not None and prem.kids:
        x = prem.kids[k % len(prem.kids)]
        a = [d for d in cs if d.head in ("assume", "assume-push", "step", "step-pop") and d.kids[1].text == x.text and d.a < c.a]
        if len(a) != 1 or a[0].head in ("assume-push", "step-pop"):
            raise Discard()
        ed, what = [(a[0].a, a[0].b, "")], "command proving a premise removed"
    elif m == 7 and args is not None and args.kids:
        x = args.kids[k % len(args.kids)]
        ed, what = [(x.a, x.b, "")], "argument dropped"
    elif m == 8 and args is not None and args.kids:
        x = args.kids[k % len(args.kids)]
        ed, what = [(x.a, x.b, x.text + " " + x.text)], "argument repeated"
    elif m == 9:
        if k % 3 == 0:
            x = f[":rule"]
            ed, what = [(x.a, x.b, "nosuchrule")], "unknown rule"
        elif k % 3 == 1:
            x = c.kids[0]
            ed, what = [(x.a, x.b, "step" if c.head == "step-pop" else "step-pop")], "step and step-pop exchanged"
        elif prem is not None and prem.kids and ":premises" in rk:
            ed, what = [(prem.a, prem.b, "()")], "all premises dropped"
        else:
            raise Discard()
    else:
        raise Discard()
    t = sx.replace(text, ed)
    res = env.run({"p.eo": t}, "p.eo")
    if want is None:
        want = [v for n, _, v in sx.accepted(env) if n == name][0]
    env.notes[what] = env.notes.get(what, 0) + 1
    if res.verdict != want:
        raise Violation("%s in %s (%s): expected %s, but: %s" % (what, name, c.text[:200], want, res.show()), {"p.eo": t}, "ethos p.eo")
    return [(name + c.text + what + str(ed[0][0]), True)]


PARTS = [Part("rules", gen, check, 16000, 400000),
         Part("corpus", gen_corpus, check_corpus, 3000, 20000)]
