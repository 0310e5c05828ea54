"""C25: statistics count what was done."""
import re
from ..engine import Part, Discard, Violation
from .. import sx, mutate

ID = "C25"
VARIANTS = ["release", "debug"]
RULE = ("an evaluation is one run with statistics whose printed counts are compared with those of a model; non-trivial if at least "
        "two steps or program calls were counted; distinct by text and options")
TECHNIQUE = ("model-based property-based testing: random histories of rule declarations, steps, local assumptions, resets, inclusions "
             "and program calls whose applications are counted by the generator; invariants and differentials (formats, builds, "
             "channels) of the counts printed for test-suite files and mutants of them")
NOTE = ("Random search. Times are only required to be numbers. Counts of expressions are compared across formats and channels and "
        "against simple bounds, not against a model of hash consing.")
ASSUMPTIONS = ["statistics are enabled on the command line"]

HEAD = """(declare-const not (-> Bool Bool))
(declare-const => (-> Bool Bool Bool))
(declare-const N Type)
(declare-const z N)
(declare-const s (-> N N))
(declare-const t (-> N N N))
"""
PROGS = [
    # name, text, calls made by a call on a number of successors n and a second one m, excluding itself: {name: count}
    ("idn", "(program idn ((x N)) :signature (N) N (((idn x) x)))\n"),
    ("odd", "(program odd ((x N)) :signature (N) N (((odd z) z) ((odd (s z)) (s z)) ((odd (s (s x))) (odd x))))\n"),
    ("dbl", "(program dbl ((x N)) :signature (N) N (((dbl z) z) ((dbl (s x)) (s (s (dbl x))))))\n"),
    ("add", "(program add ((x N) (y N)) :signature (N N) N (((add z y) y) ((add (s x) y) (s (add x y)))))\n"),
    ("fst", "(program fst ((x N) (y N)) :signature (N) N (((fst (t x y)) (idn x)) ((fst z) z)))\n"),
    ("ite", "(program ite ((x N) (y N)) :signature (N N) N (((ite z y) (dbl y)) ((ite x y) (odd x))))\n"),
]


def num(n):
    return "(s " * n + "z" + ")" * n


def calls(f, n, m):
    """the multiset of calls of programs made by (f n m), itself included; None if it is stuck"""
    if f == "idn":
        return {"idn": 1}
    if f == "odd":
        return {"odd": n // 2 + 1}
    if f == "dbl":
        return {"dbl": n + 1}
    if f == "add":
        return {"add": n + 1}
    if f == "fst":
        return {"fst": 1, "idn": 1}
    if f == "ite":
        c = {"ite": 1}
        c.update({"dbl": m + 1} if n == 0 else {"odd": n // 2 + 1})
        return c


def value(f, n, m):
    return {"idn": n, "odd": n % 2, "dbl": 2 * n, "add": n + m, "fst": n, "ite": 2 * m if n == 0 else n % 2}[f]


RULES = {
    "ax": "(declare-rule %s ((F Bool)) :args (F) :conclusion F%s)\n",
    "id": "(declare-rule %s ((F Bool)) :premises (F) :conclusion F%s)\n",
    "two": "(declare-rule %s ((F Bool) (G Bool)) :premises (F G) :conclusion (=> F G)%s)\n",
    "sc": "(declare-rule %s ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G)%s)\n",
    "sc0": "(declare-rule %s ((F Bool)) :assumption F :conclusion (=> F F)%s)\n",
    "none": "(declare-rule %s () :conclusion true%s)\n",
    "num": "(declare-rule %s ((x N) (y N)) :args (x y) :requires ((x y)) :conclusion true%s)\n",
}


def gen(s):
    files = {}
    out = ['(include "h.eo")\n']
    cur = out
    rules = []          # [name, kind, sorry, count] in order of declaration
    live = []
    pcount = {}
    names = [[]]
    cnt = 0
    progs = False
    used_sorry = False
    alln = ["r%d" % i for i in range(6)] + ["rule", "|a b|", "x" * s.r(20, 60), "and_elim", "trust", "eo_refl", "e", "eo:x", "ruleCount", "=", "|#|"]
    inc = 0

    def declare():
        n = s.pick(alln)
        if any(r[0] == n for r in live):
            return
        k = s.pick(list(RULES))
        so = s.p(20)
        cur.append(RULES[k] % (n, " :sorry" if so else ""))
        r = [n, k, so, 0]
        rules.append(r)
        live.append(r)

    declare()
    declare()
    for _ in range(s.r(5, 40)):
        k = s.n(20)
        if k < 3:
            if len(names) == 1:
                declare()
        elif k < 12:
            c = [r for r in live if not r[1].startswith("sc") and (r[1] != "num" or progs)]
            if not c:
                continue
            r = s.pick(c)
            vis = [x for sc in names for x in sc]
            cnt += 1
            n = "p%d" % cnt
            if r[1] in ("id", "two") and not vis:
                continue
            a = ""
            if r[1] == "ax":
                a = " :args (%s)" % s.pick(["true", "false", "(not true)", "(=> true false)", "(not (not false))"])
            elif r[1] == "id":
                a = " :premises (%s)" % s.pick(vis)
            elif r[1] == "two":
                a = " :premises (%s %s)" % (s.pick(vis), s.pick(vis))
            elif r[1] == "num":
                f, x, y = s.pick(PROGS)[0], s.n(7), s.n(4)
                arg = "(t %s %s)" % (num(x), num(y)) if f == "fst" else num(x) + (" " + num(y) if f in ("add", "ite") else "")
                a = " :args ((%s %s) %s)" % (f, arg, num(value(f, x, y)))
                for g, c in calls(f, x, y).items():
                    pcount[g] = pcount.get(g, 0) + c
            cur.append("(step %s :rule %s%s)\n" % (n, r[0], a))
            r[3] += 1
            used_sorry = used_sorry or r[2]
            names[-1].append(n)
        elif k < 14:
            if len(names) < 5:
                cnt += 1
                cur.append("(assume-push p%d %s)\n" % (cnt, s.pick(["true", "false", "(not false)"])))
                names.append(["p%d" % cnt])
        elif k < 16:
            c = [r for r in live if r[1].startswith("sc")]
            if len(names) > 1 and c:
                r = s.pick(c)
                cnt += 1
                p = " :premises (%s)" % s.pick([x for sc in names for x in sc]) if r[1] == "sc" else ""
                cur.append("(step-pop p%d :rule %s%s)\n" % (cnt, r[0], p))
                names.pop()
                names[-1].append("p%d" % cnt)
                r[3] += 1
                used_sorry = used_sorry or r[2]
        elif k == 16:
            if not progs:
                if len(names) == 1:
                    cur.extend(p for _, p in PROGS)
                    progs = True
            else:
                f, x, y = s.pick(PROGS)[0], s.n(7), s.n(4)
                arg = "(t %s %s)" % (num(x), num(y)) if f == "fst" else num(x) + (" " + num(y) if f in ("add", "ite") else "")
                cnt += 1
                if s.p(20):
                    # no case matches
                    cur.append("(define d%d () (%s))\n" % (cnt, s.pick(["fst (s %s)" % num(x), "odd (t z z)", "add (t z z) z", "dbl (s (t z z))"])))
                    g = cur[-1].split("(")[3].split()[0]
                    pcount[g] = pcount.get(g, 0) + (2 if g == "dbl" else 1)
                    continue
                cur.append("(define d%d () (%s %s))\n" % (cnt, f, arg))
                for g, c in calls(f, x, y).items():
                    pcount[g] = pcount.get(g, 0) + c
        elif k == 17:
            if s.p(15) and inc == 0:
                cur.append('(reset)\n(include "h2.eo")\n')
                live, names, progs = [], [[]], False
                # programs of the same names are others from now on
                pcount = None
                break
        elif k == 18:
            if len(names) == 1 and inc == 0:
                # what follows is in an included file for a while
                inc = 1
                cur.append('(include "i.eo")\n')
                cur = files["i.eo"] = []
        elif inc == 1 and len(names) == 1:
            inc = 2
            cur = out
    if pcount is None:
        # after a reset
        declare()
        declare()
        for _ in range(s.r(1, 8)):
            c = [r for r in live if r[1] in ("ax", "none")]
            if not c:
                break
            r = s.pick(c)
            cnt += 1
            cur.append("(step p%d :rule %s%s)\n" % (cnt, r[0], " :args (true)" if r[1] == "ax" else ""))
            r[3] += 1
            used_sorry = used_sorry or r[2]
    while len(names) > 1:
        c = [r for r in live if r[1] == "sc0"]
        if not c:
            # a rule can be declared only at assumption level zero
            raise Discard()
        r = c[0]
        cnt += 1
        cur.append("(step-pop p%d :rule %s)\n" % (cnt, r[0]))
        r[3] += 1
        used_sorry = used_sorry or r[2]
        names.pop()
    ext = s.pick(["eo", "smt3"])
    files = {k: "".join(v) for k, v in files.items()}
    files["h.eo"] = files["h2.eo"] = HEAD
    files["p." + ext] = "".join(out)
    opts = s.pick([["--stats"], ["--stats-compact"], ["--stats", "--stats-compact"], ["--stats-all"], ["--stats-all", "--stats-compact"],
                   ["--stats-compact", "--stats-all", "--stats"], ["--stats", "--no-stats-compact"]])
    return files, "p." + ext, [r for r in rules if r[3]], pcount, used_sorry, opts, s.p(25), s.p(20)


SCALARS = ["mkExprCount", "newExprCount", "deleteExprCount", "symCount", "litCount", "time"]


def read(text):
    """(scalars, rules, programs or None), rules as a list of (name, count)"""
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    sc, tabs, cur = {}, {"rule": None, "prog": None}, None
    comp = False
    for l in ls:
        m = re.match(r"^(\w+) = (\d+)$", l)
        if m:
            sc[m.group(1)] = int(m.group(2))
            continue
        m = re.match(r"^(rule|prog)Count = \{ (.*) \}$", l)
        if m:
            comp = True
            tabs[m.group(1)] = [(a, int(b)) for a, b in re.findall(r"(?:^|, )(.*?): (\d+)(?=, |$)", m.group(2))]
            continue
        if re.match(r"^(checkTime|mkExpr) = \{ .* \}$", l):
            continue
        if re.match(r"^=+$", l):
            continue
        m = re.match(r"^ *(Rule|Program)  #", l)
        if m:
            cur = tabs["rule" if m.group(1) == "Rule" else "prog"] = []
            continue
        m = re.match(r"^ *(\S.*?): (\d+)(?:  *(\d+) \(([-\w.]+)%%\) *(\d+) *(\d+) *)?$".replace("%%", "%"), l)
        if m and cur is not None:
            cur.append((m.group(1), int(m.group(2))))
            continue
        raise Violation("cannot read the line %r of the statistics" % l, {"out": text}, "")
    for k in SCALARS:
        if k not in sc:
            raise Violation("the statistics lack %s" % k, {"out": text}, "")
    return sc, tabs["rule"], tabs["prog"], comp


def split(r, files, cmd):
    out = r.out.decode(errors="replace")
    m = re.search(r"^(correct|incomplete)\n", out, re.M)
    if not m:
        raise Violation("no response: %s" % r.show(), files, cmd)
    try:
        return m.group(1), out[:m.start()], read(out[m.end():])
    except Violation as v:
        v.files, v.cmd = files, cmd
        raise Violation("%s" % v, files, cmd)


def bounds(st, files, cmd):
    sc, rules, progs, _ = st
    if sc["deleteExprCount"] > sc["newExprCount"]:
        raise Violation("more expressions deleted than made: %r" % sc, files, cmd)
    if sc["symCount"] + sc["litCount"] > sc["newExprCount"]:
        raise Violation("more symbols and literals than expressions: %r" % sc, files, cmd)
    for t in (rules or []) + (progs or []):
        if t[1] < 1:
            raise Violation("%s is listed with no application" % t[0], files, cmd)


def check(case, env):
    files, main, rules, pcount, sorry, opts, dbg, pipe = case
    cmd = "ethos %s %s%s" % (" ".join(opts), "< " if pipe else "", main)
    stdin = files[main].encode() if pipe else None
    r = env.run(files, main, opts, "debug" if dbg else "release", stdin)
    if not r.accepted:
        raise Violation("this should be accepted, but: %s" % r.show(), files, cmd)
    v, pre, st = split(r, files, cmd)
    if (v == "incomplete") != sorry:
        raise Violation("%s although %s rule was used" % (v, "a sorry" if sorry else "no sorry"), files, cmd)
    bounds(st, files, cmd)
    sc, rs, ps, comp = st
    if comp != ("--stats-compact" in opts) and (rs or comp):
        raise Violation("statistics are %scompact" % ("" if comp else "not "), files, cmd)
    want = sorted((n, c) for n, _, _, c in rules)
    # (the names are printed without bars)
    got = sorted((n, c) for n, c in rs or [])
    if [(n.strip("|"), c) for n, c in want] != sorted((n.strip("|"), c) for n, c in got) and \
            sorted((n.strip("|"), c) for n, c in want) != sorted((n.strip("|"), c) for n, c in got):
        raise Violation("rules applied: %r, but the statistics say %r" % (want, got), files, cmd)
    if ps is not None and "--stats-all" not in opts:
        raise Violation("programs are listed without --stats-all", files, cmd)
    if "--stats-all" in opts and pcount is not None:
        got = dict((n, c) for n, c in ps or [] if not n.strip("|").startswith("$"))
        if got != pcount:
            raise Violation("programs called: %r, but the statistics say %r" % (pcount, got), files, cmd)
        env.notes["program counts"] = env.notes.get("program counts", 0) + 1
    env.notes["rule counts"] = env.notes.get("rule counts", 0) + 1
    n = sum(c for _, c in want) + sum((pcount or {}).values())
    return [("".join(files.values()) + " ".join(opts), n >= 2)]


def gen_suite(s):
    name, text, _ = s.pick(sx._base)
    for _ in range(s.w([(4, 0), (3, 1), (1, 2)])):
        t = mutate.node_mutation(s, text, None)
        if t is not None:
            text = t
    if len(text) > 60000:
        raise Discard()
    return name, text, s.n(3)


def check_suite(case, env):
    name, text, ch = case
    files = {"p.eo": text}
    r = env.run(files, "p.eo", ["--stats-all"], timeout=5)
    if r.verdict == "timeout" or not r.accepted:
        raise Discard()
    cmd = "ethos --stats-all p.eo"
    v, pre, st = split(r, files, cmd)
    bounds(st, files, cmd)
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    heads = [c.head for c in cs]
    if "exit" in heads:
        heads = heads[:heads.index("exit")]
    steps = sum(h in ("step", "step-pop") for h in heads)
    total = sum(c for _, c in st[1] or [])
    if not ({"include", "reference", "set-option"} & set(heads)):
        if total != steps:
            raise Violation("%d steps, but the statistics count %d applications of rules" % (steps, total), files, cmd)
        byname = {}
        for c in cs[:len(heads)]:
            if c.head in ("step", "step-pop"):
                k = [x.text for x in c.kids]
                i = k.index(":rule") if ":rule" in k else None
                if i is not None:
                    byname[k[i + 1].strip("|")] = byname.get(k[i + 1].strip("|"), 0) + 1
        got = {}
        for n, c in st[1] or []:
            got[n.strip("|")] = got.get(n.strip("|"), 0) + c
        if byname != got and total == steps:
            raise Violation("rules applied: %r, but the statistics say %r" % (byname, got), files, cmd)
        env.notes["files with exact counts"] = env.notes.get("files with exact counts", 0) + 1
    # other formats and channels
    if ch == 0:
        r2 = env.run(files, "p.eo", ["--stats-compact", "--stats-all"], timeout=5)
    elif ch == 1:
        r2 = env.run(files, "p.eo", ["--stats-all"], timeout=5)
    else:
        r2 = env.run(files, "p.eo", ["--stats"], timeout=5)
    if r2.verdict == "timeout":
        raise Discard()
    cmd2 = "ethos %s p.eo" % ["--stats-compact --stats-all", "--stats-all", "--stats"][ch]
    if r2.verdict != v:
        raise Violation("%s with other statistics" % r2.show(), files, cmd2)
    st2 = split(r2, files, cmd2)[2]
    a, b = dict(st[0]), dict(st2[0])
    a.pop("time"), b.pop("time")
    if a != b or sorted(st[1] or []) != sorted(st2[1] or []) or ch != 2 and sorted(st[2] or []) != sorted(st2[2] or []):
        raise Violation("the counts of two runs differ: %r and %r" % ((a, st[1], st[2]), (b, st2[1], st2[2])), files, cmd2)
    return [(text + str(ch), total + sum(c for _, c in st[2] or []) >= 2)]


def setup(bins, tier, seed):
    from ..engine import Env
    e = Env(bins)
    sx.accepted(e)
    e.close()


PARTS = [Part("counts", gen, check, 30000, 600000),
         Part("suite", gen_suite, check_suite, 8000, 120000)]
