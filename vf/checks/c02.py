"""C02: local assumptions are scoped and discharged in stack order (model-based histories)."""
from ..engine import Part, Discard, Violation

ID = "C02"
RULE = ("an evaluation is one history of commands (with the verdict predicted by a model of scopes), and each lookup of a "
        "name made in it; non-trivial if a local scope was opened in it; distinct by text")
TECHNIQUE = ("stateful property-based testing: random histories of assume, assume-push, step, step-pop, declarations and "
             "definitions against a reference model of scopes and names")
NOTE = ("Random histories up to depth 8 with re-used names; every history ends in at most one command that the model says "
        "must be rejected, and its accepted prefix is checked too. Both files and piped input.")
ASSUMPTIONS = ["rules are fixed simple ones (rule application is C01)"]

HEAD = """(declare-const => (-> Bool Bool Bool))
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const P0 Bool)
(declare-const P1 Bool)
(declare-const P2 Bool)
(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule taut ((F Bool)) :args (F) :conclusion (=> F F))
(declare-rule both ((F Bool) (G Bool)) :premises (F G) :conclusion (and F G))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule scope0 ((F Bool)) :assumption F :conclusion (=> F F))
(declare-rule scopea ((F Bool) (G Bool)) :assumption F :args (G) :conclusion (=> F G))
(declare-rule scopee ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion-explicit (=> F G))
(declare-rule scopel ((F Bool) (G Bool)) :assumption F :premise-list G and :conclusion (=> F G))
(declare-rule scopen ((F Bool) (G Bool)) :assumption (not F) :premises (G F) :conclusion (=> (not F) G))
"""


class M:
    """Names in scope. Entries: ('const', uid), ('def', formula), ('pf', formula)."""
    def __init__(self):
        self.uid = 0
        self.clear()

    def clear(self):
        self.scopes = [{}]
        self.asm = []
        for n in ("P0", "P1", "P2"):
            self.declare(n)
        for n in ("=>", "not", "and"):
            self.scopes[0][n] = ("sym",)

    def declare(self, n):
        self.uid += 1
        self.scopes[-1][n] = ("const", self.uid)

    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def visible(self, kind):
        seen, res = set(), []
        for s in reversed(self.scopes):
            for n, e in s.items():
                if n not in seen:
                    seen.add(n)
                    if e[0] == kind:
                        res.append((n, e[1]))
        return res

    def show(self, f):
        """text of a formula in the current scope, or None"""
        if f == ("true",):
            return "true"
        if isinstance(f, int):
            for n, u in self.visible("const"):
                if u == f:
                    return n
            return None
        xs = [self.show(x) for x in f[1:]]
        if None in xs:
            return None
        if f[0] == "and":
            # curried, to be independent of desugaring
            return "(_ (_ and %s) %s)" % tuple(xs)
        return "(%s %s)" % (f[0], " ".join(xs))


def gen(s):
    m = M()
    out = []
    pool = ["a", "b", "c", "d", "e", "P0", "P1", "x1", "y1"]
    cnt = [0]
    looks = [0]
    closed = []

    def name():
        if s.p(45):
            return s.pick(pool)
        cnt[0] += 1
        return "n%d" % cnt[0]

    def formula(d=2):
        if d and s.p(35):
            k = s.n(3)
            if k == 0:
                return ("not", formula(d - 1))
            return ("=>" if k == 1 else "and", formula(d - 1), formula(d - 1))
        c = m.visible("const")
        return s.pick(c)[1] if c else ("true",)

    def proofs():
        return [(n, f) for n, f in m.visible("pf") if m.show(f) is not None]

    def txt(f):
        """text of f, sometimes through a definition"""
        ds = [n for n, g in m.visible("def") if g == f]
        if ds and s.p(60):
            return s.pick(ds)
        return m.show(f)

    def stated(f):
        return " " + txt(f) if m.show(f) is not None and s.p(50) else ""

    def look():
        ps = proofs()
        if ps:
            n, f = s.pick(ps)
            looks[0] += 1
            cnt[0] += 1
            out.append("(step n%d true :rule same :premises (%s) :args (%s))\n" % (cnt[0], n, txt(f)))
            m.scopes[-1]["n%d" % cnt[0]] = ("pf", ("true",))

    def close(rule=None):
        f = m.asm[-1]
        ps = m.visible("pf")
        rule = rule or s.pick(["scope", "scope", "scope0", "scopea", "scopee", "scopel", "scopen"])
        prem, args, st = [], "", None
        if rule in ("scope", "scopee"):
            if not ps:
                return False
            n, g = s.pick(ps)
            prem = [n]
            if rule == "scopee":
                if m.show(f) is None or m.show(g) is None:
                    return False
                st = " " + m.show(("=>", f, g))
        elif rule == "scopea":
            g = formula()
            args = " :args (%s)" % m.show(g)
            if m.show(g) is None:
                return False
        elif rule == "scope0":
            g = f
        elif rule == "scopel":
            k = s.r(0, 2)
            xs = [s.pick(ps) for _ in range(k)] if ps else []
            prem = [n for n, _ in xs]
            g = ("true",)
            for _, x in reversed(xs):
                g = ("and", x, g)
        else:
            if not (isinstance(f, tuple) and f[0] == "not"):
                return False
            c = [n for n, x in ps if x == f[1]]
            if not c or not ps:
                return False
            n, g = s.pick(ps)
            prem = [n, s.pick(c)]
        res = ("=>", f, g)
        if st is None:
            st = stated(res)
        n = name()
        t = "(step-pop %s%s :rule %s%s%s)\n" % (
            n, st, rule, " :premises (%s)" % " ".join(prem) if prem or s.p(20) else "", args)
        out.append(t)
        closed.extend(x for x, e in m.scopes[-1].items() if e[0] == "pf")
        m.scopes.pop()
        m.asm.pop()
        m.scopes[-1][n] = ("pf", res)
        return True

    maxd = 0
    for _ in range(s.r(4, 25)):
        k = s.n(12)
        if s.p(3):
            # everything is forgotten, and no local assumption remains open
            out.append("(reset)\n" + HEAD)
            closed.extend(x for sc in m.scopes for x, e in sc.items() if e[0] == "pf")
            m.clear()
            continue
        if k < 2:
            f = formula()
            n = name()
            if m.show(f) is None:
                continue
            out.append("(assume %s %s)\n" % (n, txt(f)))
            m.scopes[-1][n] = ("pf", f)
        elif k < 5:
            if len(m.asm) >= 8:
                continue
            f = formula()
            n = name()
            if m.show(f) is None:
                continue
            out.append("(assume-push %s %s)\n" % (n, txt(f)))
            m.scopes.append({n: ("pf", f)})
            m.asm.append(f)
            maxd = max(maxd, len(m.asm))
        elif k < 7:
            if m.asm:
                close()
        elif k == 7:
            ps = m.visible("pf")
            r = s.pick(["id", "both", "taut"])
            n = name()
            if r == "taut":
                f = formula()
                if m.show(f) is None:
                    continue
                out.append("(step %s%s :rule taut :args (%s))\n" % (n, stated(("=>", f, f)), txt(f)))
                m.scopes[-1][n] = ("pf", ("=>", f, f))
            elif ps:
                a, b = s.pick(ps), s.pick(ps)
                if r == "id":
                    out.append("(step %s%s :rule id :premises (%s))\n" % (n, stated(a[1]), a[0]))
                    m.scopes[-1][n] = ("pf", a[1])
                else:
                    g = ("and", a[1], ("and", b[1], ("true",)))
                    out.append("(step %s%s :rule both :premises (%s %s))\n" % (n, stated(g), a[0], b[0]))
                    m.scopes[-1][n] = ("pf", g)
        elif k == 8:
            n = s.pick(["P0", "P1", "P2", "Q0", "Q1"])
            out.append("(declare-const %s Bool)\n" % n)
            m.declare(n)
        elif k == 9:
            f = formula()
            t = m.show(f)
            n = s.pick(["d0", "d1", "d2"])
            if t is None:
                continue
            out.append("(define %s () %s)\n" % (n, t))
            m.scopes[-1][n] = ("def", f)
        else:
            look()
    bad = s.w([(4, None), (1, "nopop"), (1, "rule"), (1, "noscope"), (3, "closed"), (2, "wrongf"), (1, "open"), (1, "pushpop"),
               (1, "outername"), (1, "include"), (1, "looklocal")])
    ok = True
    keep_open = False
    last = cname = None
    if bad == "rule" and m.asm:
        ps = m.visible("pf")
        if ps:
            last = s.pick(["(step-pop z :rule id :premises (%s))\n" % ps[0][0], "(step-pop z :rule taut :args (true))\n",
                           "(step z :rule scope :premises (%s))\n" % ps[0][0], "(step z :rule scope0)\n",
                           "(step z :rule scopea :args (true))\n"])
            keep_open = True
    elif bad == "closed":
        vis = {n for sc in m.scopes for n in sc}
        cand = [n for n in closed if n not in vis]
        if cand:
            cname = n = s.pick(cand)
            last = s.pick(["(step z :rule id :premises (%s))\n" % n, "(step z :rule same :premises (%s) :args (P2))\n" % n])
            keep_open = s.p(50)
    elif bad == "wrongf" and m.asm:
        # discharging something else than the formula of this assume-push
        ps = [(n, f) for n, f in m.visible("pf") if m.show(f) is not None]
        cands = [f for f in m.asm[:-1]] + [f for _, f in ps] + [formula()]
        cands = [f for f in cands if f != m.asm[-1] and m.show(f) is not None]
        if cands and ps:
            n, g = s.pick(ps)
            f = s.pick(cands)
            last = s.pick(["(step-pop z %s :rule scope :premises (%s))\n" % (m.show(("=>", f, g)), n),
                           "(step-pop z %s :rule scopee :premises (%s))\n" % (m.show(("=>", f, g)), n),
                           "(step-pop z %s :rule scope0)\n" % m.show(("=>", f, f)),
                           "(step-pop z %s :rule scopea :args (%s))\n" % (m.show(("=>", f, g)), m.show(g))])
            keep_open = True
    elif bad == "pushpop" and m.asm:
        last = s.pick(["(push)\n", "(pop)\n", "(push 1)\n"])
        keep_open = True
    elif bad == "include" and m.asm:
        last = '(include "inc.eo")\n'
        keep_open = True
    elif bad == "open" and m.asm:
        ok = False
        keep_open = True
    elif bad == "looklocal":
        ps = proofs()
        if ps:
            n, f = s.pick(ps)
            g = s.pick([x for _, x in ps] + [formula()])
            if g != f and m.show(g) is not None:
                last = "(step z true :rule same :premises (%s) :args (%s))\n" % (n, m.show(g))
                keep_open = True
    if not keep_open:
        while m.asm:
            if not close(None if s.p(50) else "scope0"):
                close("scope0")
        for _ in range(s.r(0, 4)):
            look()
        if cname and any(cname in sc for sc in m.scopes):
            last = None
        if bad == "nopop":
            last = s.pick(["(step-pop z :rule scope0)\n", "(step-pop z :rule scopea :args (true))\n"])
        elif bad == "outername":
            vis = {n for sc in m.scopes for n in sc}
            cand = [n for n in closed if n not in vis]
            if cand:
                last = "(step z :rule id :premises (%s))\n" % s.pick(cand)
    nopen = len(m.asm)
    return out, last, nopen, maxd, looks[0], s.n(4), bad


def check(case, env):
    out, last, nopen, maxd, looks, mode, bad = case
    body = "".join(out)

    def run(body):
        files = {"inc.eo": "(declare-const zz Bool)\n"}
        if mode == 0:
            files["p.eo"] = HEAD + body
            return files, "ethos p.eo", env.run(files, "p.eo")
        if mode == 1:
            files.update({"h.eo": HEAD, "p.eo": '(include "h.eo")\n' + body})
            return files, "ethos p.eo", env.run(files, "p.eo")
        if mode == 2:
            files["h.eo"] = HEAD
            files["p.eo"] = '(include "h.eo")\n' + body
            r = env.run(files, "p.eo", (), "release", files["p.eo"].encode())
            return files, "ethos < p.eo", r
        # included file ends where the history ends
        files.update({"h.eo": HEAD, "p.eo": '(include "h.eo")\n' + body, "q.eo": '(include "p.eo")\n(declare-const after Bool)\n'})
        return files, "ethos q.eo", env.run(files, "q.eo")

    k = "%s %s" % (bad or "good", "rejected" if last or nopen else "accepted")
    env.notes[k] = env.notes.get(k, 0) + 1
    env.notes["depth %d" % maxd] = env.notes.get("depth %d" % maxd, 0) + 1
    files, cmd, r = run(body)
    if nopen == 0:
        if r.verdict != "correct":
            raise Violation("this history should be accepted, but: %s" % r.show(), files, cmd)
    elif r.verdict != "reject" or "assumption scope" not in r.errmsg():
        raise Violation("this history should be rejected only because a local assumption is still open at its end, but: %s" %
                        r.show(), files, cmd)
    res = [(body, maxd > 0)] + [(body + str(i), maxd > 0) for i in range(looks)]
    if last:
        files, cmd, r = run(body + last)
        if r.verdict != "reject" or (nopen and "preserve assumption scope" in r.errmsg()):
            raise Violation("the last command should be rejected, but: %s" % r.show(), files, cmd)
        res.append((body + last, True))
    return res


PARTS = [Part("histories", gen, check, 12000, 300000)]
