"""C04: the response is honest."""
from ..engine import Part, Discard, Violation
from .. import sx

ID = "C04"
RULE = ("an evaluation is one run of ethos on one input under one set of options whose response, exit status and output were "
        "predicted; non-trivial if a sorry rule is declared or an error is injected; distinct by text and options")
TECHNIQUE = ("stateful property-based testing: random histories using ordinary and sorry rules with errors injected at random "
             "positions, under random options, channels and file splits; test-suite files with injected errors")
NOTE = ("Random search. Checks the exact response line, the exit status, that no response is printed on errors, and that the "
        "response does not depend on unused sorry rules, scopes, resets and options.")
ASSUMPTIONS = ["exit in the middle of the main file ends the input (commands after it are not read)"]

HEAD = """(declare-const => (-> Bool Bool Bool))
(declare-const not (-> Bool Bool))
(declare-const P Bool)
(declare-const Q Bool)
(declare-sort U 0)
(declare-const u U)
"""

BAD = ["(declare-const zz Nowhere)\n", "(assume @b nosuch)\n", "(assume @b u)\n", "(assume @b (not u))\n",
       "(step @b P :rule t0 :args (Q))\n", "(step @b :rule nosuchrule)\n", "(step @b :rule t0)\n",
       "(step @b :rule t0 :premises (nosuch) :args (P))\n", "(define dd () (not))\n(assume @b dd)\n", "(bogus)\n", "(assume @b)\n",
       "(assume @b P\n", ")\n", "(include \"nosuchfile.eo\")\n", "(define dd () P :type U)\n", "(step-pop @b :rule t0 :args (P))\n",
       "(declare-rule t0 ((F Bool)) :args (F) :conclusion F)\n(step @b :rule t0 :args ((not u)))\n", "(assume @b |P\n", "(echo \"\n",
       "(step @b (not P) :rule t0 :args (P))\n", "foo\n", "(assume @b P))\n", "(pop)\n", "(pop 3)\n", "(assume-push @b P)\n",
       "(declare-rule zz ((F Bool)) :args (G) :conclusion F)\n", "(program $zz ((x Bool)) :signature (Bool) Bool ((($yy x) x)))\n",
       "(reference \"nosuchfile.smt2\")\n", "(step @b :rule w0 :args (P))\n", "(step @b P :rule fr :args (true))\n"]

OPTS = ["--stats", "--stats-all", "--stats-compact", "--no-print-dag", "--normalize-num", "--no-normalize-dec", "--no-normalize-hex",
        "--no-parse-let"]


SORRY = [" :sorry"] * 3 + [" :trusted :sorry", " :sorry :trusted", " :note 1 :sorry", " :why (a (b) \"c\") :sorry :x", " :a :b :c :sorry",
                           " :sorry :sorry", " :Sorry sorry :sorry"]
UNUSED = ["", "", " :trusted", " :note sorry", " :Sorry", " :why (:sorry) :x \":sorry\""]


def rules(sorry):
    # with attributes that mean nothing to ethos around it
    def so(i):
        return (SORRY[sorry[i] if type(sorry[i]) is int else 0] if sorry[i] else UNUSED[sum(bool(x) for x in sorry) % len(UNUSED)])
    return ("(declare-rule t0 ((F Bool)) :args (F) :conclusion (=> F F)%s)\n" % so(0) +
            "(declare-rule t1 ((F Bool)) :args (F) :conclusion (=> F F)%s)\n" % so(1) +
            "(declare-rule t2 ((F Bool)) :premises (F) :conclusion F%s)\n" % so(2) +
            "(declare-rule t3 ((F Bool)) :assumption F :conclusion (=> F F)%s)\n" % so(3) +
            "(declare-rule t4 () :conclusion true%s)\n" % so(4) +
            "(declare-rule t5 ((F Bool)) :conclusion-explicit F%s)\n" % so(5) +
            "(declare-rule w0 ((F Bool)) :args (F) :requires ((F true)) :conclusion F :sorry)\n"
            "(declare-rule fr ((F Bool)) :args (F) :requires (((eo::is_eq F true) false)) :conclusion F :sorry)\n")


def gen(s):
    sorry = [s.p(35) for _ in range(6)]
    if s.p(30):
        sorry = [True] * 6
    sorry = [x and s.r(1, len(SORRY) - 1) for x in sorry]
    cmds = []       # (text, sorry used or None)
    cnt = [0]
    depth = 0
    pushes = 0

    def fresh():
        cnt[0] += 1
        return "@n%d" % cnt[0]
    cur = list(sorry)
    proofs = [[]]
    for _ in range(s.r(0, 14)):
        k = s.n(14)
        n = fresh()
        if k == 0:
            cmds.append(("(assume %s P)\n" % n, False))
            proofs[-1].append(n)
        elif k < 3:
            i = s.n(2)
            cmds.append(("(step %s%s :rule t%d :args (Q))\n" % (n, s.pick(["", " (=> Q Q)"]), i), cur[i]))
            proofs[-1].append(n)
        elif k == 3:
            a = [x for l in proofs for x in l]
            if a:
                cmds.append(("(step %s :rule t2 :premises (%s))\n" % (n, s.pick(a)), cur[2]))
                proofs[-1].append(n)
        elif k == 4:
            cmds.append(("(step %s :rule t4)\n" % n, cur[4]))
            proofs[-1].append(n)
        elif k == 5:
            cmds.append(("(step %s Q :rule t5)\n" % n, cur[5]))
            proofs[-1].append(n)
        elif k == 6:
            cmds.append(("(assume-push %s P)\n" % n, False))
            proofs.append([n])
            depth += 1
        elif k == 7 and depth:
            cmds.append(("(step-pop %s :rule t3)\n" % n, cur[3]))
            proofs.pop()
            proofs[-1].append(n)
            depth -= 1
        elif k == 8 and not depth:
            cmds.append((s.pick(["(push)\n", "(push 1)\n"]), False))
            pushes += 1
            proofs.append([])
        elif k == 9 and not depth and pushes:
            cmds.append((s.pick(["(pop)\n", "(pop 1)\n"]), False))
            pushes -= 1
            proofs.pop()
        elif k == 10 and not depth and not pushes and s.p(50):
            # the rules are declared again, with other marks
            cur = [s.p(30) and s.r(1, len(SORRY) - 1) for _ in range(6)]
            cmds.append(("(reset)\n" + HEAD + rules(cur), False))
            proofs = [[]]
        elif k == 11:
            cmds.append((s.pick(["(echo \"correct\")\n", "(echo \"hello\")\n", "(set-option :print-dag false)\n", "(echo)\n",
                                 "(set-option :stats true)\n" if s.p(5) else "(echo \"incomplete\")\n"]), False))
        elif k == 12:
            cmds.append(("(define d%d () (not P))\n" % cnt[0], False))
        else:
            cmds.append(("(declare-const c%d Bool)\n" % cnt[0], False))
    while depth:
        cmds.append(("(step-pop %s :rule t3)\n" % fresh(), cur[3]))
        depth -= 1
    bad = None
    if s.p(45):
        b = s.pick(BAD)
        bad = (s.n(len(cmds) + 1), b)
    opts = s.sub(OPTS, 0, 3)
    return sorry, cmds, bad, opts, s.n(5), s.n(len(cmds) + 1), s.p(15)


def check(case, env):
    sorry, cmds, bad, opts, mode, cut, exit_ = case
    texts = [c for c, _ in cmds]
    inc = [u for _, u in cmds]
    if bad:
        i, b = bad
        # what is bad must be bad where it is put
        pre = "".join(texts[:i])
        depth = pre.count("(assume-push") - pre.count("(step-pop")
        pushes = pre.count("(push") - pre.count("(pop")
        if b.startswith("(pop") and not depth and pushes >= (3 if "3" in b else 1):
            raise Discard()
        if b.startswith("(pop)") and pushes and not depth:
            raise Discard()
        texts = texts[:i] + [b] + texts[i:]
        inc = inc[:i] + [False] + inc[i:]
        if b.startswith("(assume-push") and any("(reset)" in t for t in texts[i:]):
            # reset closes it
            raise Discard()
        # a string or symbol that does not end swallows the rest
        if b in ('(assume @b |P\n', '(echo "\n', '(assume @b P\n'):
            texts, inc = texts[:i + 1], inc[:i + 1]
    want = "reject" if bad else "incomplete" if any(inc) else "correct"
    body = "".join(texts)
    if exit_ and not bad and body.count("(assume-push") == 0:
        j = cut
        body = "".join(texts[:j]) + "(exit)\n(bogus) ))" + "".join(texts[j:])
        want = "incomplete" if any(inc[:j]) else "correct"
        mode = mode % 3
    head = HEAD + rules(sorry)
    files = {}
    stdin = None
    if mode == 0:
        files["p.eo"] = head + body
        main = "p.eo"
    elif mode == 1:
        files["s.eo"] = head
        files["p.smt3"] = '(include "s.eo")\n' + body
        main = "p.smt3"
    elif mode == 2:
        files["s.eo"] = head
        files["p.smt3"] = body
        opts = opts + ["--include=s.eo"]
        main = "p.smt3"
    elif mode == 3:
        stdin = (head + body).encode()
        main = "p.smt3"
        files = {}
    else:
        # the proof is in an included file, possibly split
        k = min(cut, len(texts))
        a, b2 = "".join(texts[:k]), "".join(texts[k:])
        if a.count("(assume-push") != a.count("(step-pop") or bad:
            a, b2 = body, ""
        files["s.eo"] = head
        files["a.eo"] = '(include "s.eo")\n' + a
        files["b.eo"] = b2
        files["p.eo"] = '(include "a.eo")\n(include "b.eo")\n'
        main = "p.eo"
    r = env.run(files, main, opts, "release", stdin)
    show = dict(files)
    if stdin is not None:
        show["stdin"] = stdin.decode()
    cmd = "ethos %s %s" % (" ".join(opts), main if stdin is None else "< stdin")
    env.notes[want] = env.notes.get(want, 0) + 1
    if r.verdict != want:
        raise Violation("the response should be %s%s, but: %s" % (want, " because of " + bad[1] if bad else "", r.show()), show, cmd)
    judge(r, want, show, cmd, body)
    return [(head + body + cmd, bool(bad) or any(sorry))]


def judge(r, want, show, cmd, body):
    lines = r.out.split(b"\n")
    # echo prints these words as well, so count
    echoes = {w: body.count('(echo "%s")' % w) for w in ("correct", "incomplete")}
    if want == "reject":
        if r.rc == 0 or not r.errmsg().strip():
            raise Violation("rejected, but with exit status %s" % r.rc, show, cmd)
        for w in echoes:
            if lines.count(w.encode()) > echoes[w]:
                raise Violation("an error, but the response %s is printed as well: %s" % (w, r.show()), show, cmd)
    else:
        if r.rc != 0 or b"rror" in r.err:
            raise Violation("accepted, but with exit status %s or an error: %s" % (r.rc, r.show()), show, cmd)


# ----- the test-suite, with an error added or with rules marked sorry

def gen_corpus(s):
    return s.n(1 << 20), s.n(1 << 20), s.n(4), s.pick(CBAD), s.sub(OPTS, 0, 2)


CBAD = ["(declare-const zz Nowhere)\n", "(assume @b nosuchsymbol)\n", "(step @b :rule nosuchrule)\n", "(bogus)\n", ")\n",
        "(include \"nosuchfile.eo\")\n", "(assume @b (true true))\n", "(define @d () true :type (-> Bool Bool))\n", "(", "(step",
        "(declare-rule @r ((F Bool)) :args (F) :conclusion F)\n(step @b false :rule @r :args (true))\n",
        "(declare-rule @r ((F Bool)) :args (F) :conclusion F)\n(step @b :rule @r :args (Bool))\n"]


def check_corpus(case, env):
    a, b, m, bad, opts = case
    base = sx.accepted(env)
    name, text, v = base[a % len(base)]
    cs = sx.parse(text)
    if any(c.head in ("exit", "reset", "set-option") for c in cs):
        raise Discard()
    opts = [o for o in opts if o.startswith("--stats") or o == "--no-print-dag"]
    if m < 2:
        i = b % (len(cs) + 1)
        pos = cs[i].a if i < len(cs) else len(text)
        if "\n" in text[:pos] and ";" in text[text.rfind("\n", 0, pos):pos]:
            raise Discard()
        if bad in ("(", "(step"):
            t = text[:pos] + bad
        else:
            t = text[:pos] + bad + text[pos:]
        want = "reject"
    else:
        rules = [c for c in cs if c.head == "declare-rule"]
        if not rules:
            raise Discard()
        used = set()
        for c in cs:
            if c.head in ("step", "step-pop"):
                for x, y in zip(c.kids, c.kids[1:]):
                    if x.text == ":rule":
                        used.add(y.text)
        r = rules[b % len(rules)]
        ks = [k.text for k in r.kids]
        if ":sorry" in ks:
            x = r.kids[ks.index(":sorry")]
            t = text[:x.a] + text[x.b:]
            others = any(c is not r and ":sorry" in [k.text for k in c.kids] and c.kids[1].text in used for c in rules)
            want = "incomplete" if others else "correct"
        else:
            t = text[:r.b - 1] + " :sorry" + text[r.b - 1:]
            want = "incomplete" if r.kids[1].text in used or v == "incomplete" else "correct"
    r = env.run({"p.eo": t}, "p.eo", opts)
    if r.verdict != want:
        raise Violation("%s changed: the response should be %s, but: %s" % (name, want, r.show()), {"p.eo": t}, "ethos p.eo")
    judge(r, want, {"p.eo": t}, "ethos p.eo", t)
    k = "corpus " + want
    env.notes[k] = env.notes.get(k, 0) + 1
    return [(name + str(b) + bad + str(m), True)]


PARTS = [Part("histories", gen, check, 12000, 200000),
         Part("corpus", gen_corpus, check_corpus, 4000, 40000)]
