"""C23: renaming, reordering and irrelevant commands."""
import re
from ..engine import Part, Discard, Violation
from .. import sx, mutate
from . import c01, c02, c04, c07, c09, c10, c11, c12, c13, c14

ID = "C23"
RULE = ("an evaluation is the verdict of one input after a series of edits compared with its verdict before; non-trivial if the "
        "edits concern at least three places of an input with at least five commands; distinct by the edited input")
TECHNIQUE = 'property-based testing: metamorphic relations (renaming, swapping, annotating, adding and dropping) on the corpus, its mutants and the inputs generated for the other properties'
NOTE = ('Base inputs are the tests of the repository, token-level mutants of them (mostly rejected), and inputs that the generators of '
        'C01, C02, C04, C07 and C09 to C14 produce, accepted and rejected ones.')
ASSUMPTIONS = ["names that occur in string literals, and files that use eo::nameof, are not renamed, since the input can inspect them",
               "files that use eo::hash or eo::cmp are not reordered (C08: the order is fixed per run only)"]
VARIANTS = ["release"]

SOURCES = [(c01, "rules"), (c02, "histories"), (c04, "histories"), (c07, "random_programs"), (c07, "recursive_programs"),
           (c09, "desugaring"), (c10, "typing"), (c11, "queries"), (c11, "rules"), (c12, "histories"), (c13, "histories"),
           (c14, "signatures")]
SOURCES = [(m, [p for p in m.PARTS if p.name == n][0]) for m, n in SOURCES]


class Captured(Exception):
    pass


class Capture:
    """stands in for the environment and keeps the input it is to run"""

    def __init__(self):
        self.notes, self.have, self.bins = {}, {}, {"release": "", "debug": ""}
        self.tier, self.seed = "quick", 0

    def put(self, files):
        self.files = files

    def run(self, files, main, args=(), variant="release", stdin=None, timeout=None):
        self.got = ({main: files} if isinstance(files, (str, bytes)) else dict(files), main, list(args))
        raise Captured()

    def exec(self, *a, **k):
        raise Discard()


def capture(s):
    m, part = s.pick(SOURCES)
    e = Capture()
    try:
        part.check(part.gen(s), e)
    except Captured:
        files, main, args = e.got
        if len(files) == 1 and isinstance(files[main], str) and main.endswith(".eo"):
            return m.ID + "/" + part.name, files[main], args
    except (Violation, AttributeError):
        pass
    raise Discard()


_base = None


def setup_worker(env):
    global _base
    _base = [(n, t) for n, t, v in sx.accepted(env) if len(t) < 60000]


# ---------------------------------------------------------------- edits

RESERVED = {"true", "false", "Bool", "Type", "->", "_", "as", "par", "let", "!", "Proof", "Quote", "lambda", "=", "forall",
            "<numeral>", "<decimal>", "<rational>", "<hexadecimal>", "<binary>", "<string>"}
NAME = re.compile(r"(?!-[0-9])[A-Za-z~!@$%^&*_+=<>.?/-][A-Za-z0-9~!@$%^&*_+=<>.?/:-]*\Z")


def bare(t):
    return t[1:-1] if t.startswith("|") else t


def declared(cs):
    """names that the commands bind"""
    res = set()

    def binders(n):
        for k in n.kids:
            if k.k == "(" and k.kids and k.kids[0].k in "aq":
                res.add(bare(k.kids[0].text))
    for c in cs:
        h = c.head
        if h in ("declare-const", "declare-sort", "step", "assume", "assume-push", "step-pop", "define", "program", "declare-rule",
                 "declare-parameterized-const", "declare-datatype") and len(c.kids) > 1 and c.kids[1].k in "aq":
            res.add(bare(c.kids[1].text))
        if h in ("define", "program", "declare-rule", "declare-parameterized-const") and len(c.kids) > 2:
            binders(c.kids[2])
        if h == "declare-datatypes" and len(c.kids) > 2:
            binders(c.kids[1])
            for d in c.kids[2].kids:
                for k in d.walk():
                    if k.k == "(" and k.kids and k.kids[0].k in "aq" and k.kids[0].text != "par":
                        res.add(bare(k.kids[0].text))
        if h == "declare-datatype" and len(c.kids) > 2:
            for k in c.kids[2].walk():
                if k.k == "(" and k.kids and k.kids[0].k in "aq" and k.kids[0].text != "par":
                    res.add(bare(k.kids[0].text))
    return res


SPECIAL = ["step", "assume", "define", "program", "include", "echo", "match", "exists", "not", "and", "or", "Int", "x", "y", "T", "U",
           "a", "nil", "cons", "eo", "self", "$eo_x", "@list", "@", "$", "+", "-", "*", "/", "-x", "<=", "...", ".a", "?", "~", "!!", "-a1",
           "rule", "args", "premises", "requires", "conclusion", "declare-const", "push", "pop", "Z", "A", "check", "chk", "Proof1",
           "null", "context", "Context", "quote", "tuple", "LEFT", "b1", "x0", "e1"]


def fresh(s, used):
    while True:
        m = s.n(14)
        if m < 5:
            t = s.pick(SPECIAL)
            t = s.pick([t, t, "|%s|" % t])
        elif m < 8:
            t = s.pick(["v", "fn", "c_", "@", "$", "a-", "n!", "K."]) + str(s.r(0, 30))
        elif m == 8:
            t = s.pick("abcxyzABCXYZ") * s.pick([1, 2, 15, 16, 17, 31, 32, 255, 256, 300, 1023, 1025])
        elif m == 9:
            t = "|" + s.pick(["a b", " a", "a ", "", "(", ")", "()", "a;b", "1", "12", "a\nb", "\"", "#b1", ":x", "0.5", "true ", "a(b", "é", "x y z",
                              "eo::add", "1a", "'", "{", "\t", "\n"]) + "|"
        elif m == 10:
            b = sorted(used)
            t = s.pick(b) if b else "x"
            t = "|%s|" % (t + s.pick(["1", "'", "_", t, " ", "a"]))
        elif m == 11:
            t = "_v%d" % s.r(0, 5)
        else:
            t = "".join(s.pick("abcdefgXYZ_-.@$<>=+*") for _ in range(s.r(1, 6)))
        b = bare(t)
        if b in used or b in RESERVED or not t.startswith("|") and (not NAME.match(t) or ":" in t):
            if s.p(3):
                raise Discard()
            continue
        # reserved spellings
        if b.startswith("eo::") or t == "||" and "" in used:
            continue
        used.add(b)
        return t


def symbols(text):
    return {bare(text[a:b]) for a, b, k in sx.tokens(text) if k in "aq"}


def strings(text):
    return {text[a + 1:b - 1] for a, b, k in sx.tokens(text) if k == "s"}


def rename(s, text):
    """a consistent renaming of declared names; also permutations of them"""
    if "nameof" in text or "nameof" in text:
        return text, 0
    cs = sx.parse(text)
    st = strings(text)
    all_ = symbols(text)
    names = sorted(n for n in declared(cs) - RESERVED if not n.startswith(":") and not any(n and n in x for x in st) and n not in st
                   and not n.startswith("eo::") and n != "" and not re.match(r"[0-9#]", n))
    if not names:
        return text, 0
    if s.p(60):
        ch = s.sub(names, 1)
    else:
        ch = names
    used = set(all_) | st
    if s.p(25):
        # a permutation
        p = s.perm(ch)
        m = {a: ("|%s|" % b if not NAME.match(b) else b) for a, b in zip(ch, p)}
    else:
        m = {a: fresh(s, used) for a in ch}
    # testers and updaters
    dec = declared(cs)
    for a in list(m):
        for p in ("is-", "update-"):
            if p + a in all_ and p + a not in dec:
                b = p + bare(m[a])
                m[p + a] = b if NAME.match(b) else "|%s|" % b
    # top level command names stay
    cmd = {c.kids[0].a for c in cs if c.kids}
    ed = []
    for a, b, k in sx.tokens(text):
        if k in "aq" and a not in cmd and bare(text[a:b]) in m and not text[a:b].startswith(":"):
            ed.append((a, b, m[bare(text[a:b])]))
    return sx.replace(text, ed), len(ch)


BINDING = ("declare-const", "declare-parameterized-const", "define", "program", "declare-rule")


def swap(s, text):
    if "eo::hash" in text or "eo::cmp" in text:
        return text, 0
    cs = sx.parse(text)
    out = list(cs)
    n = 0
    names = [bare(c.kids[1].text) if c.head in BINDING and len(c.kids) > 1 else None for c in cs]
    syms = {}
    for _ in range(s.r(1, 12)):
        if len(out) < 2:
            break
        i = s.n(len(out) - 1)
        a, b = out[i], out[i + 1]
        if a.head not in BINDING or b.head not in BINDING or len(a.kids) < 2 or len(b.kids) < 2:
            continue
        x, y = bare(a.kids[1].text), bare(b.kids[1].text)
        for c in (a, b):
            if id(c) not in syms:
                syms[id(c)] = symbols(c.text)
        if x == y or y in syms[id(a)] or x in syms[id(b)]:
            continue
        out[i], out[i + 1] = b, a
        n += 1
    if not n:
        return text, 0
    return "\n".join(c.text for c in out) + "\n", n


def unused(s, used, lev, types, signature=True):
    """an irrelevant command"""
    f = lambda: fresh(s, used)
    m = s.n(20)
    t = s.pick(types)
    if m < 3:
        return "(declare-const %s %s)" % (f(), s.pick([t, "(-> %s %s)" % (t, s.pick(types)), "Type", "(-> Type Type)",
                                                       "(-> %s Bool Bool)" % t]))
    if m == 3:
        return "(declare-const %s (-> Bool Bool Bool) %s)" % (f(), s.pick([
            ":right-assoc-nil true", ":left-assoc-nil false", ":right-assoc", ":left-assoc", ":chainable and", ":pairwise or"][:4]))
    if m == 4:
        a, b = f(), f()
        return "(declare-parameterized-const %s ((%s Type :implicit)) (-> %s %s Bool))" % (a, b, b, b)
    if m == 5:
        return "(define %s () %s)" % (f(), s.pick(["true", t, "(eo::not true)", "(eo::and true false)"]))
    if m == 6:
        a, b = f(), f()
        return "(define %s ((%s Bool)) %s)" % (a, b, b)
    if m == 7:
        a, b, c = f(), f(), f()
        return "(program %s ((%s Type) (%s %s)) :signature (%s) %s (((%s %s) %s)))" % (a, b, c, b, b, b, a, c, c)
    if m == 8:
        a, b = f(), f()
        return "(program %s ((%s Bool)) :signature (Bool) Bool (((%s true) false) ((%s %s) (%s (eo::not %s)))))" % (a, b, a, a, b, a, b)
    if m in (9, 10) and lev == 0:
        a, b = f(), f()
        return s.pick(["(declare-rule %s ((%s Bool)) :premises (%s) :conclusion %s)" % (a, b, b, b),
                       "(declare-rule %s ((%s Bool)) :premises (%s) :conclusion %s :sorry)" % (a, b, b, b),
                       "(declare-rule %s ((%s Bool)) :args (%s) :requires ((%s true)) :conclusion false)" % (a, b, b, b),
                       "(declare-rule %s ((%s Bool)) :assumption %s :conclusion %s)" % (a, b, b, b),
                       "(declare-rule %s () :conclusion true)" % a])
    if m == 11:
        return s.pick(["(echo \"%s\")", "(echo \"correct%s\")"]) % s.pick(["x", " ", "\n", "(step", "\"\"", ""])
    if m == 12:
        if s.p(40):
            # a value that is no Boolean sets no option
            return "(set-option :%s %s)" % (s.pick(["normalize-num", "normalize-dec", "normalize-hex", "parse-let", "rule-sym-table", "print-dag"]),
                                            s.pick(["foo", "0", "1", "(true)", "\"true\"", "True", "on"]))
        return "(set-option :%s %s)" % (s.pick(["produce-proofs", "x", "verbosity", "status"]), s.pick(["true", "2", "(a b)", "\"s\"", "unsat"]))
    if m == 13 and lev == 0:
        return "(push)\n%s\n(pop)" % unused(s, used, 1, types)
    if m == 14:
        a, b, c, d = f(), f(), f(), f()
        return "(declare-datatype %s ((%s) (%s (%s %s))))" % (a, b, c, d, s.pick([a, "Bool", t]))
    if m == 15:
        return "(assume %s %s)" % (f(), s.pick(["true", "false"]))
    if m == 16 and lev == 0:
        a, b, c, d = f(), f(), f(), f()
        return "(declare-rule %s ((%s Bool)) :args (%s) :requires ((%s true)) :conclusion true)\n(step %s true :rule %s :args (true))" % (
            a, b, b, b, c, a)
    if m == 17 and lev == 0:
        a, b, c, d = f(), f(), f(), f()
        return "(declare-rule %s ((%s Bool)) :assumption %s :conclusion true)\n(assume-push %s false)\n(step-pop %s true :rule %s)" % (
            a, b, b, c, d, a)
    if m == 18:
        a = f()
        return "(program %s () :signature (Bool) Bool)" % a
    return "(declare-const %s %s)" % (f(), t)


def insert(s, text):
    cs = sx.parse(text)
    if declared(cs) & {"true", "false", "Bool", "Type", "->"}:
        return text, 0
    used = symbols(text) | strings(text)
    lev, out, n = 0, [], 0
    types = ["Bool"]
    dens = s.pick([5, 20, 60, 100])
    for c in cs:
        k = 0
        while s.p(dens) and k < 3:
            out.append(unused(s, used, lev, types))
            n += 1
            k += 1
            if dens == 100:
                break
        out.append(c.text)
        lev += (c.head in ("assume-push", "push")) - (c.head in ("step-pop", "pop"))
        if c.head == "reset":
            types, lev = ["Bool"], 0
        if c.head in ("push", "pop") and len(c.kids) > 1:
            raise Discard()
        if c.head == "declare-const" and len(c.kids) == 3 and c.kids[2].text == "Type" and lev == 0:
            types.append(c.kids[1].text)
        if c.head == "exit":
            break
    if lev == 0 and s.p(50):
        out.append(unused(s, used, lev, types))
        n += 1
    return "\n".join(out) + "\n", n


def drop(s, text, verdict):
    """commands whose names occur nowhere else; stated conclusions"""
    cs = sx.parse(text)
    if verdict not in ("correct", "incomplete"):
        return text, 0
    if "eo::hash" in text or "eo::cmp" in text:
        return text, 0
    cnt = {}
    for a, b, k in sx.tokens(text):
        if k in "aq":
            x = bare(text[a:b])
            cnt[x] = cnt.get(x, 0) + 1
    explicit = {bare(c.kids[1].text) for c in cs if c.head == "declare-rule" and "explicit" in c.text}
    sorry = ":sorry" in text
    out, n = [], 0
    pct = s.pick([20, 50, 100])
    for c in cs:
        if c.head in BINDING and len(c.kids) > 1 and s.p(pct):
            own = symbols(c.text)
            x = bare(c.kids[1].text)
            here = sum(1 for k in c.walk() if k.k in "aq" and bare(k.text) == x)
            if cnt.get(x, 0) == here:
                n += 1
                continue
        if c.head in ("step", "assume", "echo") and s.p(pct) and (c.head == "echo" or c.head == "assume" or not sorry):
            if c.head == "echo" or len(c.kids) > 1 and cnt.get(bare(c.kids[1].text), 0) == 1:
                n += 1
                continue
        if c.head in ("step", "step-pop") and len(c.kids) > 3 and c.kids[2].text != ":rule" and s.p(pct):
            r = [c.kids[i + 1].text for i in range(len(c.kids) - 1) if c.kids[i].text == ":rule"]
            if r and bare(r[0]) not in explicit:
                out.append(c.src[c.a:c.kids[2].a] + c.src[c.kids[2].b:c.b])
                n += 1
                continue
        out.append(c.text)
    return "\n".join(out) + "\n", n


def terms(c):
    """the nodes of a command that are terms, as far as its form tells"""
    h, ks, tops = c.head, c.kids, []
    opt = {}
    for i in range(len(ks) - 1):
        if ks[i].k == "a" and ks[i].text.startswith(":"):
            opt[ks[i].text] = ks[i + 1]

    def lst(k):
        if k in opt and opt[k].k == "(":
            tops.extend(opt[k].kids)
    if h in ("step", "step-pop") and ":rule" in opt:
        if ks[2].text != ":rule":
            tops.append(ks[2])
        lst(":args")
    elif h in ("assume", "assume-push") and len(ks) == 3:
        tops.append(ks[2])
    elif h == "define" and len(ks) >= 4:
        tops.append(ks[3])
    elif h == "declare-const" and len(ks) >= 3:
        tops.append(ks[2])
    elif h == "declare-rule":
        lst(":args")
        lst(":premises")
        if ":requires" in opt and opt[":requires"].k == "(":
            for p in opt[":requires"].kids:
                tops.extend(p.kids)
        if ":conclusion" in opt:
            tops.append(opt[":conclusion"])
    elif h == "program" and len(ks) == 7 and ks[6].k == "(":
        for p in ks[6].kids:
            if p.k == "(" and len(p.kids) == 2:
                tops.append(p.kids[1])
                if p.kids[0].k == "(":
                    tops.extend(p.kids[0].kids[1:])
    res = []

    def walk(n):
        if n.k == "a" and n.text.startswith(":"):
            return
        res.append(n)
        if n.k == "(" and n.kids:
            hd = n.kids[0]
            for i, k in enumerate(n.kids[1:]):
                if hd.text == "!" and i:
                    break
                if i == 0 and (hd.text in ("let", "eo::define") or k.k == "(" and k.kids and k.kids[0].k == "("):
                    continue
                walk(k)
    for t in tops:
        walk(t)
    return res


UNSUP = [":foo", ":named n", ":named |x y|", ":pattern ((f x))", ":pattern (x y (z))", ":weight 5", ":qid \"a\"", ":foo :bar", ":named n :named m", ":x #b01",
         ":y ()", ":z (())", ":status :x 1/2", ":foo 1.5 :a b :c", ":named step", ":skolemid |)|", ":info \")\""]


def annotate(s, text):
    """attributes that ethos does not use, on terms, commands and parameters"""
    cs = sx.parse(text)
    if declared(cs) & {"true", "false", "Bool", "Type", "->", "!"}:
        return text, 0
    out, n = [], 0
    pct = s.pick([3, 10, 30, 80])
    for c in cs:
        ins = []
        for t in terms(c):
            if s.p(pct):
                ins.append((t.a, 1, "(! "))
                ins.append((t.b, 0, " " + s.pick(UNSUP) + ")"))
        if c.head in ("declare-const", "declare-parameterized-const", "define", "declare-rule") and s.p(pct):
            ins.append((c.b - 1, 2, " " + s.pick(UNSUP)))
        if c.head in ("declare-parameterized-const", "define", "declare-rule", "program") and len(c.kids) > 2 and c.kids[2].k == "(":
            for k in c.kids[2].kids:
                if k.k == "(" and s.p(pct) and len(k.kids) > 1:
                    ins.append((k.b - 1, 2, " " + s.pick(UNSUP)))
        # an opening one goes before what it encloses, a closing one after
        pos, part = c.a, []
        for p, _, t in sorted(ins, key=lambda x: (x[0], x[1])):
            part.append(text[pos:p])
            part.append(t)
            pos = p
        part.append(text[pos:c.b])
        out.append("".join(part))
        n += len(ins)
    return "\n".join(out) + "\n", n


def gen(s):
    src = s.w([(4, "corpus"), (4, "mutant"), (9, "generated")])
    args = []
    if src == "generated":
        name, text, args = capture(s)
    else:
        name, text = s.pick(_base)
        if src == "mutant":
            for _ in range(s.r(1, 2)):
                text = mutate.node_mutation(s, text) or text
    edits = [s.pick(["rename", "rename", "swap", "insert", "insert", "drop", "annotate"]) for _ in range(s.r(1, 3))]
    # the choices of the edits, which may depend on the verdict
    return src + " " + name, text, args, edits, s


def check(case, env):
    name, text, args, edits, s = case
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    if any(c.head in ("include", "reference") for c in cs):
        raise Discard()
    r0 = env.run({"b.eo": text}, "b.eo", args)
    if r0.verdict not in ("correct", "incomplete", "reject"):
        raise Discard()
    cur, tot, done = text, 0, []
    for e in edits:
        if e == "rename":
            cur2, n = rename(s, cur)
        elif e == "swap":
            cur2, n = swap(s, cur)
        elif e == "insert":
            cur2, n = insert(s, cur)
        elif e == "annotate":
            cur2, n = annotate(s, cur)
        else:
            cur2, n = drop(s, cur, r0.verdict)
        if n:
            done.append("%s (%d)" % (e, n))
            env.notes[e] = env.notes.get(e, 0) + n
        cur, tot = cur2, tot + n
    if cur == text:
        raise Discard()
    r1 = env.run({"b.eo": cur}, "b.eo", args)
    if r1.verdict == "timeout":
        raise Discard()
    env.notes["verdict " + r0.verdict] = env.notes.get("verdict " + r0.verdict, 0) + 1
    if r1.verdict != r0.verdict:
        raise Violation("%s: %s before, but after %s:\n%s\nbefore:\n%s" % (name, r0.verdict, ", ".join(done), r1.show(), r0.show()),
                        {"before.eo": text, "after.eo": cur})
    return [(cur, tot >= 3 and len(cs) >= 5)]


PARTS = [Part("edits", gen, check, 10000, 250000)]
