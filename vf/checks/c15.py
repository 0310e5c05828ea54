"""C15: literals and symbols are read and printed faithfully."""
import re
from fractions import Fraction
from ..engine import Part, Discard, Violation
from ..eo import CHK
from ..gen import LITSIG, gint, gfrac, gdec, gwidth, gbv
from .. import sx

ID = "C15"
VARIANTS = ["release"]
RULE = ("an evaluation is one question about one or two spellings of literals or symbols, one list of literals and symbols printed and read "
        "back, or one test-suite file with its symbols quoted; non-trivial if the spelling is not the canonical one, or two "
        "spellings are compared, or (files) at least one symbol is quoted; distinct by spellings, context and options")
TECHNIQUE = ("property-based testing: random spellings of literals against a reference reader and values built by arithmetic, "
             "print-and-read-back round trips, and metamorphic quoting of the symbols of test-suite files and mutants of them")
NOTE = "Random search. Decimals are printed as annotated rationals and do not take part in the round trip."
ASSUMPTIONS = ["decimals are shown as (! q :decimal), which reads back as a rational (a limitation documented in the code)",
               "tokens not separated by white space or parentheses, such as #b12, are not generated",
               "a backslash in a symbol is shown as an underscore, as intended by the code: such symbols do not take part in the round trip",
               "symbols are UTF-8; what eo::nameof does for symbols that are not is not decided"]

HEX = "0123456789abcdefABCDEF"
ESC = re.compile(r"\\u\{([0-9a-fA-F]{1,5})\}|\\u([0-9a-fA-F]{4})")


def setup(bins, tier, seed):
    from ..engine import Env
    e = Env(bins)
    sx.accepted(e)
    e.close()


def unesc(t):
    """code points denoted by the text between the quotes"""
    t = t.replace('""', '"')
    out, i = [], 0
    while i < len(t):
        m = ESC.match(t, i)
        if m:
            v = int(m.group(1) or m.group(2), 16)
            if v < 0x30000:
                out.append(v)
                i = m.end()
                continue
        out.append(ord(t[i]))
        i += 1
    return tuple(out)


def zeros(s):
    return "0" * s.w([(5, 0), (2, 1), (1, 3)])


def text_of_string(s):
    out = []
    for _ in range(s.w([(1, 0), (3, 1), (3, 2), (3, 4), (1, 9)])):
        m = s.n(12)
        if m < 3:
            out.append(s.pick(list("abcuAF0129{}x ;|()'")))
        elif m == 3:
            out.append('""')
        elif m == 4:
            out.append("\\")
        elif m == 5:
            out.append("\\u{%s}" % "".join(s.pick(HEX) for _ in range(s.r(1, 5))))
        elif m == 6:
            out.append("\\u%s" % "".join(s.pick(HEX) for _ in range(s.r(4, 5))))
        elif m == 7:
            out.append("\\u{%x}" % s.pick([0, 9, 10, 13, 31, 34, 92, 65, 127, 128, 255, 256, 0x2FFFF, 0x30000, 0xFFFFF, 117, 123]))
        elif m == 8:
            # nearly an escape
            out.append(s.pick(["\\u", "\\u{", "\\u{}", "\\u{41", "\\u{000041}", "\\u{4g}", "\\u004", "\\u00g1", "\\x41", "\\\\u{41}", "\\n",
                               "\\u {41}", "\\U{41}", "\\U0041", "\\u{41 }", "\\u{+1}", "\\u{0x41}", "u{41}", "\\u\\u{41}", "\\u{\\u{41}}"]))
        elif m == 9:
            out.append(s.pick(["\n", "\t", "\r", "\n\n", "\x7f", "\x01"]))
        elif m == 10:
            out.append("\\u{%s%x}" % ("0" * s.n(4), s.n(16)))
        else:
            out.append(s.pick(["ab", "a", "b", "ba"]))
    return "".join(out)


def literal(s, k=None):
    """(spelling, value, canonical?)"""
    k = k or s.pick("zzqqddxxyysss")
    if k == "z":
        n = gint(s)
        t = "%s%s%d" % ("-" if n < 0 or n == 0 and s.p(30) else "", zeros(s), abs(n))
        return t, ("z", n)
    if k == "q":
        q = gfrac(s)
        f = s.w([(3, 1), (2, 2), (1, 6), (1, 10), (1, 1 << 70)])
        t = "%s%s%d/%s%d" % ("-" if q < 0 or q == 0 and s.p(30) else "", zeros(s), abs(q.numerator) * f, zeros(s), q.denominator * f)
        return t, ("q", q)
    if k == "d":
        d = gdec(s)
        n = 0
        while (d * 10 ** n).denominator != 1:
            n += 1
        n += s.w([(3, 0), (2, 1), (1, 5)]) if n else s.w([(3, 1), (1, 4)])
        a = str(abs(int(d * 10 ** n))).rjust(n + 1, "0")
        t = "%s%s%s.%s" % ("-" if d < 0 or d == 0 and s.p(30) else "", zeros(s), a[:-n], a[-n:])
        return t, ("d", d)
    if k == "x":
        w = 4 * s.w([(4, 1), (4, 2), (2, 3), (2, 4), (1, 8), (1, 16), (1, 17), (1, 33)])
        v = gbv(s, w)
        t = ("%x" % v).rjust(w // 4, "0")
        t = "".join(c.upper() if s.p(40) else c for c in t)
        return "#x" + t, ("x", w, v)
    if k == "y":
        w = gwidth(s)
        v = gbv(s, w)
        return "#b" + bin(v)[2:].rjust(w, "0"), ("y", w, v)
    t = text_of_string(s)
    return '"%s"' % t, ("s", unesc(t))


def other(s, v):
    """another spelling of the same literal"""
    k = v[0]
    if k == "z":
        return ("-" if v[1] < 0 else "") + zeros(s) + str(abs(v[1]))
    if k == "q":
        f = s.pick([1, 3, 10, 1 << 40])
        return "%d/%s%d" % (v[1].numerator * f, zeros(s), v[1].denominator * f)
    if k == "d":
        n = 1
        while (v[1] * 10 ** n).denominator != 1:
            n += 1
        n += s.n(3)
        a = str(abs(int(v[1] * 10 ** n))).rjust(n + 1, "0")
        return ("-" if v[1] < 0 else "") + a[:-n] + "." + a[-n:]
    if k == "x":
        return "#x" + "".join(c.upper() if s.p(50) else c for c in ("%x" % v[2]).rjust(v[1] // 4, "0"))
    if k == "y":
        return "#b" + bin(v[2])[2:].rjust(v[1], "0")
    out = []
    for c in v[1]:
        m = s.n(5)
        if m == 0 and c < 0x10000:
            out.append("\\u%04x" % c)
        elif m == 1 or c > 126 or c < 32 or c == 92:
            out.append(s.pick(["\\u{%x}", "\\u{%X}", "\\u{%05x}"]) % c)
        else:
            out.append('""' if c == 34 else chr(c))
    return '"%s"' % "".join(out)


def near(s, v):
    """a different literal"""
    k = v[0]
    m = s.n(3)
    if k == "z":
        return s.pick([("z", v[1] + s.pick([1, -1, 10, 1 << 64])), ("q", Fraction(v[1])), ("d", Fraction(v[1])), ("z", -v[1] or 1),
                       ("s", tuple(map(ord, str(v[1]))))])
    if k == "q":
        return s.pick([("q", v[1] + Fraction(1, s.pick([1, 7, 1000]))), ("q", -v[1] or Fraction(1, 2)), ("z", v[1].numerator),
                       ("q", 1 / v[1] if v[1] not in (0, 1, -1) else Fraction(5, 7))])
    if k == "d":
        return s.pick([("d", v[1] + Fraction(1, 10 ** s.n(9))), ("d", -v[1] or Fraction(3, 2)), ("q", v[1])])
    if k == "x":
        return s.pick([("x", v[1], v[2] ^ (1 << s.n(v[1]))), ("x", v[1] + 4, v[2]), ("y", v[1], v[2])])
    if k == "y":
        return s.pick([("y", v[1], v[2] ^ (1 << s.n(v[1]))), ("y", v[1] + 1, v[2]), ("z", v[2])])
    t = v[1]
    if t and m:
        i = s.n(len(t))
        if m == 1:
            return ("s", t[:i] + (t[i] ^ 1,) + t[i + 1:])
        return ("s", t[:i] + t[i + 1:])
    return ("s", t + (s.pick([97, 0, 32, 92, 117]),))


def build(v):
    """an expression over small numerals and powers of ten whose value is v, or None"""
    k = v[0]
    if k == "z":
        n, out, ds = abs(v[1]), "0", []
        while n:
            ds.append(n % 10)
            n //= 10
        for d in reversed(ds):
            out = "(eo::add (eo::mul %s 10) %d)" % (out, d) if out != "0" else str(d)
        return "(eo::neg %s)" % out if v[1] < 0 else out
    if k == "q":
        return "(eo::qdiv %s %s)" % (build(("z", v[1].numerator)), build(("z", v[1].denominator)))
    if k == "y":
        return "(eo::to_bin %s %s)" % (build(("z", v[1])), build(("z", v[2])))
    if k == "s" and v[1]:
        xs = ["(eo::to_str %s)" % build(("z", c)) for c in v[1]]
        return "(eo::concat %s)" % " ".join(xs) if len(xs) > 1 else xs[0]
    return None


TY = {"z": "Int", "q": "Rat", "d": "Dec", "x": "Hex", "y": "Bin", "s": "Str"}
OPTS = {"num": ["--normalize-num"], "dec": ["--no-normalize-dec"], "hex": ["--no-normalize-hex"]}
SETS = {"num": "(set-option :normalize-num true)\n", "dec": "(set-option :normalize-dec false)\n",
        "hex": "(set-option :normalize-hex false)\n"}


def norm(v, on):
    if v[0] == "z" and "num" in on:
        return ("q", Fraction(v[1]))
    if v[0] == "d" and "dec" not in on:
        return ("q", v[1])
    if v[0] == "x" and "hex" not in on:
        return ("y", v[1], v[2])
    return v


BAD = ["1.", "1/", "-1/0", "1/0", "1/00", "0/0", "#b", "#b2", "#x", "#xg", "#xG1", "#", "#o7", "\"a", "\"a\"\"", "|a", "1.x", "1/x", "1/-2", "1.-2", "#B1",
       "#X1", "\"\xe9\"", "\"a\xffb\"", "1./2", "1/.2", "1 .5", "'a'", "\\a", "{", "[", "]", "`", "0x1F", "1e5", ",", "\x01", "\xe9"]


def gen(s):
    mode = s.pick(["sig", "proof", "proof", "stdin"])
    on = [k for k in OPTS if s.p(35)]
    items = []
    for _ in range(s.r(5, 25)):
        t, v = literal(s)
        w = norm(v, on) if mode != "sig" else v
        items.append((t, v, w, other(s, v), near(s, v), s.n(4)))
    for i in range(len(items)):
        n = items[i][4]
        items[i] = items[i] + (other(s, n), norm(n, on) if mode != "sig" else n)
    b = (s.pick(BAD), s.n(4)) if s.p(40) else None
    pad = s.w([(5, None), (3, s.r(900, 1100)), (1, s.r(0, 3000))])
    return mode, on, items, b, s.p(50), pad


def check(case, env):
    mode, on, items, b, cli, pad = case
    sig = [LITSIG, CHK]
    qs = []

    def ask(q, key, nt=True):
        qs.append((q, key, nt))
    for i, (t, v, w, o, n, k, nsp, nv) in enumerate(items):
        c = build(w)
        nt = not (t.isdigit() and t[0] != "0")
        ask("(eo::is_eq (eo::typeof %s) %s)" % (t, TY[w[0]]), ("type", t), nt)
        if c is not None and len(c) < 4000:
            sig.append("(define c%d () %s)\n" % (i, c))
            ask("(eo::is_eq %s c%d)" % (t, i), ("value", t), nt)
        elif w[0] == "s":
            sig.append("(define c%d () 0)\n" % i)
            ask("(eo::is_eq (eo::len %s) c%d)" % (t, i), ("value", t), nt)
        elif w[0] == "d":
            sig.append("(define c%d () %s)\n" % (i, build(("q", w[1]))))
            ask("(eo::is_eq (eo::to_q %s) c%d)" % (t, i), ("value", t), nt)
        elif w[0] == "x":
            # its bits as a binary literal
            sig.append("(define c%d () %s)\n(define d%d () %s)\n" % (i, build(("y",) + w[1:]), i, build(("z", w[1]))))
            ask("(eo::is_eq (eo::to_bin d%d %s) c%d)" % (i, t, i), ("value", t), nt)
        if o != t:
            ask("(eo::is_eq %s %s)" % (t, o), ("same", t, o))
        if nv != w:
            ask("(eo::not (eo::is_eq %s %s))" % (t, nsp), ("differ", t, nsp))
        if k == 0:
            # matched by a program
            sig.append("(program $m%d ((T Type) (x T)) :signature (T) Bool ((($m%d %s) true) (($m%d x) false)))\n" % (i, i, o, i))
            if mode == "sig" or w == v:
                ask("($m%d %s)" % (i, t), ("match", t, o))
                if nv != v:
                    ask("(eo::not ($m%d %s))" % (i, nsp), ("nomatch", t, nsp))
    steps = "".join("(step q%d true :rule chk :args (%s))\n" % (i, q) for i, (q, _, _) in enumerate(qs))
    padding = ";" + "x" * pad + "\n" if pad is not None else ""
    args, pre = [], ""
    if cli:
        for k in on:
            args += OPTS[k]
    else:
        pre = "".join(SETS[k] for k in on)

    def run(steps):
        if mode == "sig":
            files = {"q.eo": pre + padding + "".join(sig) + steps}
            return files, "q.eo", env.run(files, "q.eo", args)
        files = {"sig.eo": "".join(sig)}
        p = pre + padding + '(include "sig.eo")\n' + steps
        if mode == "stdin":
            files["in"] = p
            return files, "< in", env.run({"sig.eo": files["sig.eo"]}, None, args, "release", p.encode("latin-1"))
        files["p.smt3"] = p
        return files, "p.smt3", env.run(files, "p.smt3", args)
    files, name, r = run(steps)
    if r.verdict != "correct":
        bad = ""
        for i, (q, key, _) in enumerate(qs):
            _, _, r1 = run("(step q%d true :rule chk :args (%s))\n" % (i, q))
            if r1.verdict != "correct":
                files, name, r = run("(step q%d true :rule chk :args (%s))\n" % (i, q))
                bad = q
                break
        raise Violation("expected true but %s: %s\n%s" % (r.verdict, bad, r.show()), files, "ethos %s %s" % (" ".join(args), name))
    for _, key, _ in qs:
        env.notes[key[0]] = env.notes.get(key[0], 0) + 1
    ctx = mode + "".join(on)
    keys = [(ctx + repr(key), nt) for q, key, nt in qs]
    if b:
        t, k = b
        use = ["(step z true :rule chk :args ((eo::is_eq %s 1)))\n", "(step z true :rule chk :args ((eo::not (eo::is_eq 1 %s))))\n",
               "(define z () %s)\n", "(assume z (eo::is_eq %s %s))\n"][k]
        files, name, r = run(use.replace("%s", t))
        if r.verdict != "reject":
            raise Violation("malformed literal %r: %s" % (t, r.show()), files, "ethos %s %s" % (" ".join(args), name))
        keys.append((ctx + "bad" + t + str(k), True))
        env.notes["malformed"] = env.notes.get("malformed", 0) + 1
    return keys


# ----- printed and read back

def gen_print(s):
    return [item(s) for _ in range(s.r(1, 8))], s.p(30), s.n(3)


def item(s):
    m = s.n(20)
    if m < 5:
        return sym(s)
    if m < 8:
        t, v = literal(s, "s")
        return "(eo::var %s P)" % t, ("var", v[1])
    if m < 10:
        # constructors and functions that are written with their type, and families of functions
        a, v = item(s)
        return s.pick(["(as nn (Li P))", "(as nn (Li (Li P)))", "(co true (as nn (Li Bool)))", "((as mk (Pr Bool P)) r0)", "(as mk (Pr P (Li P)))",
                       "(co r0)", "(ox r0)", "(oy r0)", "((as mk (Pr P P)) (oy r0 r0))", "(oy r0 r0)", "(oy %s r0)" % a, "(ox %s)" % a, "(_ (oy %s r0) r0)" % a]), v
    return literal(s, s.pick("zqxyss"))


def sym(s):
    n = name(s)
    if n in RESERVED or n.startswith("eo::") or n in ("pp", "cc", "gg", "hh", "r0", "Li", "Pr", "nn", "co", "h0", "t0", "mk", "f0", "ox", "oy", "r", "P", "T", "chk", "l", "q", "bad", "_v0", "b") or "\\" in n or n in TY.values():
        n = "x"
    return n if is_simple(n) and s.p(60) else "|%s|" % n, ("sym", n)


def check_print(case, env):
    lits, nodag, k = case
    head = LITSIG + "(declare-const P Type)\n(declare-parameterized-const pp ((T Type :implicit)) (-> T P))\n" \
        "(declare-parameterized-const cc ((T Type :implicit)) (-> T P P))\n(declare-const gg (-> P Bool))\n(declare-const hh (-> P P))\n" \
        "(declare-const r0 P)\n(declare-datatypes ((Li 1) (Pr 2)) ((par (X) ((nn) (co (h0 X) (t0 (Li X))))) (par (X Y) ((mk (f0 Y))))))\n" \
        "(declare-parameterized-const ox ((A Type :implicit) (x A :opaque)) P)\n" \
        "(declare-parameterized-const oy ((A Type :implicit) (x A :opaque)) (-> P P))\n"
    for n in sorted({v[1] for _, v in lits if v[0] == "sym"}):
        head += "(declare-const |%s| P)\n" % n
    l = "(pp %s)" % lits[0][0]
    for t, _ in lits[1:]:
        l = "(cc %s %s)" % (t, l)
    use = ["(define bad () (gg %s) :type Int)\n" % l,
           "(define bad () (hh %s) :type Int)\n" % l,
           "(declare-rule r ((l P)) :args (l) :requires (((gg l) true)) :conclusion true)\n(step bad false :rule r :args (%s))\n" % l][k]
    files = {"q.eo": head + use}
    args = ["--no-print-dag"]
    r = env.run(files, "q.eo", args)
    if r.verdict != "reject":
        raise Violation("accepted\n" + r.show(), files, "ethos q.eo")
    msg = r.errmsg()
    out = None
    for h in ("(gg ", "(hh ", "(_ gg ", "(_ hh "):
        i = msg.find(h)
        if i >= 0:
            out = msg[i:]
            break
    if k == 2:
        m = re.search(r"(\(_ )*\((pp|cc) ", msg)
        out = msg[m.start():] if m else None
    if not out:
        env.notes["not shown"] = env.notes.get("not shown", 0) + 1
        if env.notes["not shown"] > 50 and env.notes["not shown"] > env.notes.get("shown", 0):
            raise Violation("the message does not show the term\n" + r.show(), files, "ethos q.eo")
        raise Discard()
    try:
        n = sx.parse(out[:scan(out)])[0]
    except (ValueError, IndexError):
        raise Violation("the term shown is not a term: %s" % out, files, "ethos q.eo")
    env.notes["shown"] = env.notes.get("shown", 0) + 1
    orig = l if k == 2 else "(%s %s)" % ("gg" if k == 0 else "hh", l)
    files2 = {"q.eo": head + CHK + "(step q true :rule chk :args ((eo::is_eq %s %s)))\n" % (n.text, orig)}
    r2 = env.run(files2, "q.eo")
    if r2.verdict != "correct":
        raise Violation("%s was shown as\n%s\nwhich is another term: %s" % (orig, n.text, r2.show()), files2, "ethos q.eo")
    return [(orig, True)]


def scan(t):
    """length of the first term of the text"""
    depth, i = 0, 0
    while i < len(t):
        c = t[i]
        if c == "|":
            i = t.index("|", i + 1)
        elif c == '"':
            i += 1
            while i < len(t):
                if t[i] == '"':
                    if t[i + 1:i + 2] != '"':
                        break
                    i += 1
                i += 1
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if not depth:
                return i + 1
        i += 1
    raise ValueError


# ----- symbols

START = "abzABZ~!@$%^&*_-+=<>.?/"
REST = START + "0189:"
TRICKY = ["-", "--1", "-1x", "-x", "-1.", "-1/", "-.5", "-/3", "-1.2.3", "-1/2/3", "-1.2/3", "!x", "_x", "__", "par1", "pa", "Boolx", "bool", "lets",
          "eo:define", "eo::definex", "as1", "...", ".5", "/", "a:b", "a::b", "@0", "!!", "Types", "type", "+", "<=", "a", "A", "aa", "-a1", "let1",
          "define", "assume", "step", "program", "include", "declare-const", "premises", "x:", "e", "eo", "eo:", "E1", "?", "-:", "-1:"]
RESERVED = {"!", "_", "as", "par", "let", "Bool", "Type", "true", "false"}
QUOTED = ["", " ", "a b", "1", "12", "1.5", "#b1", "#x0", "-1", "-1.5", "-1/2", "(", ")", "a(b", ";", "a;b", "\"", "a\"b", ":k", ":", "\n", "a\nb", "\t", "a,b",
          "[", "{}", "'", "`", "'a", "\u00e9", "\u03bb", "x y z", "0x1F", "(f a)", "; comment\n",
          "\\", "\\u{41}", "a\\", "\\u0041", "\\u{3b1}", "\u00c3\u00a9", "\u20ac", "\u07ff", "\u0800", "\U0001f600", "\U0002ffff", "\u00ff"]


def name(s):
    m = s.n(10)
    if m < 3:
        return s.pick(TRICKY)
    if m < 5:
        return s.pick(QUOTED)
    if m < 8:
        n = s.pick(START) + "".join(s.pick(REST) for _ in range(s.w([(3, 0), (3, 1), (3, 2), (2, 4)])))
        return n
    if m == 8:
        return "".join(s.pick(list("ab1 ();:\"#-.\n")) for _ in range(s.r(1, 5)))
    return "x" * s.pick([1, 100, 1020, 1023, 1024, 1025, 2048, 5000])


SIMPLE = re.compile(r"[a-zA-Z~!@$%^&*_+=<>.?/-][a-zA-Z0-9~!@$%^&*_+=<>.?/:-]*\Z")
NEGLIT = re.compile(r"-[0-9]+([./][0-9]+)?\Z")


def is_simple(n):
    return bool(SIMPLE.match(n)) and not NEGLIT.match(n) and not n.startswith("eo::define") or n == "eo::definex"


def lit_of(n):
    """the string literal of a name"""
    return '"%s"' % "".join('""' if c == '"' else c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in n)


def gen_sym(s):
    ns = []
    for _ in range(s.r(2, 12)):
        n = name(s)
        if n in RESERVED or n in ns or n in ("chk", "=") or n.startswith("eo::"):
            continue
        ns.append(n)
    uses = [[s.p(50) for _ in range(8)] for _ in ns]
    return ns, uses, s.p(50), s.p(50), s.w([(3, 0), (2, s.r(900, 1100))])


def check_sym(case, env):
    ns, uses, proof, more, pad = case
    if not ns:
        raise Discard()

    def sp(n, quoted):
        return "|%s|" % n if quoted or not is_simple(n) else n
    sig = ["(declare-const U Type)\n(declare-parameterized-const tt ((T Type :implicit)) (-> T Bool))\n", CHK, ";" * pad + "\n"]
    qs = []
    strs = []
    sig.append("(declare-const Str Type)\n(declare-consts <string> Str)\n")
    ns = [n for n in ns if n not in ("U", "tt", "Str")]
    for i, n in enumerate(ns):
        u = uses[i]
        sig.append("(declare-const %s U)\n" % sp(n, u[0]))
        qs.append(("(eo::is_eq %s %s)" % (sp(n, u[1]), sp(n, u[2])), n + str(u[1:3]), u[1] != u[2] or not is_simple(n)))
        qs.append(("(eo::is_eq (eo::typeof %s) U)" % sp(n, u[3]), n + "t" + str(u[3]), u[3] or not is_simple(n)))
        qs.append(("(eo::is_eq (eo::nameof %s) %s)" % (sp(n, u[4]), lit_of(n)), n + "n", True))
        if i:
            m = ns[i - 1]
            qs.append(("(eo::not (eo::is_eq %s %s))" % (sp(n, u[5]), sp(m, uses[i - 1][5])), n + "|" + m, True))
    body = []
    if more:
        # the name as name of everything else: function, parameter, program, rule, step
        n, u = ns[0], uses[0]
        m = ns[-1]
        v = uses[-1]
        body.append("(program $p ((%s U)) :signature (U) U ((($p %s) %s)))\n" % (sp(n, u[6]), sp(n, u[7]), sp(n, u[0])))
        qs.append(("(eo::is_eq ($p %s) %s)" % (sp(m, v[6]), sp(m, v[7])), "p" + n + m, True))
        body.append("(program %s ((|the x| U)) :signature (U) U (((%s |the x|) %s)))\n" % (sp("pr " + n, True), sp("pr " + n, True), sp(m, v[0])))
        qs.append(("(eo::is_eq (%s %s) %s)" % (sp("pr " + n, True), sp(n, u[1]), sp(m, v[1])), "q" + n + m, True))
        body.append("(declare-rule %s ((%s U)) :args (%s) :conclusion (tt %s))\n" % (sp(n, u[1]), sp(m, v[2]), sp(m, v[3]), sp(m, v[4])))
    steps = ["(step |q%d| true :rule %s :args (%s))\n" % (i, "|chk|" if i % 3 == 0 else "chk", q) for i, (q, _, _) in enumerate(qs)]
    if more:
        steps.append("(step %s (tt %s) :rule %s :args (%s))\n" % (sp(n + "0", True), sp(m, v[5]), sp(n, u[2]), sp(m, v[6])))
        steps.append("(assume %s (tt %s))\n(step %s (tt %s) :rule rr :premises (%s))\n" % (sp(n + "1", u[3]), sp(m, v[7]), sp(n + "_", u[5]), sp(m, v[5]), sp(n + "1", u[4])))
        body.append("(declare-rule rr ((b Bool)) :premises (b) :conclusion b)\n")
        if {n + "_", n + "0", n + "1"} & (RESERVED | set(ns)):
            raise Discard()
    text = "".join(sig + body)
    if proof:
        files = {"s.eo": text, "p.smt3": '(include "s.eo")\n' + "".join(steps)}
        r = env.run(files, "p.smt3")
    else:
        files = {"p.eo": text + "".join(steps)}
        r = env.run(files, "p.eo")
    if r.verdict != "correct":
        raise Violation("expected true\n" + r.show(), files, "ethos " + ("p.smt3" if proof else "p.eo"))
    return [(k, nt) for _, k, nt in qs]


# ----- names of variables

def gen_names(s):
    out = []
    for _ in range(s.r(2, 10)):
        m = s.n(6)
        if m == 0:
            n = name(s)
            v = tuple(ord(c) for c in n)
            t = other(s, ("s", v))
        else:
            t, (_, v) = literal(s, "s")
        if m == 1 and out:
            # what an escaped spelling of an earlier name would be
            e = lit_of("".join(map(chr, s.pick(out)[1])))[1:-1].replace('""', '"')
            v = tuple(ord(c) for c in e)
            t = other(s, ("s", v))
        out.append((t, v, other(s, ("s", v))))
    return out, s.n(3), s.p(50)


def check_names(case, env):
    ns, k, proof = case
    sig = ["(declare-const U Type)\n(declare-const @L Type)\n(declare-const @nil @L)\n(declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) "
           ":right-assoc-nil @nil)\n(declare-const q (-> @L Bool Bool) :binder @cons)\n(declare-const lt (-> U Bool))\n"
           "(declare-const Str Type)\n(declare-consts <string> Str)\n", CHK]
    qs = []
    seen = {}
    for i, (t, v, o) in enumerate(ns):
        var = "(eo::var %s U)" % t
        plain = all(32 <= c < 127 and c != 92 for c in v)
        qs.append(("(eo::is_eq (eo::nameof %s) %s)" % (var, o), ("n", t, o), not plain))
        qs.append(("(eo::is_eq (eo::len (eo::nameof %s)) (eo::len %s))" % (var, t), ("len", t), not plain))
        qs.append(("(eo::is_var %s)" % var, ("is", t), not plain))
        for j in range(i):
            if k == 0 or j == i - 1:
                e = "(eo::is_eq (eo::var %s U) %s)" % (ns[j][0], var)
                qs.append((e if ns[j][1] == v else "(eo::not %s)" % e, ("eq", ns[j][0], t), not plain))
        if 124 not in v and v not in seen and not any(0xD800 <= c < 0xE000 for c in v) and 0 not in v:
            n = "|%s|" % "".join(map(chr, v))
            seen[v] = n
            if n in ("|q|", "|lt|", "|U|", "|Str|", "|@L|", "|@nil|", "|@cons|", "|chk|") or n[1:-1] in RESERVED or n.startswith("|eo::"):
                continue
            # a variable of that name, bound by a binder, and a constant
            qs.append(("(eo::is_eq (q ((%s U)) (lt %s)) (q (@cons %s) (lt %s)))" % (n, n, var, var), ("bind", n), not plain))
            qs.append(("(eo::is_eq (q ((%s U)) (eo::is_eq (eo::nameof %s) %s)) (q (@cons %s) true))" % (n, n, o, var), ("bindn", n), not plain))
            sig.append("(declare-const %s U)\n" % n)
            qs.append(("(eo::is_eq (eo::nameof %s) %s)" % (n, o), ("const", n), not plain))
            qs.append(("(eo::not (eo::is_eq %s %s))" % (n, var), ("apart", n), not plain))
    steps = "".join("(step |q%d| true :rule chk :args (%s))\n" % (i, q) for i, (q, _, _) in enumerate(qs))
    if proof:
        files, f = {"s.eo": "".join(sig), "p.smt3": '(include "s.eo")\n' + steps}, "p.smt3"
    else:
        files, f = {"p.eo": "".join(sig) + steps}, "p.eo"
    if any(re.match(r"\|q[0-9]+\|$", n) for n in seen.values()):
        raise Discard()
    r = env.run(files, f)
    if r.verdict != "correct":
        raise Violation("expected true\n" + r.show(), files, "ethos " + f)
    return [(repr(key), nt) for _, key, nt in qs]


# ----- quoting symbols of files

def gen_quote(s):
    base = s.pick(sx._base)
    t = base[1]
    from .. import mutate
    mut = 0
    for _ in range(s.w([(6, 0), (3, 1), (1, 2)])):
        x = mutate.node_mutation(s, t, None)
        if x is not None:
            t = x
            mut = 1
    return base[0], t, None if mut else base[2], s.r(0, 100), s.n(1 << 30), s.p(50)


DECL = {"declare-const", "declare-parameterized-const", "program", "define", "declare-rule", "step", "assume", "assume-push", "step-pop", "declare-fun",
        "declare-sort", "define-fun", "define-const", "define-sort", "declare-datatype"}


def symbols(cs):
    """names of commands and of their parameters"""
    out = set()
    for c in cs:
        if c.head in DECL and len(c.kids) > 2:
            out.add(c.kids[1].text)
            for p in c.kids[2:3]:
                if p.k == "(":
                    for x in p.kids:
                        if x.k == "(" and x.kids:
                            out.add(x.kids[0].text)
        elif c.head == "declare-datatypes" and len(c.kids) == 3:
            for x in c.kids[1].kids:
                if x.kids:
                    out.add(x.kids[0].text)
    return {n for n in out if n and (n[0] == "|" or is_simple(n)) and n.strip("|") not in RESERVED and not n.startswith("eo::")}


def check_quote(case, env):
    nm, text, v, pct, seed, ext = case
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    ns = symbols(cs)
    import random
    rnd = random.Random(seed)
    edits = []
    for c in cs:
        if c.head in ("include", "reference", "echo", "set-info", "set-option"):
            continue
        for x in c.walk():
            if x.k in "aq" and c.kids and x is not c.kids[0] and x.text in ns and rnd.randrange(100) < pct:
                t = x.text
                if t[0] == "|":
                    if not is_simple(t[1:-1]) or t[1:-1] in RESERVED:
                        continue
                    edits.append((x.a, x.b, t[1:-1]))
                else:
                    edits.append((x.a, x.b, "|%s|" % t))
    if not edits:
        raise Discard()
    t2 = sx.replace(text, edits)
    r1 = env.run({"q.eo": text}, "q.eo").verdict if v is None else v
    r2 = env.run({"q.eo": t2}, "q.eo")
    if r1 in ("crash", "timeout"):
        raise Discard()
    if r2.verdict != r1:
        raise Violation("%s was %s, with quoted symbols: %s" % (nm, r1, r2.show()), {"q.eo": t2, "orig.eo": text}, "ethos q.eo")
    env.notes["file " + r1] = env.notes.get("file " + r1, 0) + 1
    return [(t2, True)]


PARTS = [Part("literals", gen, check, 6000, 150000),
         Part("printed", gen_print, check_print, 4000, 80000),
         Part("symbols", gen_sym, check_sym, 4000, 80000),
         Part("names", gen_names, check_names, 2500, 60000),
         Part("quoting", gen_quote, check_quote, 3000, 60000)]
