"""C22: where errors are reported."""
import re
from ..engine import Part, Discard, Violation
from .. import sx, mutate

ID = "C22"
RULE = ("an evaluation is one run on an otherwise accepted input with one fault injected; non-trivial if at least two commands "
        "precede the fault and the input has a second file or a layout other than the original one; distinct by the contents of the files")
TECHNIQUE = 'property-based testing: fault injection at a random command of a random file, with the expected place of the error known by construction'
NOTE = ('Base inputs are the accepted tests of the repository and generated reference files; they are laid out anew and split into '
        'included files. Echo commands record which commands were executed.')
ASSUMPTIONS = ["a file that ends within a command, or with an open local assumption, may be reported at any line from that command to the end",
               "a removed closing parenthesis may be reported anywhere from its command on"]
VARIANTS = ["release"]

MARK = "(echo \"@@fault\")"
# commands that are never acceptable
BAD = """(declare-parameterized-const zz! ((T Type) (y T) (x T :opaque)) Bool)
(declare-parameterized-const zz! ((y Bool) (x Bool :opaque)) Bool)
(declare-parameterized-const zz! ((y Bool :opaque) (x Bool) (z Bool :opaque)) Bool)
(declare-parameterized-const zz! ((x Bool :opaque)) Bool :left-assoc)
(declare-parameterized-const zz! ((x Bool :opaque) (y Bool) (z Bool)) Bool :right-assoc-nil true)
(declare-parameterized-const zz! ((T Type :implicit) (x T)) (eo::ite (eo::is_eq x x) Bool T))
(declare-const zz! (-> Bool Bool Bool) :right-assoc-nil zz?)
(declare-const zz! (-> Bool Bool Bool) :chainable zz?)
(declare-datatypes () ())
(declare-datatypes ((zz! 0)) (((zc!)) ((zd!))))
(declare-datatype zz! ((zc! (zs! zz?))))
(declare-datatype zz! ((zc! zs! Bool)))
(declare-datatype zz! zc!)
(declare-rule zz! ((x Bool)) :args (x))
(declare-rule zz! ((x Bool) (y Bool)) :args (x) :conclusion y)
(declare-rule zz! ((x Bool) (y Bool)) :premises (x) :conclusion y)
(declare-rule zz! ((x Bool) (y Bool)) :premises (x) :args (true) :conclusion y)
(declare-rule zz! ((x Bool) (y Bool)) :assumption x :args (true) :conclusion y)
(declare-rule zz! ((x Bool) (y Bool)) :args (x) :requires ((y true)) :conclusion true)
(declare-rule zz! ((x Bool) (y Bool)) :premises (x) :requires ((true y)) :conclusion true)
(declare-rule zz! ((x Bool) (y Bool)) :args (x) :requires ((x true) (x (eo::and x y))) :conclusion true)
(declare-rule zz! ((x Bool)) :conclusion x)
(declare-rule zz! ((x Bool)) :args () :premises () :conclusion x)
(declare-rule zz! ((x Bool)) :args ((eo::not x)) :conclusion true)
(declare-rule zz! ((x Bool)) :args (x (eo::not x)) :conclusion true)
(declare-rule zz! ((x Bool)) :premises ((eo::not x)) :conclusion true)
(declare-rule zz! ((x Bool)) :premises (x (eo::and x x)) :conclusion true)
(declare-rule zz! ((x Bool)) :assumption (eo::not x) :conclusion true)
(declare-rule zz! ((x Bool)) :premise-list x zz? :conclusion x)
(declare-rule zz! ((x Bool)) :premises (x) :requires (true) :conclusion x)
(declare-rule zz! ((x Bool)) :premises (x) :requires ((x true true)) :conclusion x)
(program zz! () :signature () Bool (((zz! true) true)))
(program zz! () :signature ((eo::quote @@fn)) Bool (((zz! @@fn) true)))
(program zz! ((x Bool)) :signature ((eo::quote (eo::not x))) Bool (((zz! x) true)))
(program zz! ((x Bool)) :signature (Bool) Bool (((zz! (eo::not x)) x)))
(program zz! ((x Bool)) :signature (Bool Bool) Bool (((zz! x (eo::and true x)) x)))
(program zz! ((x Bool)) :signature (Bool) Bool (((@@fn x) x)))
(program zz! ((x Bool)) :signature (Bool) Bool ((zz! x) x))
(program zz! ((x Bool)) :signature (Bool) Bool (((zz! x) x x)))
(program zz! ((x Bool)) :signature (Bool) Bool (((zz! x))))
(program zz! ((x Bool)) (Bool) Bool)
(program zz! ((x Bool)) :signature (Bool))
(program zz! ((x Bool) (y Bool)) :signature (Bool Bool) Bool (((zz! true x) x) ((zz! true true) y)))
(define zz! () (eo::add))
(define zz! () (! true 1))
(define zz! () (! ))
(define zz! () (_))
(define zz! () (@@q () true))
(define zz! () (@@q ((zz! zz?)) true))
(define zz! () (@@q ((zz!)) true))
(define zz! () (@@q ((zz! Bool)) zz?))
(define zz! () (@@q ((zz! true)) true))
(declare-consts <numeral> 5)
(declare-consts <numeral> @@ok)
(pop 4294967296)
(push 99999999999999999999999)
(declare-const zz! zz?)
(declare-const zz! (-> zz? zz?))
(foo)
(declare-const)
(declare-const zz!)
(define zz! () zz?)
(define zz! ((x zz?)) x)
(define zz! () true :type zz?)
(define zz! () true :type Type)
(define zz! () 12a)
(define zz! () #q)
(define zz! () (eo::zz? true))
(define zz!)
(echo x)
(echo "x" "y")
(exit 1)
(reset 1)
(push a)
(pop 1000)
(push 01)
(pop 00)
(declare-datatypes ((zz! 01)) (((zc!))))
(include "zz!.eo")
(include zz)
(include)
(reference "zz!.smt2")
(assume zz! zz?)
(assume zz! Type)
(assume zz!)
(assume-push zz! zz?)
(step zz! true :rule zz?)
(step zz!)
(step zz! true)
(step zz! true :rule @@chk :args (false))
(step zz! true :rule @@chk :args (true true))
(step zz! true :rule @@chk)
(step zz! false :rule @@chk :args (true))
(step zz! true :rule @@imp :premises (zz?))
(step zz! true :rule @@imp :premises (@@ok))
(step-pop zz! true :rule zz?)
(declare-consts <zz> Bool)
(declare-consts <numeral>)
(declare-datatype zz!)
(declare-datatypes ((zz! 0)) ())
(program zz! () :signature (Bool) Bool ())
(program zz! () :signature (Bool) Bool (((zz? true) true)))
(program zz! ((x Bool)) :signature (Bool) Bool (((zz! true) x)))
(program zz! () :signature (Bool) Bool (((zz! true) zz?)))
(program zz! ((x zz?)) :signature (Bool) Bool (((zz! x) true)))
(program zz! () :signature (Bool Bool) Bool (((zz! true) true)))
(declare-rule zz! () :conclusion zz?)
(declare-rule zz!)
(declare-rule zz! ((x zz?)) :conclusion true)
(declare-parameterized-const zz! ((x zz?)) Bool)
(set-option :zz)
(set-option)
(set-option zz true)
(define zz! () (@@fn true true) :type Bool)
(define zz! () (eo::as @@fn zz?) :type zz?)
()
(())
("a")
(12)
true
zz?
12
"abc"
)
}""".splitlines()
PRE = """(declare-const @@T Type)
(declare-const @@n @@T)
(declare-parameterized-const @@l ((T Type :implicit)) (-> T @@T @@T) :right-assoc-nil @@n)
(declare-const @@q (-> @@T Bool Bool) :binder @@l)
(declare-const @@fn (-> @@T Bool))
(declare-rule @@chk ((b Bool)) :args (b) :requires ((b true)) :conclusion true)
(declare-rule @@imp ((F Bool)) :premises (F) :requires ((F false)) :conclusion true)
(step @@ok true :rule @@chk :args (true))
(define @@bad () (@@fn true) :type Bool)
"""
PRE = PRE.replace("(define @@bad () (@@fn true) :type Bool)\n", "")
STR = ["m%d", "m%d\n", "line\n\nm%d ; no comment", "( m%d", "a \"\" m%d", "|m%d", "m%d" + "x" * 1100, "\tm%d)"]

_base = None


def setup_worker(env):
    global _base
    _base = [(n, t) for n, t, v in sx.accepted(env) if len(t) < 30000
             and not any(c.head in ("exit", "reset") for c in sx.parse(t)) and "declare-consts <" in t + "declare-consts <"]


def echo(s, n):
    k = s.w([(12, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)])
    return "(echo \"%s\")" % (STR[k] % n), (STR[k] % n).replace('""', '"')


def unbound(s, c, names):
    """c with an occurrence of a known symbol replaced by an unbound one"""
    h = c.head
    if h == "declare-const":
        k = c.kids[2:3]
    elif h in ("assume", "assume-push"):
        k = c.kids[2:]
    elif h in ("step", "step-pop"):
        k = c.kids[2:]
    elif h == "define" and len(c.kids) > 3 and not c.kids[2].kids:
        k = c.kids[3:]
    else:
        return None
    # not where a variable may be bound
    binding = {id(m.kids[0]) for x in k for m in x.walk() if m.kids and len(m.kids) == 2}
    k = [n for x in k for n in x.walk() if n.k == "a" and n.text in names and id(n) not in binding]
    if not k:
        return None
    n = s.pick(k)
    return c.src[c.a:n.a] + "zz?" + c.src[n.b:c.b]


NOATTR = ("step", "step-pop", "assume", "assume-push", "include", "reference", "echo", "exit", "reset", "push", "pop", "set-logic",
          "declare-datatype", "declare-datatypes")


def tail(s, c):
    """c with something after its last element, or without it"""
    m = s.n(6)
    end = c.src[c.a:c.b - 1].rstrip() if ";" not in c.text else c.text[:-1]
    if m == 0 and c.head in ("step", "step-pop", "assume", "assume-push", "define", "declare-const", "declare-rule", "include", "echo") and len(c.kids) > 2:
        # without the last element, if that is no attribute of its own
        if c.head in ("step", "step-pop") or len(c.kids) == {"assume": 3, "assume-push": 3, "declare-const": 3, "define": 4}.get(c.head):
            if c.head[:4] != "step" or c.kids[-1].k == "(" and c.kids[-2].text in (":args", ":premises") or c.kids[-2].text == ":rule":
                return c.src[c.a:c.kids[-1].a] + ")"
    if m < 3 and c.head in NOATTR:
        x = s.pick([":zz?", ":rule", ":sorry", ":type Bool", ":rule zz?"]) if c.head[:4] != "step" else s.pick(
            [":zz?", ":rule", ":sorry", ":premises", ":args", ":premise"])
        return end + " " + x + ")"
    return end + " " + s.pick(["zz?", "()", "\"zz?\"", "12", "(zz? true)"]) + ")"


def gen(s):
    name, base = s.pick(_base)
    cs = sx.parse(base)
    i = s.r(0, len(cs))
    lev, out, exp = 0, [], 0
    names = {c.kids[1].text for c in cs if c.head in ("declare-const", "declare-parameterized-const", "define", "step", "assume")
             and len(c.kids) > 1}
    names |= {"true", "false", "Bool", "Type"}
    kind = s.w([(8, "bad"), (4, "unbound"), (2, "paren"), (2, "trunc"), (2, "extra"), (1, "char"), (1, "end"), (4, "tail")])
    after = s.pick(["", "", ")", "(foo)", "zz?", "(", "\"", "(echo \"never\")", "}"])
    n = 0
    density = s.pick([0, 10, 40])
    for j in range(len(cs) + 1):
        if s.p(density):
            t, _ = echo(s, n)
            n += 1
            out.append(t)
        if j == i:
            f = None
            if kind == "bad":
                f = s.pick(BAD)
            elif kind == "unbound":
                # in the next command in which it can be done
                while i < len(cs) and not f:
                    f = unbound(s, cs[i], names)
                    if not f:
                        out.append(cs[i].text)
                        i += 1
                if not f:
                    raise Discard()
            elif kind == "tail":
                if j == len(cs) or not cs[j].kids:
                    raise Discard()
                f = tail(s, cs[j])
            elif kind in ("paren", "trunc", "extra", "char", "end"):
                f = cs[j].text if j < len(cs) else "(echo \"last\")"
                if kind == "paren" and not f.startswith("("):
                    raise Discard()
            out.append(MARK + "\n" + f)
            # the rest follows from command i on
            rest = cs[i:]
            break
        out.append(cs[j].text)
    return name, kind, out, [c.text for c in rest], after


def depth(texts):
    d = 0
    for t in texts:
        for c in sx.parse(t):
            d += (c.head == "assume-push") - (c.head == "step-pop")
    return d


def gen_files(s):
    name, kind, out, rest, after = gen(s)
    fault = out.pop()
    mark, bad = fault.split("\n", 1)
    pre = [c.text for c in sx.parse(PRE)]
    try:
        lev = depth(out)
    except ValueError:
        raise Discard()
    # chain of files from the main one to the one with the fault; commands before the fault are spread over files
    chain = s.w([(4, 0), (3, 1), (2, 2), (1, 3)]) if lev == 0 else 0
    lay = s.p(60)
    cmds = pre + out
    files = {}
    exts = [".eo"] * (chain + 1)
    # cut the commands into the prefixes of the files of the chain
    cuts = sorted(s.r(0, len(cmds)) for _ in range(chain))
    # a file may only be included where no assumption is open
    cuts = [c for c in cuts if depth(cmds[:c]) == 0]
    chain = len(cuts)
    parts = [cmds[a:b] for a, b in zip([0] + cuts, cuts + [len(cmds)])]

    def put(texts, fname):
        """text of these commands; some of them in included files"""
        t = "\n".join(texts) + "\n"
        if s.p(40) and texts:
            try:
                fs = mutate.split(s, t, ".eo", fname + "_m", fname + "_i")
            except ValueError:
                fs = {fname + "_m.eo": t}
            t = fs.pop(fname + "_m.eo")
            for k, v in fs.items():
                files[k] = mutate.layout(s, v) if lay else v
        if lay:
            t = mutate.layout(s, t)
            if not t.endswith("\n"):
                t += "\n"
        return t
    fnames = ["main.eo"] + ["inc%d.eo" % i for i in range(1, chain + 1)]
    texts = [put(p, "f%d" % i) for i, p in enumerate(parts)]
    last = texts[-1] + mark + "\n"
    start = len(last)
    if kind == "trunc":
        k = s.r(1, max(1, len(bad) - 1))
        last += (mutate.layout(s, bad) if lay and "@" not in bad else bad)[:k]
        try:
            sx.parse(last)
            raise Discard()     # not within a command
        except ValueError:
            pass
        lo, hi = start, len(last)
    elif kind == "paren":
        ps = [b for a, b, k in sx.tokens(bad) if k == ")"]
        if not ps:
            raise Discard()
        k = s.pick([ps[-1], s.pick(ps)])
        last += bad[:k - 1] + " " + bad[k:] + "\n" + "\n".join(rest) + "\n"
        lo, hi = start, len(last)
    elif kind == "extra":
        b = mutate.layout(s, bad) if lay else bad
        last += b + s.pick(["", " ", "\n", ";x\n"])
        if not last.endswith("\n") and ";" in b:
            last += "\n"
        lo = len(last)
        last += ")"
        hi = len(last)
        last += "\n" + "\n".join(rest) + "\n" + after
    elif kind == "char":
        ts = [(a, b) for a, b, k in sx.tokens(bad) if k in "()"]
        if not ts:
            raise Discard()
        a = s.pick(ts)[0]
        last += bad[:a]
        lo = len(last)
        last += s.pick(["}", "{", "'", "`", "é", "\\", "[", "\x01", ","]) + bad[a:] + "\n"
        hi = lo + 1
        last += "\n".join(rest) + "\n"
    elif kind == "end":
        # the file ends within a string, a quoted symbol or before anything else
        last += s.pick(["(echo \"a", "(declare-const |a", "\"", "|", "(", "(echo", "(declare-const a ; )", "(echo \"a\"\";)\n"])
        last += s.pick(["", "\n", "\n\n", " ;x"])
        lo, hi = start, len(last)
    else:
        b = bad
        if lay:
            b = mutate.layout(s, bad).rstrip("\r\n") if "\"" not in bad else bad
        last += b
        lo, hi = start, len(last)
        if kind == "unbound":
            # the symbol itself
            lo, hi = [(start + x, start + y) for x, y, k in sx.tokens(b) if b[x:y] == "zz?"][0]
        last += "\n" + "\n".join(rest) + "\n" + after + "\n"
    texts[-1] = last
    ends = {fnames[-1]: start}
    for i in range(chain, -1, -1):
        t = texts[i]
        if i < chain:
            inc = "(include \"%s\")" % fnames[i + 1]
            t += (mutate.layout(s, inc) if lay else inc) + "\n"
            ends[fnames[i]] = len(t)
            t += s.pick(["", "(echo \"never\")\n", ")", "(foo)\n"])
        files[fnames[i]] = t
    return name, kind, files, ends, fnames[-1], (lo, hi), len(out), "main.eo"


# proofs, also from the standard input, and reference files
REFS = """(set-logic ALL)
(check-sat-assuming (a0))
(check-sat-assuming ())
(check-sat)
(set-info :status unsat)
(set-option :produce-proofs true)
(declare-sort U%d 0)
(declare-const c%d Bool)
(declare-fun f%d (Bool Bool) Bool)
(define-fun g%d () Bool (let ((x a0)) x))
(define-fun h%d () Bool true)
(assert a0)
(assert (f0 a0 (f0 a0 a0)))
(assert (let ((x a0)) (f0 x x)))
(assert true)
(define-const k%d Bool a0)
(define-sort S%d () Bool)""".splitlines()
PROOF = """(step s%d true :rule @@chk :args (true))
(declare-const c%d Bool)
(declare-sort U%d 0)
(declare-datatype D%d ((mk%d) (mj%d (sel%d Bool))))
(set-option :produce-proofs true)
(define d%d () (@@not true) :type Bool)
(assume a%d (let ((x true)) (@@not x)))
(push 1)
(push)""".splitlines()
REFBAD = """(check-sat-assuming a0)
(check-sat-assuming)
(check-sat-assuming (zz?))
(check-sat-assuming (a0 zz?))
(check-sat a0)
(get-model)
(get-value (a0))
(define-fun zz! () Bool)
(define-fun zz! ((x Bool)) x)
(define-fun zz! (x Bool) Bool x)
(define-fun zz! ((x Bool)) Bool a0)
(define-sort zz! Bool)
(define-const zz! Bool)
(define-const zz! a0)
(declare-fun zz! (Bool))
(declare-sort zz! -1)
(declare-sort zz! 4294967296)
(declare-sort zz! 99999999999999999999999)
(declare-sort zz! 1.0)
(set-info a)
(set-info :a)
(set-info :a b c)
(assert a0 a0)
(assert (let ((x)) a0))
(assert (let ((zz! a0)) zz? zz!))
(pop 1000)
(push a)
(echo x)
(declare-const zz! zz?)
(assert zz?)
(assert)
(assert Bool)
(foo)
(step zz! true :rule zz?)
(assume zz! true)
(include "main.eo")
(declare-fun)
(declare-fun zz! (zz?) Bool)
(define-fun zz! () zz? true)
(define-fun zz! ((x Bool)) Bool zz?)
(define-fun zz! ((x Bool)) Bool)
(declare-sort zz!)
(declare-sort zz! a)
(declare-sort zz! 00)
(declare-sort zz! 02)
(define-sort zz! () zz?)
(define-sort zz! (X) (X Bool))
(define-sort zz! (X) true)
(define-sort zz! X Bool)
(set-logic)
(set-info)
(set-option :zz)
(assert (not zz?))
(assert (let ((x zz?)) x))
(assert 12a)
true
()
(
)
}
zz?
12""".splitlines()
PROOFBAD = [b for b in BAD] + ["(assert true)"]


def gen_proof(s):
    ref = s.p(40)
    sig = PRE + "(declare-const @@not (-> Bool Bool))\n(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))\n"
    files = {"sig.eo": sig}
    where = "proof.smt3"
    out = []
    pool = REFS if ref else PROOF
    cnt = [0]
    pushes = 0

    def fill(t):
        cnt[0] += 1
        return t % ((cnt[0],) * t.count("%d"))
    if ref:
        out = ["(declare-const a0 Bool)", "(declare-fun f0 (Bool Bool) Bool)"]
    for _ in range(s.r(0, 12)):
        if s.p(30):
            cnt[0] += 1
            out.append(echo(s, cnt[0])[0])
        else:
            out.append(fill(s.pick(pool)))
    bad = s.pick(REFBAD if ref else PROOFBAD)
    kind = "bad"
    head = "(include \"sig.eo\")\n" if not ref else ""
    lay = s.p(60)
    pre = head + "\n".join(out) + "\n"
    if lay:
        pre = mutate.layout(s, pre)
        pre += "" if pre.endswith("\n") else "\n"
    pre += MARK + "\n"
    text = pre + bad + "\n"
    lo, hi = len(pre), len(text) - 1
    if bad == "(":
        kind = "end"
    else:
        text += s.pick(["", "(echo \"never\")\n", ")\n", "(foo)\n", "(assume x! true)\n", "(assert true)"])
    ends = {}
    if ref:
        where = "ref.smt2"
        files[where] = text
        mainn = "p.eo" if s.p(50) else "proof.smt3"
        files[mainn] = "(include \"sig.eo\")\n(echo \"first\")\n(reference \"ref.smt2\")\n"
        ends[mainn] = len(files[mainn])
        files[mainn] += "(echo \"never\")"
        ends[where] = lo
        return "reference", kind, files, ends, where, (lo, hi), len(out), mainn
    files[where] = text
    ends[where] = lo
    return ("proof" if s.p(50) else "stdin"), kind, files, ends, where, (lo, hi), len(out), where


def reads(files, f, ends, stop, seen, acc):
    """strings that echo commands print until the fault"""
    seen.add(f)
    t = files[f][:ends.get(f)]
    for c in sx.parse(t):
        if c.head == "echo":
            x = c.kids[1].text
            acc.append(x[1:-1].replace('""', '"'))
        elif c.head in ("include", "reference"):
            g = c.kids[1].text.strip('"')
            g = g[2:] if g.startswith("./") else g
            if g not in seen:
                if reads(files, g, ends, stop, seen, acc):
                    return True
    return f == stop


WARN = re.compile(r"^[^\n]*:\d+\.\d+: Unhandled attribute [^\n]*\n\n?", re.M)
ERR = re.compile(r"Error: ([^\n]*?):(\d+)\.(\d+): ")


def check(case, env):
    name, kind, files, ends, where, (lo, hi), before, main = case
    if name == "stdin":
        env.put({k: v for k, v in files.items() if k != main})
        r = env.exec([], stdin=files[main].encode("utf-8", "surrogateescape"))
    else:
        r = env.run(files, main)
    key = "\0".join(k + "\0" + v for k, v in sorted(files.items()))
    show = {k: v for k, v in files.items()}

    def bad(msg):
        raise Violation("%s fault in %s (%s): %s\n%s" % (kind, where, name, msg, r.show()), show)
    if r.verdict != "reject":
        bad("was not reported")
    e = r.err.decode(errors="replace")
    m = ERR.search(e)
    text = files[where]
    l0, l1 = text.count("\n", 0, lo) + 1, text.count("\n", 0, max(lo, hi - 1)) + 1
    if kind in ("trunc", "paren", "end"):
        l1 = text.count("\n") + 1
    if not m:
        if kind in ("paren",) and "did not preserve assumption scope" in e and where in e:
            return [(key, False)]
        bad("the message does not say where")
    if m.group(1).lstrip("./") != (where if name != "stdin" else "stream"):
        bad("reported in file %s" % m.group(1))
    if not l0 <= int(m.group(2)) <= l1:
        bad("reported at line %s, expected %d to %d" % (m.group(2), l0, l1))
    want = []
    reads(files, main, ends, where, set(), want)
    want = "".join(x + "\n" for x in want)
    got = WARN.sub("", r.out.decode(errors="surrogateescape"))
    if kind == "extra" or re.match(r"(\s|;[^\n]*\n)*\((\s|;[^\n]*\n)*echo", text[ends[where]:]):
        # the command itself may print something
        ok = got.startswith(want) and "never" not in got
    else:
        ok = got == want
    if not ok:
        bad("echo printed\n%s\nexpected\n%s" % (got[-600:], want[-600:]))
    env.notes[kind] = env.notes.get(kind, 0) + 1
    return [(key, before >= 2 and (len(files) > 1 or "\r" in text or ";" in text))]


PARTS = [Part("faults", gen_files, check, 8000, 200000),
         Part("proofs", gen_proof, check, 3000, 60000)]
