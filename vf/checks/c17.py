"""C17: the verdict is independent of build profile, channel, layout, splits
and cosmetic options."""
import re
from ..engine import Part, Discard, Violation
from .. import sx, mutate
from . import c01, c02, c04

ID = "C17"
VARIANTS = ["release", "debug"]
RULE = ("an evaluation is one pair of runs on the same commands whose outcomes (response, echoes, error message without its "
        "location) are compared; non-trivial if the two inputs or command lines differ; distinct by text and variation")
TECHNIQUE = ("metamorphic and differential property-based testing: test-suite files, mutants of them and generated proofs under "
             "random layouts, splits into included files, channels, cosmetic options, and in the debug and release builds")
NOTE = ("Random search. About half of the inputs are rejected, and then the first lines of the errors have to agree as well. "
        "Option commands are compared with command line options for normalization.")
ASSUMPTIONS = ["order of parameters in error messages may vary, so that only their first line is compared"]

COSM = ["--stats", "--stats-all", "--stats-compact", "--no-print-dag", "--no-rule-sym-table"]
LITS = ["1", "0", "1.5", "0.0", "#xF", "#b1", "3/4", "#xff", "2.0", "-3", "-1/2", "01", "1.50", "6/8", "#b1111", "\"a\"", "7.25"]


def setup(bins, tier, seed):
    from ..engine import Env
    e = Env(bins)
    sx.accepted(e)
    e.close()


def rulenames(text):
    cs = sx.parse(text)
    rs = [c.kids[1].text for c in cs if c.head == "declare-rule" and len(c.kids) > 1]
    if len(set(rs)) < len(rs):
        return True
    rs = set(rs)
    os_ = {n.text for c in cs if c.head not in ("declare-rule", "step", "step-pop") for n in c.walk() if n.k in "aq"}
    return rs & os_


def gen(s):
    m = s.n(10)
    base = sx._base
    if m < 6:
        name, text, _ = s.pick(base)
        for _ in range(s.w([(5, 0), (4, 1), (2, 2)])):
            t = mutate.node_mutation(s, text, sx.parse(s.pick(base)[1]) if s.p(30) else None)
            if t is not None:
                text = t
    elif m < 8:
        name = "c01"
        sig, cmds, ok, keys, _ = c01.gen(s)
        text = sig + "".join(cmds)
    else:
        name = "c04"
        sorry, cmds, bad, opts, mode, cut, ex = c04.gen(s)
        texts = [c for c, _ in cmds]
        if bad and bad[1].count("(") == bad[1].count(")") and "|" not in bad[1]:
            texts.insert(bad[0], bad[1])
        text = c04.HEAD + c04.rules(sorry) + "".join(texts)
    if len(text) > 60000:
        raise Discard()
    vs = []
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    heads = {c.head for c in cs}
    ext = s.pick([".eo", ".eo", ".smt3"])
    for _ in range(s.r(2, 4)):
        k = s.pick(["layout", "layout", "debug", "stdin", "options", "split", "again", "both"])
        if k in ("layout", "both"):
            if s.p(30) and len(text) < 12000:
                # whitespace over the ends of buffers (of 32768 bytes)
                vs.append((k, chunky(s, mutate.layout(s, text)), s.sub(COSM[:4], 1, 3)))
                continue
            vs.append((k, mutate.layout(s, text), s.sub(COSM[:4], 1, 3)))
        elif k == "split":
            # included files are signatures
            if ext != ".eo" or heads & {"exit", "reset", "include", "reference"}:
                continue
            vs.append((k, mutate.split(s, text, ext), None))
        elif k == "options":
            vs.append((k, text, s.sub(COSM, 1, 4)))
        else:
            vs.append((k, text, None))
    return name, text, ext, vs


def chunky(s, text):
    """the text with a gap between tokens moved to the end of a buffer: with s.n(4) bytes of the gap before it, and several after it"""
    gaps = [m for m in re.finditer(r'"(?:[^"]|"")*"|\|[^|]*\||;[^\n]*|[ ]', text) if m.group() == " "]
    if not gaps:
        return text
    g = s.pick(gaps).start()
    g0 = len(text[:g].encode("utf-8", "surrogateescape"))
    w = s.n(4)
    k = (g0 + w) // 32768 + 1
    pad = k * 32768 - g0 - w
    c = s.pick([" ", "\n", ";"])
    p = ";" * (pad - 1) + "\n" if c == ";" else c * pad
    gap = " " * w + "".join(s.pick(" \n\t ") for _ in range(s.r(1, 6)))
    return p + text[:g] + gap + text[g + 1:]


def outcome(r, fmap=None, strip_stats=False):
    """(verdict, echoes, error)"""
    if r.verdict == "crash" or r.verdict == "timeout":
        return r.verdict, r.detail, ""
    out = r.out.decode(errors="replace")
    lines = out.split("\n")
    if r.accepted:
        i = max(i for i, l in enumerate(lines) if l == r.verdict)
        lines = lines[:i]
    # warnings carry their location
    lines = [l for l in lines if l and not re.match(r"^\S*:\d+\.\d+: ", l)]
    e = ""
    if r.verdict == "reject":
        if "preserve assumption scope" in r.errmsg():
            return r.verdict, lines, "preserve assumption scope"
        e = r.errmsg().split("\n")
        e = re.sub(r"^Error: (?:[^:]*):(\d+)\.(\d+): ", "Error: ", e[0])
        e = re.sub(r"^Error: (?:stdin|<[^>]*>)?", "Error: ", e)
        e = e.strip()
        # paths
        e = re.sub(r"(/\S*/)+", "", e)
    return r.verdict, lines, e


def scope(e):
    return "preserve assumption scope" in e


def same(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    return a[2] == b[2] or (scope(a[2]) and scope(b[2]))


def check(case, env):
    name, text, ext, vs = case
    main = "p" + ext
    r0 = env.run({main: text}, main, timeout=3)
    o0 = outcome(r0)
    if o0[0] == "timeout":
        raise Discard()         # mutated programs need not terminate
    if o0[0] == "crash":
        raise Violation("ends with %s" % r0.show(), dict(env.have), "ethos " + main)
    env.notes[o0[0]] = env.notes.get(o0[0], 0) + 1
    keys = []
    for k, x, extra in vs:
        env.put({main: text})
        opts, variant, files, stdin = [], "release", {main: text}, None
        o1, what = o0, ""
        if k == "layout":
            files = {main: x}
        elif k == "both":
            files, variant, opts = {main: x}, "debug", extra
        elif k == "debug":
            variant = "debug"
        elif k == "options":
            opts = list(extra)
            if "--no-rule-sym-table" in opts and (rulenames(text)):
                opts.remove("--no-rule-sym-table")
                if not opts:
                    continue
        elif k == "split":
            files = x
        elif k == "stdin":
            # standard input is read as a proof
            if ext == ".eo":
                o1 = outcome(env.run({"p.smt3": text}, "p.smt3"))
            stdin = text.encode("utf-8", "surrogateescape")
            files = {}
        r = env.run(files, main, opts, variant, stdin)
        o = outcome(r)
        if o1[0] == "timeout" or o[0] == "timeout" and "--no-print-dag" in opts:
            # errors may print exponentially large trees
            continue
        env.notes[k] = env.notes.get(k, 0) + 1
        if "--no-print-dag" in opts or "--no-rule-sym-table" in opts:
            a, b = (o[0], o[1]), (o1[0], o1[1])
            ok = a == b
        elif k == "split" and o[0] == o1[0] == "reject":
            ok = o[1] == o1[1] and (o[2] == o1[2] or scope(o[2]) or scope(o1[2]))
        else:
            ok = same(o, o1)
        if not ok:
            show = {"original-" + main: text}
            show.update(files)
            if stdin is not None:
                show["stdin"] = text
            raise Violation("%s: %r without and %r with the variation (%s)" % (k, o1, o, r.show()), show,
                            "ethos %s %s (%s build)" % (" ".join(opts), main if stdin is None else "< stdin", variant))
        keys.append((text + k + str(x) + str(extra), k != "again"))
    if not keys:
        raise Discard()
    return keys


# ----- options on the command line and as commands

def gen_opts(s):
    opts = []
    for o in s.sub(["normalize-num", "normalize-dec", "normalize-hex", "print-dag", "stats", "rule-sym-table"], 1, 4):
        v = s.p(50)
        opts.append((o, v))
        if s.p(20):
            opts.append((o, not v))
    terms = [s.pick(LITS) for _ in range(s.r(2, 6))]
    pairs = [(s.pick(terms), s.pick(LITS)) for _ in range(s.r(1, 6))]
    return opts, pairs, s.n(3), s.p(50)


SIG = """(declare-rule eqr ((T Type) (S Type) (x T) (y S)) :args (x y) :requires (((eo::is_eq x y) true)) :conclusion true)
(declare-rule isz ((T Type) (x T)) :args (x) :requires (((eo::is_z x) true)) :conclusion true)
(declare-rule isq ((T Type) (x T)) :args (x) :requires (((eo::is_q x) true)) :conclusion true)
(declare-rule isb ((T Type) (x T)) :args (x) :requires (((eo::is_bin x) true)) :conclusion true)
"""


def check_opts(case, env):
    opts, pairs, ch, sigfile = case
    cl = ["--" + ("" if v else "no-") + o for o, v in opts]
    cm = "".join("(set-option :%s %s)\n" % (o, "true" if v else "false") for o, v in opts)
    keys = []
    n = 0
    for a, b in pairs:
        n += 1
        for rule, args in (("eqr", a + " " + b), ("isz", a), ("isq", a), ("isb", a)):
            body = "(step @p%d true :rule %s :args (%s))\n" % (n, rule, args)
            pre = '(include "s.eo")\n'
            files = {"s.eo": SIG, "p.smt3": pre + body}
            r1 = env.run(files, "p.smt3", cl)
            t2 = cm + pre + body if sigfile or "rule-sym" in cm else pre + cm + body
            files = {"s.eo": SIG, "p.smt3": t2}
            if ch == 0:
                r2 = env.run(files, "p.smt3")
            elif ch == 1:
                r2 = env.run(files, "p.smt3", (), "release", t2.encode())
            else:
                # the options are set in an included file
                files = {"s.eo": SIG, "o.eo": cm, "p.smt3": '(include "o.eo")\n' + pre + body}
                r2 = env.run(files, "p.smt3")
            o1, o2 = outcome(r1), outcome(r2)
            if o1[0] != o2[0]:
                raise Violation("%s with the options on the command line, but %s with option commands" % (r1.show(), r2.show()),
                                files, "ethos %s p.smt3" % " ".join(cl))
            keys.append((cm + body + str(ch), True))
            env.notes["options " + o1[0]] = env.notes.get("options " + o1[0], 0) + 1
    return keys


PARTS = [Part("variations", gen, check, 10000, 200000),
         Part("options", gen_opts, check_opts, 300, 6000)]
