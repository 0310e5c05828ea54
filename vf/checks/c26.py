"""C26: the command line means what the manual says."""
import re
from ..engine import Part, Discard, Violation

ID = "C26"
VARIANTS = ["release", "debug"]
RULE = ("an evaluation is one command line with the outcome, the order of files read and the form of the output predicted by a model; "
        "non-trivial if it has at least three arguments; distinct by arguments, file and channel")
TECHNIQUE = ("model-based property-based testing: random command lines (options and their negations, inclusions, references, files, "
             "requests for help, malformed arguments) over a family of files that echo when they are read and whose verdict depends on "
             "one option each, against a model of the documented interface")
NOTE = "Random search over command lines of up to ten arguments. -t and -v are tried in the release build, where they are errors."
ASSUMPTIONS = ["standard input is no terminal"]

BASE = """(echo "base")
(declare-const Int Type)
(declare-const Real Type)
(declare-consts <numeral> Int)
(declare-consts <decimal> Real)
(declare-consts <rational> Real)
(declare-const BV Type)
(declare-consts <binary> BV)
(declare-consts <hexadecimal> BV)
(declare-parameterized-const @p ((T Type :implicit)) (-> T Bool))
(declare-rule eqr ((T Type) (S Type) (x T) (y S)) :args (x y) :requires (((eo::is_eq x y) true)) :conclusion true)
(declare-rule any ((F Bool)) :args (F) :conclusion F)
(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)
"""
# name -> (text, requires, provides)
FILES = {
    "base.eo": (BASE, [], ["base"]),
    "d/a.eo": ('(echo "a")\n(declare-const A Bool)\n', [], ["A"]),
    "b.smt2": ('(echo "b")\n(define B () (@p A))\n', ["base", "A"], ["B"]),
    "c": ('(echo "c")\n(include "d/a.eo")\n(declare-const C Bool)\n', [], ["C", "A"]),
    "lit.eo": ('(echo "lit")\n(define L () (eo::requires (eo::is_eq 1.5 3/2) false (@p 1.5)) :type Bool)\n(define M () (eo::requires (eo::is_eq #xF #b1111) false (@p 1)) :type Bool)\n', ["base"], ["L"]),
    "bad.eo": ('(echo "bad")\n(define X () undeclared)\n', ["never"], []),
    "open.eo": ('(echo "open")\n(assume-push x true)\n', ["never"], []),
    "sub/nothing.eo": ('(echo "nothing")\n', [], []),
    "exits.eo": ('(echo "exits")\n(declare-const E Bool)\n(exit)\n(define X () undeclared)\n', [], ["E"]),
}
REFS = {
    "r1.smt2": ('(echo "r1")\n(assert A)\n', ["A"], "A"),
    "d/r2": ('(echo "r2")\n(assert true)\n', [], "true"),
    "r3.eo": ('(echo "r3")\n(declare-const R3 Bool)\n(assert R3)\n(assert A)\n(assert false)\n', ["A"], "A"),
    "r4.smt2": ('(echo "r4")\n(assert (@p 1.5))\n(assert (@p #xF))\n(assert (@p 1))\n', ["base"], "lits"),
}
OPTS = ["normalize-num", "normalize-dec", "normalize-hex", "parse-let", "print-dag", "rule-sym-table", "stats", "stats-all", "stats-compact"]
JUNK = ["--foo", "--no-foo", "--stats-", "--Stats", "--normalize", "--no-", "--", "--no-help", "--include", "--reference", "--no-include=base.eo",
        "--stats=true", "-h", "-V", "-", "--no-show-config", "--version", "--no-normalize", "--includes=base.eo", "--nostats", "-stats",
        "--no-no-stats", "missing.smt3", "p.eo/x", "--include=missing.eo", "--reference=missing.smt2", "--include="]


SETS = ["normalize-num", "normalize-dec", "normalize-hex"]


def main_text(kind, inc, sets):
    t = '(echo "main")\n' + "".join('(include "%s")\n' % i for i in inc)
    t += "".join("(set-option :%s %s)\n" % (o, "true" if v else "false") for o, v in sets)
    if kind == "num":
        t += "(step q true :rule eqr :args (1 1/1))\n"
    elif kind == "dec":
        t += "(step q true :rule eqr :args (1.5 3/2))\n"
    elif kind == "hex":
        t += "(step q true :rule eqr :args (#xF #b1111))\n"
    elif kind == "let":
        t += "(step q true :rule any :args ((let ((x true)) x)))\n"
    elif kind == "rst":
        t += "(declare-const any Bool)\n(step q true :rule any :args (true))\n"
    elif kind == "sorry":
        t += "(step q true :rule trust :args (true))\n"
    elif kind == "asmA":
        t += "(assume q A)\n"
    elif kind == "asmT":
        t += "(assume q true)\n"
    elif kind == "asmL":
        t += "(assume q (@p 3/2))\n"
    elif kind == "asmH":
        t += "(assume q (@p #b1111))\n"
    elif kind == "asmN":
        t += "(assume q (@p 1/1))\n"
    elif kind == "ref":
        t += '(reference "r2")\n'
    return t


KINDS = ["plain", "num", "dec", "hex", "let", "rst", "sorry", "asmA", "asmT", "asmL", "asmH", "asmN", "ref"]
NEEDS = {"num": ["base"], "dec": ["base"], "hex": ["base"], "let": ["base"], "rst": ["base"], "sorry": ["base"], "asmA": ["A"], "asmL": ["base"],
         "asmH": ["base"], "asmN": ["base"]}
MAIN = ["p.smt3", "p.eo", "p", "w/p.smt2", "p.eo.x", ".eo", "-p.smt3"]


def gen(s):
    kind = s.pick(KINDS)
    args = []
    rel = {"num": "normalize-num", "dec": "normalize-dec", "hex": "normalize-hex", "let": "parse-let", "rst": "rule-sym-table",
           "asmL": "normalize-dec", "asmH": "normalize-hex", "asmN": "normalize-num"}.get(kind)
    for _ in range(s.r(0, 5)):
        o = rel if rel and s.p(50) else s.pick(OPTS)
        args.append("--" + s.pick(["", "no-"]) + o)
    if s.p(75):
        args.append("--include=base.eo")
    for _ in range(s.w([(4, 0), (4, 1), (2, 2), (1, 3)])):
        args.append("--include=" + s.pick(list(FILES) if s.p(25) else [f for f in FILES if f not in ("bad.eo", "open.eo")]))
    if s.p(40) or kind.startswith("asm") and s.p(60):
        args.append("--reference=" + s.pick(list(REFS)))
        if s.p(8):
            args.append("--reference=" + s.pick(list(REFS)))
    main = s.pick(MAIN)
    chan = s.w([(8, "file"), (2, "stdin")])
    if chan == "file":
        args.append(main)
        if s.p(4):
            args.append(s.pick([main, "base.eo"]))
    else:
        main = None
    if s.p(12):
        args.append(s.pick(JUNK))
    if s.p(6):
        args.append(s.pick(["--help", "--show-config"]))
    if s.p(3):
        args.append(s.pick(["-v", "-t"]))
        if args[-1] == "-t" and s.p(50):
            args.append("state")
    # order is free, mostly
    if s.p(50):
        # inclusions in a sensible order
        first = [a for a in args if a.startswith("--include=") and a in ("--include=base.eo", "--include=d/a.eo")]
        args = s.perm([a for a in args if a not in first])
        for a in first:
            args.insert(s.n(1 + min([i for i, b in enumerate(args) if b.startswith(("--include=", "--reference="))] + [len(args)])), a)
    else:
        args = s.perm(args)
    inc = []
    if s.p(30):
        inc = ["base.eo"] + s.sub(["d/a.eo", "c", "b.smt2"], 0, 2)
    sets = []
    if s.p(35):
        # options set in the main file, of which the last one counts
        for _ in range(s.r(1, 3)):
            sets.append((rel if rel in SETS and s.p(70) else s.pick(SETS), s.p(50)))
    return kind, args, main, chan, inc, s.p(25), sets


class Err(Exception):
    pass


def model(kind, args, chan, inc, main, debug, sets):
    """('help',) or ('error', echoes) or (verdict, echoes, opts)"""
    opts = {"normalize-num": False, "normalize-dec": True, "normalize-hex": True, "parse-let": True, "print-dag": True, "rule-sym-table": True,
            "stats": False, "stats-all": False, "stats-compact": False}
    incs, file, i = [], None, 0
    while i < len(args):
        a = args[i]
        i += 1
        m = re.match(r"--(no-)?(.*)$", a, re.S)
        if m and m.group(2) in opts and not (m.group(1) is None and False):
            opts[m.group(2)] = m.group(1) is None
            if m.group(2) in ("stats-all", "stats-compact") and m.group(1) is None:
                opts["stats"] = True
            continue
        if a.startswith("--include="):
            incs.append((a[10:], True))
        elif a.startswith("--reference="):
            incs.append((a[12:], False))
        elif a in ("--help", "--show-config"):
            return (a,)
        elif a in ("-t", "-v"):
            if not debug:
                return ("error", [])
            raise Discard()
        elif file is None:
            file = a
        else:
            return ("error", [])
    echo, have, seen = [], set(), set()
    ref = None

    def include(f):
        if f not in FILES:
            raise Err()
        if f in seen:
            return
        seen.add(f)
        text, req, prov = FILES[f]
        echo.append(re.match(r'\(echo "(\w+)"', text).group(1))
        if f == "c":
            include("d/a.eo")
        if not set(req) <= have:
            raise Err()
        have.update(prov)

    def put(f, have):
        pass
    try:
        for f, isinc in incs:
            if isinc:
                include(f)
            else:
                if ref is not None:
                    raise Err()
                if f not in REFS:
                    raise Err()
                text, req, what = REFS[f]
                echo.append(re.match(r'\(echo "(\w+)"', text).group(1))
                if not set(req) <= have:
                    raise Err()
                ref = what
        if chan == "file":
            if file is None:
                raise Discard()
            if file != main:
                if file in FILES and not [x for x in args if x == main]:
                    raise Discard()
                raise Err()
        else:
            if file is not None:
                raise Err()
        # the main file
        sig = main is not None and main.endswith(".eo")
        echo.append("main")
        for f in inc:
            include(f)
        if not set(NEEDS.get(kind, [])) <= have:
            raise Err()
        v = "correct"
        # of no effect on the files that were read before
        early = dict(opts)
        opts.update(sets)
        if kind == "num":
            ok = opts["normalize-num"] and not sig
        elif kind == "dec":
            ok = opts["normalize-dec"] and not sig
        elif kind == "hex":
            ok = opts["normalize-hex"] and not sig
        elif kind == "let":
            ok = opts["parse-let"] and not sig
        elif kind == "rst":
            ok = opts["rule-sym-table"]
        elif kind == "sorry":
            ok, v = True, "incomplete"
        elif kind == "asmA":
            ok = ref in (None, "A")
        elif kind == "asmT":
            ok = ref in (None, "true")
        elif kind == "asmL":
            ok = ref is None or ref == "lits" and early["normalize-dec"]
        elif kind == "asmH":
            ok = ref is None or ref == "lits" and (early["normalize-hex"])
        elif kind == "asmN":
            # the rational literal 1/1 in the proof, the numeral 1 in the reference
            ok = ref is None or ref == "lits" and early["normalize-num"]
        elif kind == "ref":
            if ref is not None:
                raise Err()
            echo.append("r2")
            ok = True
        else:
            ok = True
        if not ok:
            raise Err()
        return (v, echo, opts)
    except Err:
        return ("error", echo)


def check(case, env):
    kind, args, main, chan, inc, debug, sets = case
    want = model(kind, args, chan, inc, main, debug, sets)
    pre = ""
    files = {f: t for f, (t, _, _) in FILES.items()}
    files.update({f: t for f, (t, _, _) in REFS.items()})
    up = main is not None and main.startswith("w/")
    text = main_text(kind, ["../" + i for i in inc] if up else inc, sets)
    text = text.replace('"r2"', '"../d/r2"' if up else '"d/r2"')
    # files are relative to the one that includes them
    files["c"] = files["c"]
    if main is not None:
        files[main] = text
    cmd = "ethos " + " ".join(args) + ("" if main else " < stdin")
    env.put(files)
    r = env.exec(args, text.encode() if main is None else None, "debug" if debug else "release")
    out = r.out.decode(errors="replace")
    show = dict(files)
    if main is None:
        show["stdin"] = text
    env.notes[want[0]] = env.notes.get(want[0], 0) + 1
    ls = out.split("\n")
    if want[0] in ("--help", "--show-config"):
        key = "--normalize-num" if want[0] == "--help" else "ethos version"
        if r.rc != 0 or "correct" in ls or "incomplete" in ls or key not in out:
            raise Violation("no %s: %s" % (want[0], r.show()), show, cmd)
    elif want[0] == "error":
        if r.accepted or r.verdict != "reject" or "correct" in ls or "incomplete" in ls:
            raise Violation("this should be an error, but: %s" % r.show(), show, cmd)
        if [l for l in ls if l] != want[1]:
            raise Violation("files read: expected %r: %s" % (want[1], r.show()), show, cmd)
    else:
        v, echo, opts = want
        if r.verdict != v:
            raise Violation("expected %s, but: %s" % (v, r.show()), show, cmd)
        i = ls.index(v)
        if ls[:i] != echo:
            raise Violation("files read: expected %r: %s" % (echo, r.show()), show, cmd)
        rest = "\n".join(ls[i + 1:])
        if opts["stats"]:
            if "mkExprCount" not in rest or ("====" in rest) == opts["stats-compact"]:
                raise Violation("statistics: expected %s: %s" % ("compact ones" if opts["stats-compact"] else "full ones", r.show()), show, cmd)
        elif rest:
            raise Violation("expected nothing after the response: %s" % r.show(), show, cmd)
    return [(repr((kind, args, main, chan, inc, sets)), len(args) >= 3)]


PARTS = [Part("lines", gen, check, 50000, 1000000)]
