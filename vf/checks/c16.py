"""C16: no input crashes ethos or is accepted when malformed."""
import os, re
from ..engine import Part, Discard, Violation
from .. import sx, mutate, afl
from . import c01, c02, c04, c14

ID = "C16"
VARIANTS = ["check", "release"]
RULE = ("an evaluation is one run of ethos, built with address and undefined behaviour sanitizers and internal assertions, on one "
        "input; non-trivial if the input was mutated and ethos read at least one command of it (cut files: at least one byte); "
        "distinct by input and options")
TECHNIQUE = ("fuzzing: mutation of test-suite and generated files at the level of terms, tokens and bytes, splices and truncations, with "
             "sanitizers and internal assertions as oracle, and with unbalanced inputs that must not be accepted; the thorough "
             "tier adds coverage-guided fuzzing with AFL++")
NOTE = ("Random search. Runs that exceed the time or memory limit are counted and not judged: mutants can be programs that do not "
        "terminate.")
ASSUMPTIONS = ["running out of memory or stack in programs that do not terminate is not a crash of ethos",
               "malloc/free mismatches of the garbage collector (new and free) are not judged"]


def setup(bins, tier, seed):
    from ..engine import Env
    e = Env({"release": bins["release"]})
    sx.accepted(e)
    e.close()
    if tier == "thorough" and os.environ.get("VF_PART", "coverage") == "coverage":
        t = int(os.environ.get("VF_AFL_SECONDS", 1200))
        words = sorted(set(TOKENS + OPS + CMDS)) + ["(%s " % x for x in CMDS]
        seeds = sorted({t for n, t, v in sx._base if len(t) < 4000 and "include" not in t and "reference" not in t}, key=len)[:150]
        out, st = afl.search(seeds, words, t, seed)
        _afl[:] = out
        _stats.update(st)


_afl, _stats = [], {}


def afl_choices(i):
    if i >= len(_afl):
        return None
    if i:
        _stats.clear()
    b = _afl[i][:30000]
    return [len(b)] + list(b)


def gen_bytes(s):
    return bytes([s.n(256) for _ in range(s.n(30001))])


def check_bytes(b, env):
    files = {"p.eo": b}
    r = env.run(files, "p.eo", [], "check", None, 10)
    if _stats:
        env.notes.update(_stats)
        _stats.clear()
    if not judge(r, env, files, "ethos p.eo"):
        raise Discard()
    m = re.search(r"Error: [^:\n]*:(\d+)\.", r.errmsg())
    return [(b.decode("latin-1"), r.verdict != "reject" or bool(m and int(m.group(1)) > 1))]


def setup_worker(env):
    env.env = dict(env.env)
    env.env["ASAN_OPTIONS"] = env.env["ASAN_OPTIONS"].replace("hard_rss_limit_mb=3500", "hard_rss_limit_mb=1500")


TOKENS = ["(", ")", "()", "((", "))", "_", "as", "eo::as", "!", "let", "Type", "Bool", "true", "false", "0", "1", "-1", "2", "10", "1/2", "1.5", "-0", "#b", "#b1",
          "#b0101", "#x", "#xF", "\"\"", "\"a\"", "\"\\u{41}\"", "||", "|a b|", "eo::self", "eo::conclusion", "eo::List", "eo::List::nil", "eo::List::cons", "->", "x", "y",
          ":implicit", ":opaque", ":list", ":requires", ":type", ":signature", ":args", ":premises", ":premise-list", ":conclusion",
          ":conclusion-explicit", ":assumption", ":rule", ":sorry", ":right-assoc", ":left-assoc", ":right-assoc-nil", ":left-assoc-nil",
          ":right-assoc-nil-non-singleton-nil", ":left-assoc-nil-non-singleton-nil", ":right-assoc-non-singleton-nil", ":left-assoc-non-singleton-nil",
          ":chainable", ":pairwise", ":binder", ":let-binder", ":arg-list", ":var", ":is", ":foo", ":named", ":syntax", ":pattern", ":", "::", "<numeral>", "<decimal>", "<string>",
          "<rational>", "<binary>", "<hexadecimal>", "<foo>", "eo::quote", "eo::pf", "eo::null", "par", ";", "\"", "|", "eo::define", "4294967296", "99999999999999999999"]
CMDS = ["declare-const", "declare-parameterized-const", "declare-consts", "declare-rule", "program", "define", "declare-datatype", "declare-datatypes", "assume",
        "assume-push", "step", "step-pop", "include", "reference", "push", "pop", "reset", "echo", "exit", "set-option", "set-info", "assert", "declare-fun",
        "declare-sort", "define-fun", "define-const", "define-sort", "check-sat", "set-logic", "check-sat-assuming", "declare-oracle-fun", "define-funs-rec"]
OPS = ["eo::is_ok", "eo::ite", "eo::eq", "eo::is_eq", "eo::requires", "eo::hash", "eo::nameof", "eo::typeof", "eo::var", "eo::cmp", "eo::is_z", "eo::is_q",
       "eo::is_bin", "eo::is_bool", "eo::is_str", "eo::is_var", "eo::and", "eo::or", "eo::xor", "eo::not", "eo::add", "eo::mul", "eo::qdiv", "eo::zdiv", "eo::zmod",
       "eo::is_neg", "eo::neg", "eo::gt", "eo::len", "eo::concat", "eo::extract", "eo::find", "eo::to_z", "eo::to_q", "eo::to_bin", "eo::to_str",
       "eo::nil", "eo::cons", "eo::list_concat", "eo::list_len", "eo::list_nth", "eo::list_find", "eo::list_rev", "eo::list_erase",
       "eo::list_erase_all", "eo::list_setof", "eo::list_minclude", "eo::list_meq", "eo::list_diff", "eo::list_inter", "eo::list_singleton_elim",
       "eo::dt_constructors", "eo::dt_selectors"]
BYTES = [0, 1, 9, 10, 13, 32, 34, 40, 41, 58, 59, 35, 45, 92, 124, 127, 128, 200, 255, 46, 47, 48, 57]
OPTS = ["--normalize-num", "--no-normalize-dec", "--no-normalize-hex", "--no-parse-let", "--no-print-dag", "--no-rule-sym-table", "--stats", "--stats-all", "--stats-compact"]
HUGE = re.compile(r"\d{6,}")


def base(s):
    m = s.n(12)
    if m < 9:
        return s.pick(sx._base)[1]
    if m == 9:
        sig, cmds, ok, keys, _ = c01.gen(s)
        return sig + "".join(cmds)
    if m == 10:
        sorry, cmds, bad, opts, mode, cut, ex = c04.gen(s)
        return c04.HEAD + c04.rules(sorry) + "".join(c for c, _ in cmds)
    lines, b, _ = c14.gen(s)
    return c14.HEAD + c14.CHK + "".join(l + "\n" for l, _ in lines[:40]) + (b or "")


def tok(s):
    if s.p(5):
        # nearly a literal
        k = s.r(1, 4)
        return s.pick(["", "", "-", "#b", "#x", "0"]) + "".join(s.pick("01/.09af-") for _ in range(k)) + s.pick(["", "", "0", "00", "/0", "/00", "/000", ".0", ".", "/", "/1"])
    return s.pick(s.pick([TOKENS, TOKENS, CMDS, OPS]))


def token_mutation(s, text):
    ts = [t for t in sx.tokens(text) if t[2] not in "wc"]
    if not ts:
        return None
    a, b, k = s.pick(ts)
    m = s.n(8)
    if m == 0:
        return text[:a] + text[b:]
    if m == 1:
        return text[:a] + tok(s) + text[b:]
    if m == 2:
        return text[:a] + tok(s) + " " + text[a:]
    if m == 3:
        c, d, _ = s.pick(ts)
        return text[:a] + text[c:d] + text[b:]
    if m == 4:
        # another operator or command
        hs = [t for t, u in zip(ts[1:], ts) if text[u[0]:u[1]] == "("]
        if not hs:
            return None
        a, b, _ = s.pick(hs)
        return text[:a] + (s.pick(OPS) if s.p(50) else s.pick(CMDS)) + text[b:]
    if m == 5:
        ks = [t for t in ts if text[t[0]] == ":"]
        if not ks:
            return None
        a, b, _ = s.pick(ks)
        return text[:a] + s.pick([x for x in TOKENS if x[0] == ":"]) + text[b:]
    if m == 6:
        # an evaluation around a term
        return text[:a] + "(%s %s)" % (s.pick(OPS), text[a:b]) + text[b:]
    # insert an application or a command
    x = "(%s %s)" % (tok(s), " ".join(text[c:d] for c, d, _ in [s.pick(ts) for _ in range(s.r(0, 4))]))
    return text[:b] + " " + x + text[b:]


def byte_mutation(s, text):
    b = bytearray(text)
    if not b:
        return bytes(b)
    m = s.n(7)
    i = s.n(len(b))
    if m == 0:
        b[i] = s.pick(BYTES) if s.p(70) else s.n(256)
    elif m == 1:
        b[i:i] = bytes([s.pick(BYTES)]) * s.w([(6, 1), (2, 3), (1, 1500)])
    elif m == 2:
        del b[i:i + s.w([(5, 1), (3, 5), (1, 100)])]
    elif m == 3:
        del b[i:]
    elif m == 4:
        j = s.n(len(b))
        b[i:i] = b[j:j + s.r(1, 60)]
    elif m == 5:
        b[i] ^= 1 << s.n(8)
    else:
        o = sx._base[s.n(len(sx._base))][1].encode("utf-8", "surrogateescape")
        b[i:] = o[s.n(len(o) + 1):]
    return bytes(b)


def gen(s):
    t = base(s)
    if len(t) > 30000:
        raise Discard()
    o = None
    for _ in range(s.w([(6, 1), (4, 2), (2, 3), (1, 6), (1, 12)])):
        m = s.n(10)
        try:
            if m < 5:
                if o is None and s.p(30):
                    o = sx.parse(s.pick(sx._base)[1])
                x = mutate.node_mutation(s, t, o)
            elif m < 9:
                x = token_mutation(s, t)
            else:
                x = None
        except (ValueError, IndexError):
            x = None
        if x is None:
            try:
                x = token_mutation(s, t)
            except ValueError:
                break
        if x is not None and len(x) < 40000:
            t = x
    t = t.encode("utf-8", "surrogateescape")
    if s.p(15):
        for _ in range(s.r(1, 4)):
            t = byte_mutation(s, t)
    mode = s.pick(["eo", "eo", "eo", "smt3", "stdin", "ref"])
    return t, mode, s.sub(OPTS, 1, 3) if s.p(30) else []


LOC = re.compile(r"Error: [^\n]*:\d+\.\d+: |Error: ")


def judge(r, env, files, cmd):
    """violations of a run; true if it is to be counted"""
    e = r.err
    if r.verdict == "timeout":
        env.notes["time limit"] = env.notes.get("time limit", 0) + 1
        return False
    if b"stack-overflow" in e:
        env.notes["stack limit"] = env.notes.get("stack limit", 0) + 1
        return False
    if b"rss limit" in e or b"allocation-size-too-big" in e or b"out-of-memory" in e or b"out of memory" in e or b"bad_alloc" in e or \
            b"GNU MP: Cannot allocate" in e or b"gmp: overflow in mpz type" in e or b"length_error" in e:
        env.notes["memory limit"] = env.notes.get("memory limit", 0) + 1
        return False
    if r.verdict == "crash" or r.verdict == "none":
        m = re.search(rb"SUMMARY: [^\n]*|runtime error: [^\n]*|Check failure[^\n]*\n[^\n]*\n[^\n]*|Unreachable[^\n]*", e)
        raise Violation("%s\n%s" % ((m.group(0) if m else b"").decode(errors="replace"), r.show()), files, cmd)
    if r.verdict == "reject":
        if not re.search(r"Error: |error:|Couldn't open|^[^\n]+\n[^\n]*\w", e.decode(errors="replace")):
            raise Violation("rejected without an error message: %s" % r.show(), files, cmd)
        if r.detail == "response printed" and not any(b"echo" in (v if isinstance(v, bytes) else v.encode("utf-8", "replace")) for v in files.values()):
            raise Violation("response and error: %s" % r.show(), files, cmd)
    env.notes[r.verdict] = env.notes.get(r.verdict, 0) + 1
    return True


def check(case, env):
    t, mode, opts = case
    files = {"helper.eo": "(declare-const helper Bool)\n"}
    if mode == "stdin":
        r = env.run(files, None, opts, "check", t, 10)
        files["in"] = t
        cmd = "ethos %s < in" % " ".join(opts)
    elif mode == "ref":
        files["r.smt2"] = t
        files["p.smt3"] = "(assume a true)\n(declare-const zz Bool)\n(assume b zz)\n"
        cmd = "ethos %s --reference=r.smt2 p.smt3" % " ".join(opts)
        r = env.run(files, "p.smt3", opts + ["--reference=r.smt2"], "check", None, 10)
    else:
        n = "p." + mode
        files[n] = t
        cmd = "ethos %s %s" % (" ".join(opts), n)
        r = env.run(files, n, opts, "check", None, 10)
    if not judge(r, env, files, cmd):
        raise Discard()
    m = re.search(r"Error: [^:\n]*:(\d+)\.", r.errmsg())
    nt = r.verdict != "reject" or (m and int(m.group(1)) > 1)
    return [(t.decode("latin-1") + mode + " ".join(opts), bool(nt))]


# ----- unbalanced files are not accepted

def gen_cut(s):
    name, text, v = s.pick(sx._base)
    if s.p(30):
        text = base(s)
    m = s.n(8)
    try:
        cs = sx.parse(text)
    except ValueError:
        raise Discard()
    if not cs or any(c.head in ("exit", "reset") for c in cs):
        raise Discard()
    ps = [(a, b) for a, b, k in sx.tokens(text) if k in "()"]
    if m < 4:
        # cut inside a command
        c = cs[-1] if s.p(40) else s.pick(cs)
        t = text[:s.r(c.a + 1, c.b - 1)]
        if s.p(20):
            t += s.pick(["\n", " ", " ; )", "; )\n", "\t"])
            if t.rstrip("\n\t ").endswith(")") and t.count("(") == t.count(")"):
                raise Discard()
    elif m == 4:
        a, b = s.pick(ps)
        t = text[:a] + text[b:]
    elif m == 5:
        c = s.pick(cs + [cs[-1]])
        i = c.b if s.p(50) else c.a
        t = text[:i] + s.pick([")", "(", "\"", "|", "(a", "x", "1", ":k", "\"a\"", "|a|", "#b1", "(\n", " ) "]) + text[i:]
        if "\"" in t[i:i + 2] and t[i + 1] != "a" or t[i] == "|" and t[i + 1] != "a":
            if text[i:].count(t[i]) % 2:
                raise Discard()
    elif m == 6:
        c = s.pick(cs)
        a, b = s.pick(ps)
        t = text[:a] + (")" if text[a] == "(" else "(") + text[b:]
    else:
        # cut and spliced with the rest of another file
        c = s.pick(cs)
        t = text[:s.r(c.a + 1, c.b - 1)] + "\n" + s.pick(sx._base)[1]
        try:
            sx.parse(t)
            raise Discard()
        except ValueError:
            pass
        if "(exit" in t or "(reset" in t:
            raise Discard()
    return name, t, s.pick(["p.eo", "p.eo", "stdin", "inc"])


def balanced(t):
    d = 0
    try:
        toks = list(sx.tokens(t))
    except ValueError:
        return False
    for a, b, k in toks:
        if k == "(":
            d += 1
        elif k == ")":
            d -= 1
            if d < 0:
                return False
        elif k not in "wc" and d == 0:
            return False
    return d == 0


def check_cut(case, env):
    name, t, mode = case
    if balanced(t):
        raise Discard()
    if mode == "stdin":
        r = env.run({}, None, (), "check", t.encode("utf-8", "surrogateescape"), 10)
        files = {"in": t}
        cmd = "ethos < in"
    elif mode == "inc":
        files = {"p.eo": t, "main.eo": '(include "p.eo")\n(echo "x")\n'}
        r = env.run(files, "main.eo", (), "check", None, 10)
        cmd = "ethos main.eo"
    else:
        files = {"p.eo": t}
        r = env.run(files, "p.eo", (), "check", None, 10)
        cmd = "ethos p.eo"
    if not judge(r, env, files, cmd):
        raise Discard()
    if r.verdict != "reject":
        raise Violation("a file that ends inside a command or is not balanced is accepted: " + r.show(), files, cmd)
    return [(t + mode, True)]


# ----- what is no token is not accepted

NOTOK = ["#b", "#x", "#", "#o7", "#b2", "#xg", "#B1", "#X1", "1.", "1/", "1./2", "1/.2", "1. 5", ": ", ":", ":1", "::", ":(", "'", "`", ",", "[", "]", "{", "}", "\\",
         "\0", "\1", "\x08", "\x0b", "\x0c", "\x1f", "\x7f", "\x80", "\xc3\xa9", "\xff", "\ufeff", "|a\0|", "|\0|", "|ab\0cd|", "\"\0\"", "\"a\0\"",
         "\"ab\0c\"\"d\"", "a\0", "a\0b", "a\\b", "a'", "1\0", "#b1\0", ":a\0", "-\0", "a[", "1a\\", "x,y", "1/0", "1/00", "-7/000", "00/0000", "0/000000"]


def gen_tok(s):
    name, text, v = s.pick(sx._base)
    if s.p(30):
        text = "(declare-const a Bool)\n" * s.r(1, 3)
    try:
        cs = sx.parse(text)
        tk = [(a, b) for a, b, k in sx.tokens(text) if k not in "wc"]
    except ValueError:
        raise Discard()
    if not cs or any(c.head in ("exit", "reset") for c in cs):
        raise Discard()
    m = s.n(3)
    x = s.pick(NOTOK)
    if m == 0:
        # instead of a token
        a, b = s.pick(tk)
        if text[a] in "()":
            b = a
        t = text[:a] + " " + x + " " + text[b:]
    elif m == 1:
        # the name in a declaration at the end
        t = text + "\n" + s.pick(["(declare-const %s Bool)\n", "(define %s () true)\n", "(echo %s)\n", "(assume %s true)", "(include %s)\n",
                                  "(declare-datatype %s ((zz)))", "(declare-const zz (-> Bool %s))", "(set-option %s true)", "(set-info %s)",
                                  "(declare-rule %s () :conclusion true)", "(define zz () %s)", "(step zz :rule %s)", "%s", "(push %s)"]) % x
    else:
        a, b = s.pick(tk)
        t = text[:a] + " " + x + " " + text[a:]
    return name, t.encode("latin-1" if max(t) < "\u0100" else "utf-8"), s.pick(["p.eo", "p.eo", "stdin", "inc"]), x


def check_tok(case, env):
    name, t, mode, x = case
    if mode == "stdin":
        files = {"in": t}
        r = env.run({}, None, (), "check", t, 10)
        cmd = "ethos < in"
    elif mode == "inc":
        files = {"p.eo": t, "main.eo": '(include "p.eo")\n(echo "x")\n'}
        r = env.run(files, "main.eo", (), "check", None, 10)
        cmd = "ethos main.eo"
    else:
        files = {"p.eo": t}
        r = env.run(files, "p.eo", (), "check", None, 10)
        cmd = "ethos p.eo"
    if not judge(r, env, files, cmd):
        raise Discard()
    if r.verdict != "reject":
        raise Violation("a file with %r, which is no token, is accepted: %s" % (x, r.show()), files, cmd)
    return [(t.decode("latin-1") + mode, True)]


# ----- command lines and files

def gen_cli(s):
    args = []
    files = {"ok.eo": "(declare-const a Bool)\n(echo \"ok\")\n", "ok.smt3": "(assume p true)\n",
             "empty.eo": "", "bad.eo": "(declare-const", "ref.smt2": "(assert true)\n"}
    for _ in range(s.n(5)):
        args.append(s.pick(OPTS + ["--include=ok.eo", "--include=none.eo", "--include=", "--include=bad.eo", "--reference=ref.smt2", "--reference=none",
                                   "--reference=", "--foo", "--no-foo", "--", "-", "-x", "--include", "--reference", "--no-stats", "--parse-let",
                                   "--include=.", "--reference=.", "--stats=1", "--print-dag", "--=", "--include=ok.eo=", "--no-normalize-num"]))
    m = s.n(8)
    if m == 0:
        main = None
    else:
        main = s.pick(["ok.eo", "ok.smt3", "empty.eo", "none.eo", "bad.eo", "w.eo", "w.smt3", ".", "x" * 300 + ".eo", "sub/none.eo", "ok.eo/x", ""])
    w = []
    for _ in range(s.r(0, 5)):
        w.append(s.pick(['(include "ok.eo")', '(include "none.eo")', '(include "w.eo")', '(include ".")', '(include "")', '(include ok.eo)', "(include)",
                         '(include "bad.eo")', '(include "ok.eo" 1)', '(reference "ref.smt2")', '(reference "none")', '(reference "")', "(reference)",
                         '(reference "ref.smt2" x)', '(reference "ref.smt2" id)', "(push)", "(pop)", "(push 2)", "(pop 2)", "(pop 99999)", "(push -1)", "(reset)", "(exit)",
                         "(set-option :foo true)", "(set-option :normalize-num 3)", "(set-option)", "(set-option :print-dag false)", "(set-info :a)",
                         "(set-info :a b c)", "(set-info)", "(echo)", '(echo "a" "b")', "(echo a)", "()", "(foo)", "(declare-sort S 0)", "(declare-sort S -1)",
                         "(declare-sort T 2)", "(declare-sort S)", "(declare-const f (->))", "(declare-const f (-> Bool))", "(program p)",
                         "(define-fun f () Bool true)", "(declare-fun f () Bool)", "(declare-datatypes ((A -1)) (((a))))", "(push 18446744073709551616)",
                         "(step a true :rule x)", "(assume a)", "(step-pop a true :rule x)", "(assume-push a true)", "(define eo::x () true)", "(declare-const eo::add Bool)",
                         "(declare-const |a\nb| Bool)", "(declare-consts <numeral> Bool)", "(declare-consts <foo> Bool)", "(declare-consts numeral Bool)",
                         "(declare-consts <numeral> (eo::requires (eo::typeof eo::self) Bool Bool)) (define x () 1 :type Bool)",
                         "(declare-consts <binary> (eo::len eo::self))", "(define y () #b1 :type Bool)", "(define y () (eo::typeof #b1))"]))
    files["w.eo"] = files["w.smt3"] = "\n".join(w) + "\n"
    stdin = None
    if main is None:
        stdin = s.pick([files["w.eo"], "", "(", ")", "(echo \"a\")", "\0", "(exit)", "\xff\xfe"]).encode("latin-1")
    return args, files, main, stdin


def check_cli(case, env):
    args, files, main, stdin = case
    a = args + ([main] if main is not None else [])
    cmd = "ethos " + " ".join("'%s'" % x for x in a)
    if stdin is not None:
        files = dict(files)
        files["in"] = stdin
        cmd += " < in"
    env.put(files)
    r = env.exec(a, stdin if stdin is not None else b"", "check", 10)
    if r.verdict == "none" and b"sage" in r.out + r.err:
        return [(cmd, True)]
    if r.rc is not None and r.rc > 0 and r.rc != 99 and not (b"Sanitizer" in r.err or b"runtime error" in r.err):
        return [(cmd, True)]
    if b"stack-overflow" in r.err:
        raise Violation("stack overflow: " + r.show(), files, cmd)
    if not judge(r, env, files, cmd):
        raise Discard()
    return [(cmd + files["w.eo"], True)]


# ----- random evaluations over the symbols of a file

LITS = ["0", "1", "-1", "2", "3", "7", "1/2", "-3/4", "1.5", "(eo::to_bin 0 0)", "#b1", "#b0", "#b0101", "#xF", "#xa0", "\"\"", "\"a\"", "\"ab\"", "\"\\u{41}\"", "true",
        "false", "eo::List::nil", "eo::List", "Bool", "Type", "32", "33", "65", "100", "196608", "4294967296", "-4294967297"]


ARITY = {"eo::" + k: n for n, l in {2: "eq is_eq var cmp and or xor add mul qdiv zdiv zmod gt concat find to_bin list_len nil list_rev list_setof "
                                    "list_singleton_elim",
                                    3: "ite requires extract list_concat cons list_nth list_find list_erase list_erase_all list_minclude list_meq list_diff "
                                    "list_inter"}.items() for k in l.split()}


def names(text):
    """(terms, programs) declared at the top level"""
    cs = sx.parse(text)
    ts, ps = [], []
    for c in cs:
        if c.head in ("pop", "reset", "include", "reference", "exit", "declare-consts") or ":binder" in c.text or ":let-binder" in c.text:
            return None
        if c.head in ("declare-const", "declare-parameterized-const", "define") and len(c.kids) > 2:
            ts.append(c.kids[1].text)
        elif c.head == "program" and len(c.kids) > 2:
            ps.append((c.kids[1].text, 1))
    return ts, ps


def rnd(s, ts, ps, depth):
    m = s.n(10)
    if depth <= 0 or m < 2:
        return s.pick(ts) if ts and s.p(60) else s.pick(LITS)
    if m < 6:
        op = s.pick(OPS)
        n = ARITY.get(op, 1) if s.p(97) else s.r(1, 4)
        xs = [rnd(s, ts, ps, depth - 1) for _ in range(n)]
        if n and "list" in op or op in ("eo::cons", "eo::nil"):
            if ts and s.p(70):
                xs[:1] = [s.pick(ts)]
        return "(%s %s)" % (op, " ".join(xs)) if s.p(99) else op
    if m < 8 and ts:
        xs = [rnd(s, ts, ps, depth - 1) for _ in range(s.w([(3, 1), (4, 2), (2, 3), (1, 4)]))]
        return "(%s %s)" % (s.pick(ts), " ".join(xs))
    if m == 8 and ps:
        return "(%s %s)" % (s.pick(ps)[0], " ".join(rnd(s, ts, ps, depth - 1) for _ in range(s.r(1, 3))))
    if ts and s.p(70):
        return "(_ %s %s)" % (rnd(s, ts, ps, depth - 1), rnd(s, ts, ps, depth - 1))
    return "(%s %s %s)" % (s.pick(["as", "as", "eo::as"]), s.pick(ts) if ts else "x", rnd(s, ts, ps, depth - 1)) if s.p(20) else s.pick(LITS)


def gen_eval(s):
    nm, text, v = s.pick(sx._base)
    if v not in ("correct", "incomplete") or len(text) > 15000:
        raise Discard()
    try:
        ns = names(text)
    except ValueError:
        raise Discard()
    if ns is None:
        raise Discard()
    ts, ps = ns
    out = []
    if s.p(40):
        for i in range(s.r(1, 3)):
            # nothing recursive, so that everything terminates
            pr = ["x", "y", "z"]
            pt = [s.pick(["Bool", "T", "T"] + ["U1"] * 2) for _ in pr]
            n = s.r(1, 3)
            pool = ["x", "y", "z"] + ts[:20]
            cases = []
            for _ in range(s.r(1, 3)):
                pats = [rndpat(s, pool, s.n(3)) for _ in range(n)]
                vs = [w for w in "xyz" if w in re.findall(r"[^\s()]+", " ".join(pats))]
                cases.append("((ff%d %s) %s)" % (i, " ".join(pats), rnd(s, vs + vs + ts[:20], ps, s.n(4))))
            out.append("(program ff%d ((T Type) (U1 Type) (x %s) (y %s%s) (z %s)) :signature (%s) %s (%s))\n" % (
                i, pt[0], pt[1], s.pick(["", "", " :list"]), pt[2], " ".join(s.pick(["Bool", "T", "U1"]) for _ in range(n)), s.pick(["Bool", "T"]),
                " ".join(cases)))
    ps = [] if s.p(60) else ps
    fs = [("ff%d" % i, 1) for i in range(len(out))]
    for i in range(s.r(3, 25)):
        t = rnd(s, ts, ps + fs * 3, s.r(1, 4))
        m = s.n(40)
        if m < 34:
            out.append("(define zz%d () %s)\n" % (i, t))
            ts = ts + ["zz%d" % i]
        elif m < 37:
            out.append("(define zz%d ((x Bool) (T Type) (y T)) %s)\n" % (i, rnd(s, ["x", "y", "x", "y"] + ts, ps, 3)))
        elif m < 39:
            out.append("(declare-rule zr%d ((x Bool) (T Type) (y T)) :args (x y) :requires ((%s %s)) :conclusion %s)\n" % (
                i, rnd(s, ["x", "y"] + ts, ps, 2), rnd(s, ["x", "y"] + ts, ps, 2), rnd(s, ["x"], ps, 1)))
        else:
            out.append("(declare-const zz%d %s)\n" % (i, rnd(s, ts, ps, 2) if s.p(20) else "Bool"))
    out.append("(%s)\n" % s.pick(["step last true :rule foo", "define last () %s :type %s" % (rnd(s, ts, ps, 3), rnd(s, ts, ps, 1)),
                                  "assume last %s" % rnd(s, ts, ps, 3), "echo \"x\""]))
    return text, "".join(out), s.pick(["p.eo", "p.eo", "p.smt3"]), s.sub(OPTS, 1, 2) if s.p(20) else []


def rndpat(s, pool, depth):
    if depth <= 0 or s.p(40):
        return s.pick(pool) if s.p(70) else s.pick(LITS)
    return "(%s %s)" % (s.pick(pool[3:] or ["eo::List::cons"]), " ".join(rndpat(s, pool, depth - 1) for _ in range(s.r(1, 3))))


def check_eval(case, env):
    text, more, main, opts = case
    if main == "p.smt3":
        files = {"s.eo": text, "p.smt3": '(include "s.eo")\n' + more}
    else:
        files = {"p.eo": text + "\n" + more}
    cmd = "ethos %s %s" % (" ".join(opts), main)
    r = env.run(files, main, opts, "check", None, 10)
    if not judge(r, env, files, cmd):
        raise Discard()
    m = re.search(r"Error: [^:\n]*:(\d+)\.", r.errmsg())
    n = text.count("\n") + 1 if main == "p.eo" else 1
    nt = r.verdict != "reject" or (m and int(m.group(1)) > n + 1)
    k = "evals " + r.verdict
    env.notes[k] = env.notes.get(k, 0) + 1
    if m:
        env.notes["evals commands before the error"] = env.notes.get("evals commands before the error", 0) + max(0, int(m.group(1)) - n - 1)
    return [(text + more + main, bool(nt))]


PARTS = [Part("mutants", gen, check, 7000, 400000),
         Part("unbalanced", gen_cut, check_cut, 3500, 100000),
         Part("tokens", gen_tok, check_tok, 2500, 60000),
         Part("evaluations", gen_eval, check_eval, 5000, 300000),
         Part("commandline", gen_cli, check_cli, 2000, 40000),
         # every input that AFL++ kept
         Part("coverage", gen_bytes, check_bytes, 0, 10000000, afl_choices)]
