"""C18: each file is included once, relative to the including file."""
import os, re
from ..engine import Part, Discard, Violation

ID = "C18"
VARIANTS = ["release"]
RULE = ("an evaluation is one run of ethos on a directory tree of files that include each other; non-trivial if some file is "
        "included twice or a relative path leaves the working directory; distinct by tree and spelling of the paths")
TECHNIQUE = ("model-based property-based testing: random include graphs (with cycles) over random directory trees with files of the same "
             "name in several directories and symbolic links, where paths are spelled at random, against a model that computes the "
             "sequence of echoes, the verdict and the location of the error")
NOTE = ("Random search over up to 7 directories and 9 files. Paths go up only through directories whose symbolic links are siblings, "
        "as ethos simplifies '..' without looking at links.")
ASSUMPTIONS = ["files that appear or change while ethos runs are out of scope"]

NAMES = ["a.eo", "b.eo", "c.eo", "a.smt3", "sig", "x y.eo"]
DIRS = ["", "d", "e", "d/d", "d/e", "e/d", "d/d/f"]


class Tree:
    pass


def spell(s, t, frm, to, name):
    """a path to the file name in directory to, for a file in directory frm"""
    f = frm.split("/") if frm else []
    d = to.split("/") if to else []
    if s.p(20):
        parts = ["ROOT"] + d
        cur = 0
        pre = "/"
    else:
        common = 0
        while common < len(f) and common < len(d) and f[common] == d[common]:
            common += 1
        ups = s.r(len(f) - common, len(f) + 1) if s.p(30) else len(f) - common
        parts = [".."] * ups
        if ups > len(f):
            parts += ["TOP"] + d
        else:
            parts += d[len(f) - ups:]
        pre = ""
    # spell directories as links, add detours
    out = []
    pos = list(f)
    first = True
    for p in parts:
        if p == "ROOT":
            out.append(p)
            pos = []
            continue
        if s.p(10):
            out.append(".")
        if pos is not None and pos != ["^"] and s.p(12):
            here = "/".join(pos)
            subs = [x for x in t.dirs if x and x.rpartition("/")[0] == here]
            if subs:
                x = s.pick(subs).rpartition("/")[2]
                out += [x, ".."]
        if p == "..":
            out.append(p)
            pos = pos[:-1] if pos else ["^"]
            continue
        if p == "TOP":
            out.append(p)
            pos = []
            continue
        q = "/".join(pos + [p])
        pos.append(p)
        if q in t.dlinks and s.p(40):
            p = t.dlinks[q]
        out.append(p)
    if s.p(10):
        out.append(".")
    if (to, name) in t.flinks and s.p(40):
        name = t.flinks[to, name]
    out.append(name)
    r = ""
    for i, p in enumerate(out):
        r += p
        if i < len(out) - 1:
            r += "/" * s.w([(12, 1), (1, 2), (1, 3)])
    return pre + r


def gen(s):
    t = Tree()
    t.dirs = [""] + sorted(s.sub(DIRS[1:], 0, 5))
    t.dirs = [d for d in t.dirs if all(p in t.dirs for p in ["/".join(d.split("/")[:i]) for i in range(1, d.count("/") + 1)])]
    t.dlinks = {d: "L" + d.rpartition("/")[2] for d in t.dirs if d and s.p(20)}
    names = s.sub(NAMES, 1, 4)
    t.files = []
    for _ in range(s.r(2, 9)):
        f = (s.pick(t.dirs), s.pick(names))
        if f not in t.files:
            t.files.append(f)
    t.flinks = {f: "l-" + f[1] for f in t.files if s.p(15)}
    n = len(t.files)
    t.items = []
    t.refs = {}
    for i, (d, nm) in enumerate(t.files):
        its = [("decl", i)] if s.p(70) else []
        for _ in range(s.r(0, 6)):
            m = s.n(20)
            if m < 13:
                j = s.n(n)
                its.append(("inc", j, spell(s, t, d, *t.files[j])))
            elif m < 16:
                its.append(("use", s.n(n)))
            elif m == 16 and s.p(30):
                # a file that does not exist there
                miss = [(x, y) for x in t.dirs for y in names if (x, y) not in t.files]
                if miss:
                    its.append(("miss", spell(s, t, d, *s.pick(miss))))
            elif m == 17 and s.p(20):
                its.append(("err",))
            elif m == 18 and s.p(20):
                its.append(("dir", spell(s, t, d, s.pick(t.dirs), ".")))
            its.append(("echo",))
        t.items.append(its)
    # declare before use, mostly
    t.main = s.n(n)
    t.cwd = s.pick(t.dirs)
    t.stdin = s.p(10)
    t.mainspell = spell(s, t, t.cwd, *t.files[t.main])
    t.opts = []
    for _ in range(s.w([(6, 0), (2, 1), (1, 2)])):
        j = s.n(n)
        t.opts.append((j, spell(s, t, t.cwd, *t.files[j])))
    if s.p(25):
        # a reference to one of several files of the same name
        t.rdirs = s.sub(t.dirs, 1)
        k = s.n(len(t.rdirs))
        how = s.n(2)
        md = t.cwd if t.stdin or how else t.files[t.main][0]
        t.ref = (k, spell(s, t, md, t.rdirs[k], "r.smt2"), how, k if s.p(70) else s.n(len(t.rdirs)))
    else:
        t.rdirs, t.ref = [], None
    t.tree = s.pick([1, 1, 2])
    return t


def build(t, root, top):
    """the texts of the files, with markers"""
    def real(p):
        return p.replace("/ROOT", root, 1).replace("TOP", top)
    files, lines = {}, []
    for i, (d, nm) in enumerate(t.files):
        out = []
        ln = 0
        for j, it in enumerate(t.items[i]):
            if it[0] == "echo":
                out.append('(echo "e%d-%d")' % (i, j))
            elif it[0] == "decl":
                out.append("(declare-const k%d Bool)" % i)
            elif it[0] == "inc":
                out.append('(include "%s")' % real(it[2]))
            elif it[0] == "use":
                out.append("(define u%d-%d () k%d)" % (i, j, it[1]))
            elif it[0] in ("miss", "dir"):
                out.append('(include "%s")' % real(it[1]))
            elif it[0] == "err":
                out.append("(declare-const zz Boool)")
        if i == t.main and t.ref and not t.ref[2]:
            out.append('(reference "%s")' % real(t.ref[1]))
        if i == t.main and t.ref:
            out.append("(assume as r%d)" % t.ref[3])
        files[d, nm] = "\n".join(out) + "\n"
    for k, d in enumerate(t.rdirs):
        files[d, "r.smt2"] = "(declare-const r%d Bool)\n(assert r%d)\n" % (k, k)
    return files, real


class Err(Exception):
    pass


def model(t):
    echoes, seen, declared = [], set(), set()
    st = {"again": False, "depth": 0}

    def run(i, stdin=False):
        if not stdin:
            if i in seen:
                st["again"] = True
                return
            seen.add(i)
        j = 0
        for j, it in enumerate(t.items[i]):
            if it[0] == "echo":
                echoes.append("e%d-%d" % (i, j))
            elif it[0] == "decl":
                declared.add(i)
            elif it[0] == "inc":
                if it[2].startswith(".."):
                    st["depth"] += 1
                run(it[1])
            elif it[0] == "use":
                if it[1] not in declared:
                    raise Err(i, j + 1)
            elif it[0] in ("miss", "dir"):
                raise Err(None, None)
            else:
                raise Err(i, j + 1)
        if i == t.main and t.ref:
            k = len(t.items[i])
            if st.get("mainstarted") and t.ref[3] != t.ref[0]:
                raise Err(i, k + 2 - t.ref[2])

    err = None
    try:
        # the main file may be included by an option, before it is a proof
        for j, _ in t.opts:
            if t.ref and (reach(t, j) & {t.main}):
                raise Discard()
            run(j)
        st["mainstarted"] = True
        if t.stdin and t.main in reach(t, t.main, True) and t.ref:
            raise Discard()
        run(t.main, t.stdin)
    except Err as e:
        err = e.args
    return echoes, err, st


def reach(t, j, proper=False):
    seen = set()
    todo = [it[1] for it in t.items[j] if it[0] == "inc"] if proper else [j]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [it[1] for it in t.items[x] if it[0] == "inc"]
    return seen


def check(t, env):
    env.clean()
    # a level of its own, so that paths can leave the tree
    root = os.path.join(env.dir, "top", "tree")
    os.makedirs(root)
    for d in t.dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for d, l in t.dlinks.items():
        os.symlink(os.path.basename(d), os.path.join(root, os.path.dirname(d), l))
    if t.stdin:
        # standard input resolves paths against the working directory
        if t.cwd != t.files[t.main][0]:
            raise Discard()
    files, real = build(t, root, "tree")
    for (d, nm), x in files.items():
        with open(os.path.join(root, d, nm), "w") as f:
            f.write(x)
    for (d, nm), l in t.flinks.items():
        os.symlink(nm, os.path.join(root, d, l))
    echoes, err, st = model(t)
    args = ["--include=" + real(p) for _, p in t.opts]
    if t.ref and t.ref[2]:
        args.insert(t.ref[0] % (len(args) + 1), "--reference=" + real(t.ref[1]))
    mt = files[t.files[t.main]]
    if not t.stdin:
        args.append(real(t.mainspell))
    r = env.exec(args, mt.encode() if t.stdin else None, cwd=os.path.join(root, t.cwd))
    shown = {os.path.join(*k).lstrip("/"): v for k, v in files.items()}
    shown["links"] = "".join("%s -> %s\n" % (os.path.join(os.path.dirname(d), l), os.path.basename(d)) for d, l in sorted(t.dlinks.items())) + \
        "".join("%s -> %s\n" % (os.path.join(d, l), nm) for (d, nm), l in sorted(t.flinks.items()))
    if t.stdin:
        shown["stdin"] = mt
    cmd = "cd ./%s; ethos %s%s" % (t.cwd, " ".join("'%s'" % a for a in args), " < stdin" if t.stdin else "")

    def bad(m):
        raise Violation("%s: %s" % (m, r.show()), shown, cmd)
    out = r.out.decode(errors="replace").split("\n")
    got = [l for l in out if re.match(r"^e\d+-\d+$", l)]
    if r.verdict == "timeout" or r.verdict == "crash":
        bad("no answer")
    if got != echoes:
        bad("expected the echoes %s" % " ".join(echoes))
    if err is None:
        if r.verdict != "correct":
            bad("expected correct")
    else:
        if r.verdict != "reject":
            bad("expected an error")
        if err[0] is not None:
            m = re.search(r"^Error: (.*):(\d+)\.\d+: ", r.errmsg())
            if not m:
                bad("no location of the error in %s, line %d" % ("/".join(t.files[err[0]]), err[1]))
            f, l = m.group(1), int(m.group(2))
            if l != err[1]:
                bad("expected an error in line %d of %s" % (err[1], "/".join(t.files[err[0]])))
            if not (t.stdin and f in ("stdin", "<stdin>", "") or t.stdin and err[0] == t.main):
                p = os.path.realpath(os.path.join(root, t.cwd, f))
                if p != os.path.realpath(os.path.join(root, *t.files[err[0]])):
                    bad("expected an error in %s" % "/".join(t.files[err[0]]))
    env.notes["rejected" if err else "correct"] = env.notes.get("rejected" if err else "correct", 0) + 1
    nt = st["again"] or st["depth"]
    return [(cmd.replace(env.dir, "") + repr(sorted(shown.items())).replace(env.dir, ""), bool(nt and echoes))]


PARTS = [Part("graphs", gen, check, 12000, 400000)]
