"""S-expressions of Eunoia files with positions, and the files of the
repository's test-suite as seeds."""
import os, re, glob
from .build import REPO

TOK = re.compile(r'''[ \t\r\n]+|;[^\n]*|\(|\)|"(?:[^"]|"")*"|\|[^|]*\||[^ \t\r\n()";|]+''', re.S)


class N:
    __slots__ = ("k", "a", "b", "kids", "src")

    def __init__(self, k, a, b, kids, src):
        self.k, self.a, self.b, self.kids, self.src = k, a, b, kids, src

    @property
    def text(self):
        return self.src[self.a:self.b]

    @property
    def head(self):
        return self.kids[0].text if self.k == "(" and self.kids else None

    def walk(self):
        yield self
        for x in self.kids:
            yield from x.walk()


def tokens(text):
    """[(start, end, kind)] with kind among ( ) a s q (atoms, strings, quoted
    symbols), w (white space) and c (comments)"""
    res, i, n = [], 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if m is None:
            raise ValueError("cannot tokenize at %d" % i)
        c = text[i]
        k = "w" if c in " \t\r\n" else c if c in "()" else "c" if c == ";" else "s" if c == '"' else "q" if c == "|" else "a"
        res.append((i, m.end(), k))
        i = m.end()
    return res


def parse(text):
    """top-level nodes"""
    stack, cur = [], []
    for a, b, k in tokens(text):
        if k in "wc":
            continue
        if k == "(":
            n = N("(", a, None, [], text)
            cur.append(n)
            stack.append((n, cur))
            cur = n.kids
        elif k == ")":
            if not stack:
                raise ValueError("unbalanced")
            n, cur = stack.pop()
            n.b = b
        else:
            cur.append(N(k, a, b, [], text))
    if stack:
        raise ValueError("unbalanced")
    return cur


def replace(text, edits):
    """edits: [(start, end, new text)]"""
    for a, b, t in sorted(edits, reverse=True):
        text = text[:a] + t + text[b:]
    return text


_files = None


def corpus():
    """{name: text} of the .eo files of the test-suite"""
    global _files
    if _files is None:
        _files = {}
        for p in sorted(glob.glob(os.path.join(REPO, "tests", "*"))):
            if os.path.isfile(p) and not p.endswith("CMakeLists.txt"):
                with open(p, errors="surrogateescape", newline="") as f:
                    _files[os.path.basename(p)] = f.read()
    return _files


def flatten(name, seen=None):
    """text of a test with its includes in place"""
    fs = corpus()
    seen = set() if seen is None else seen
    seen.add(name)
    t = fs[name]
    ed = []
    for c in parse(t):
        if c.head == "include":
            f = os.path.normpath(c.kids[1].text.strip('"'))
            if f not in fs:
                raise ValueError("include " + f)
            ed.append((c.a, c.b, "" if f in seen else flatten(f, seen)))
    return replace(t, ed)


_base = None


def accepted(env):
    """[(name, flat text)] of the tests (flattened) that are accepted"""
    global _base
    if _base is None:
        _base = []
        for n in sorted(corpus()):
            if not n.endswith(".eo"):
                continue
            try:
                t = flatten(n)
            except ValueError:
                continue
            if any(c.head == "reference" for c in parse(t)):
                continue
            r = env.run({"b.eo": t}, "b.eo")
            if r.accepted:
                _base.append((n, t, r.verdict))
    return _base
