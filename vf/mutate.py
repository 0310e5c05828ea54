"""Mutations of Eunoia text at the level of tokens and commands, changes of
layout, and splits into included files."""
from . import sx

COMMENTS = ["", " ", "(", ")", " ((", '"', " |", ' "a', "; ;", " (step a", "\t\t", " true", "\\", "'", " é λ", ":args", " x" * 40]


def comment(s):
    c = s.pick(COMMENTS)
    if s.p(4):
        c += "x" * s.pick([900, 1000, 1020, 1023, 1024, 1025, 2047, 2100])
    return ";" + c + s.pick(["\n", "\n", "\r\n"])


def space(s, must):
    m = s.n(20)
    if m < 8:
        return " "
    if m < 11:
        return "\n"
    if m < 13:
        return "" if not must else "\t"
    if m == 13:
        return s.pick(["\t", "\r\n", "\r", "  ", "\n\n", " \t \n", "\n\n\n   "])
    if m == 14:
        return " " + comment(s)
    if m == 15:
        return "\n" + comment(s) + s.pick(["", " ", "\n"])
    if m == 16:
        return " " * s.r(1, 30)
    return " " if must else ""


def layout(s, text):
    """the same tokens with other white space and comments"""
    out = []
    prev = None
    mode = s.n(3)
    if s.p(40):
        out.append(s.pick(["\n", " ", "\r\n", "\t"]) if s.p(50) else comment(s))
    for a, b, k in sx.tokens(text):
        if k in "wc":
            continue
        if prev is not None:
            must = not (prev in "()" or k in "()")
            if mode == 0:
                out.append(space(s, must))
            elif mode == 1:
                out.append(" " if must else "")
            else:
                out.append("\n" if must or s.p(50) else s.pick(["", " "]))
        out.append(text[a:b])
        prev = k
    m = s.n(5)
    if m == 1:
        out.append("\n")
    elif m == 2:
        out.append(" ;" + s.pick(COMMENTS))     # a comment ends with the file
    elif m == 3:
        out.append(comment(s))
    elif m == 4:
        out.append(" \t\r\n")
    return "".join(out)


def atoms(cs):
    return [n for c in cs for n in c.walk() if n.k in "asq"]


def node_mutation(s, text, other=None):
    """the text with one subterm, atom or command dropped, doubled, swapped or
    replaced by another one; stays balanced. None if there is nothing to do"""
    cs = sx.parse(text)
    if not cs:
        return None
    m = s.n(9)
    if m == 0:
        c = s.pick(cs)
        return text[:c.a] + text[c.b:]
    if m == 1:
        c, d = s.pick(cs), s.pick(cs)
        return sx.replace(text, [(c.a, c.a, d.text + "\n")])
    if m == 2 and len(cs) > 1:
        i = s.n(len(cs) - 1)
        c, d = cs[i], cs[i + 1]
        return sx.replace(text, [(c.a, c.b, d.text), (d.a, d.b, c.text)])
    ns = [n for c in cs for n in c.walk()]
    if len(ns) < 3:
        return None
    n = s.pick(ns)
    if m == 3:
        return text[:n.a] + text[n.b:]
    if m == 4:
        return text[:n.b] + " " + n.text + text[n.b:]
    if m == 5 and n.k == "(" and len(n.kids) > 1:
        i = s.n(len(n.kids) - 1)
        c, d = n.kids[i], n.kids[i + 1]
        return sx.replace(text, [(c.a, c.b, d.text), (d.a, d.b, c.text)])
    src = other if other is not None and s.p(30) else cs
    ns2 = [x for c in src for x in c.walk()] if m == 6 else atoms(src)
    if m != 6:
        ats = [x for x in ns if x.k in "asq"]
        if not ats or not ns2:
            return None
        n = s.pick(ats)
    x = s.pick(ns2)
    return text[:n.a] + x.text + text[n.b:]


def split(s, text, ext, name="p", pre="i"):
    """files with the commands of text, parts of which are moved into included
    files; {name: text}. Only cuts where no local assumption is open."""
    cs = sx.parse(text)
    files, cnt = {}, [0]

    def build(cmds, depth):
        out, i = [], 0
        while i < len(cmds):
            if depth < 3 and s.p(15):
                # a balanced run
                k = s.r(1, min(8, len(cmds) - i))
                run = cmds[i:i + k]
                d = 0
                good = True
                for c in run:
                    d += (c.head == "assume-push") - (c.head == "step-pop")
                    good &= d >= 0
                if good and d == 0 and lev[0] == 0:
                    cnt[0] += 1
                    f = "%s%d%s" % (pre, cnt[0], ext)
                    files[f] = build(run, depth + 1)
                    out.append('(include "%s")' % f)
                    if s.p(20):
                        out.append('(include "./%s")' % f)
                    i += k
                    continue
            c = cmds[i]
            lev[0] += (c.head == "assume-push") - (c.head == "step-pop")
            out.append(c.text)
            i += 1
        return "\n".join(out) + "\n"
    lev = [0]
    files[name + ext] = build(cs, 0)
    return files
