"""Builds ethos binaries out of tree from /repo's current working tree."""
import os, sys, glob, hashlib, subprocess, concurrent.futures as cf, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
CXX = "g++"

VARIANTS = {
    # as shipped (no assertions)
    "release": ["-O1", "-DNDEBUG"],
    # debug profile: internal assertions and tracing compiled in
    "debug": ["-O1", "-DEO_ASSERTIONS", "-DEO_TRACING"],
    # memory errors and undefined behaviour are fatal; no assertions, so that
    # what the shipped build would do is what is observed
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             "-fno-omit-frame-pointer"],
    # the same with internal assertions
    "check": ["-O1", "-g1", "-DEO_ASSERTIONS", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
              "-fno-omit-frame-pointer"],
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def sources():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                res.append(os.path.join(root, f))
    return res


def build(names):
    """Returns {variant: path of binary}, building what is missing."""
    os.makedirs(OUT, exist_ok=True)
    env = dict(os.environ)
    for v in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS"):
        env.pop(v, None)
    env["CCACHE_DISABLE"] = "1"
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        th = tree_hash()
        res, jobs, links = {}, [], []
        for n in names:
            d = os.path.join(OUT, "%s-%s" % (n, th))
            res[n] = os.path.join(d, "ethos")
            if os.path.exists(res[n]):
                continue
            # forget binaries of other trees
            for old in glob.glob(os.path.join(OUT, n + "-*")):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            objs = []
            for s in sources():
                o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                objs.append(o)
                jobs.append([CXX, "-std=gnu++17", "-w", "-I" + os.path.join(REPO, "src")]
                            + VARIANTS[n] + ["-c", s, "-o", o])
            fl = [x for x in VARIANTS[n] if x.startswith("-fsan") or x.startswith("-fno-san")]
            links.append((n, [CXX] + fl + objs + ["-lgmpxx", "-lgmp", "-o", res[n] + ".tmp"], res[n], objs))

        def run(cmd):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])

        # biggest first
        jobs.sort(key=lambda c: -os.path.getsize(c[c.index("-c") + 1]))
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs))
        for n, cmd, path, objs in links:
            run(cmd)
            os.rename(path + ".tmp", path)
            for o in objs:
                os.unlink(o)
        return res


if __name__ == "__main__":
    print(build(sys.argv[1:] or list(VARIANTS)))
