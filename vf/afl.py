"""Coverage-guided search with AFL++: returns inputs that reach something new.

The instrumented build only finds inputs; they are judged by the sanitizer
build of the check that uses them.
"""
import os, glob, hashlib, shutil, subprocess, tempfile, time, concurrent.futures as cf
from . import build as B

DICT = []


def instrument():
    d = os.path.join(B.OUT, "afl-" + B.tree_hash())
    exe = os.path.join(d, "ethos")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(B.OUT, "afl-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, AFL_QUIET="1", AFL_LLVM_LAF_ALL="")
    env.pop("AFL_LLVM_LAF_ALL")
    objs = [os.path.join(d, "wrap.o")]
    with open(os.path.join(d, "wrap.c"), "w") as f:
        # an error that ethos reports is not a crash
        f.write("#include <unistd.h>\nvoid __wrap_abort(void) { _exit(6); }\n")
    jobs = [["clang", "-c", f.name, "-o", objs[0]]]
    for s in B.sources():
        o = os.path.join(d, os.path.relpath(s, B.REPO).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append(["afl-clang-fast++", "-std=gnu++17", "-w", "-O2", "-DNDEBUG", "-I" + os.path.join(B.REPO, "src"), "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(lambda c: subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs):
            if r.returncode:
                raise B.BuildError(r.stdout.decode(errors="replace")[-2000:])
    r = subprocess.run(["afl-clang-fast++", "-Wl,--wrap=abort"] + objs + ["-lgmpxx", "-lgmp", "-o", exe + ".tmp"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise B.BuildError(r.stdout.decode(errors="replace")[-2000:])
    os.rename(exe + ".tmp", exe)
    return exe


def search(seeds, words, seconds, seed, jobs=None, suffix=".eo"):
    """inputs (bytes) that AFL++ kept, and a dict of statistics"""
    exe = instrument()
    jobs = jobs or os.cpu_count() or 4
    w = tempfile.mkdtemp(prefix="vf-afl-")
    ps = []
    try:
        os.makedirs(w + "/in")
        known = set()
        for i, s in enumerate(seeds):
            s = s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
            known.add(hashlib.sha1(s).digest())
            with open("%s/in/%04d" % (w, i), "wb") as f:
                f.write(s)
        with open(w + "/dict", "w") as f:
            for i, x in enumerate(words):
                f.write('w%d="%s"\n' % (i, "".join("\\x%02x" % b for b in x.encode())))
        env = dict(os.environ, AFL_I_DONT_CARE_ABOUT_MISSING_CRASHES="1", AFL_SKIP_CPUFREQ="1", AFL_NO_UI="1", AFL_NO_AFFINITY="1",
                   AFL_FAST_CAL="1", AFL_NO_CRASH_README="1", AFL_IGNORE_SEED_PROBLEMS="1", AFL_SKIP_CRASHES="1")
        for i in range(jobs):
            os.makedirs("%s/cwd%d" % (w, i))
            cmd = ["afl-fuzz", "-i", w + "/in", "-o", w + "/out", "-M" if i == 0 else "-S", "f%d" % i, "-x", w + "/dict", "-t", "1000", "-m", "2000",
                   "-s", str(seed * 100 + i), "-V", str(seconds), "-f", "%s/cwd%d/p%s" % (w, i, suffix), "--", exe, "%s/cwd%d/p%s" % (w, i, suffix)]
            ps.append(subprocess.Popen(cmd, env=env, cwd="%s/cwd%d" % (w, i), stdout=open("%s/log%d" % (w, i), "w"), stderr=subprocess.STDOUT))
        end = time.time() + seconds + 180
        for p in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
        out, st = [], {"afl executions": 0, "afl crashes": 0, "afl inputs kept": 0}
        for f in sorted(glob.glob(w + "/out/f*/queue/id*") + glob.glob(w + "/out/f*/crashes/id*")):
            with open(f, "rb") as fh:
                b = fh.read()
            h = hashlib.sha1(b).digest()
            if h not in known:
                known.add(h)
                out.append(b)
                st["afl crashes" if "/crashes/" in f else "afl inputs kept"] += 1
        for f in glob.glob(w + "/out/f*/fuzzer_stats"):
            for l in open(f):
                if l.startswith("execs_done"):
                    st["afl executions"] += int(l.split(":")[1])
        if not st["afl executions"]:
            raise RuntimeError("afl-fuzz did not run: " + open(w + "/log0").read()[-1500:])
        return out, st
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(w, ignore_errors=True)
