"""Generated-input search: choice sources, runner, shrinking, evidence.

A check is a list of Parts.  A part has a generator gen(src) -> case, driven by
a source of choices, and a function check(case, env) that decides the property
on that case: it raises Violation when the oracle disagrees with ethos, and
otherwise returns the list of sub-evaluations it made as (key, nontrivial)
pairs or an int.  Every random choice goes through the source, so a failing
case is shrunk on its sequence of choices (deletion of blocks, zeroing,
lowering), and the minimal one is confirmed by running it again before it is
reported."""
import os, sys, json, resource, time, random, hashlib, tempfile, shutil, subprocess, traceback
import multiprocessing as mp
from . import build as B

VERIF = B.VERIF


class Violation(Exception):
    """The property is broken on this case."""
    def __init__(self, msg, files=None, cmd=None, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.files = files or {}
        self.cmd = cmd
        self.sig = sig or ""


class Discard(Exception):
    """The generated case is not usable."""


class Src:
    """Source of choices."""
    __slots__ = ("rng", "replay", "pos", "log", "limit")

    def __init__(self, rng=None, replay=None, limit=200000):
        self.rng, self.replay, self.pos, self.log, self.limit = rng, replay, 0, [], limit

    def n(self, k):
        """an integer in [0,k)"""
        if k <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= k:
                v = k - 1
        else:
            v = self.rng.randrange(k)
        self.log.append(v)
        if len(self.log) > self.limit:
            raise Discard()
        return v

    def r(self, lo, hi):
        """an integer in [lo,hi]; shrinks to lo"""
        return lo + self.n(hi - lo + 1)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def w(self, pairs):
        """weighted choice from [(weight, value)]; shrinks to the first"""
        tot = sum(p[0] for p in pairs)
        x = self.n(tot)
        for wt, v in pairs:
            if x < wt:
                return v
            x -= wt
        return pairs[-1][1]

    def p(self, num, den=100):
        """true with probability num/den; shrinks to False"""
        return self.n(den) >= den - num

    def perm(self, seq):
        l = list(seq)
        for i in range(len(l) - 1, 0, -1):
            j = i - self.n(i + 1)
            l[i], l[j] = l[j], l[i]
        return l

    def sub(self, seq, lo=0, hi=None):
        """a random sub-multiset in order, with lo..hi elements"""
        hi = len(seq) if hi is None else min(hi, len(seq))
        k = self.r(min(lo, hi), hi)
        idx = self.perm(range(len(seq)))[:k]
        return [seq[i] for i in sorted(idx)]


class Part:
    def __init__(self, name, gen, check, quick, thorough, choices=None):
        """choices: optionally gives the choices for the n-th case"""
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough, self.choices = quick, thorough, choices


class Result:
    __slots__ = ("rc", "out", "err", "verdict", "detail")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err = rc, out, err
        self.detail = ""
        if timeout:
            self.verdict = "timeout"
            return
        lines = out.split(b"\n")
        resp = [l for l in lines if l in (b"correct", b"incomplete")]
        if b"AddressSanitizer" in err or b"runtime error: " in err or b"LeakSanitizer" in err:
            self.verdict = "crash"
            self.detail = "sanitizer"
        elif b"Check failure" in err or b"Unreachable code" in err:
            self.verdict = "crash"
            self.detail = "internal assertion"
        elif rc == 0:
            self.verdict = resp[-1].decode() if resp else "none"
        elif rc < 0 and rc != -6:
            self.verdict = "crash"
            self.detail = "signal %d" % -rc
        elif b"Fatal failure" in err or (rc > 0 and b"rror" in err):
            self.verdict = "reject"
            if resp and lines and any(l in (b"correct", b"incomplete") for l in lines[-2:]):
                self.detail = "response printed"
        else:
            self.verdict = "crash"
            self.detail = "exit status %d without an error message" % rc

    @property
    def accepted(self):
        return self.verdict in ("correct", "incomplete")

    def errmsg(self):
        """the user-facing part of the error"""
        e = self.err.decode(errors="replace")
        i = e.find("Error: ")
        return e[i:] if i >= 0 else e

    def show(self):
        return "%s %s (exit %s) out=%r err=%r" % (
            self.verdict, self.detail, self.rc, self.out[-300:], self.err[-600:])


class Env:
    """Runs ethos in a private scratch directory."""
    def __init__(self, bins, deadline=None):
        self.bins = bins
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.runs = 0
        self.timeout = 20
        self.have = {}
        self.env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C",
                    "ASAN_OPTIONS": "alloc_dealloc_mismatch=0,detect_leaks=0,exitcode=99,allocator_may_return_null=1,hard_rss_limit_mb=3500",
                    "UBSAN_OPTIONS": "print_stacktrace=0,exitcode=99"}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def clean(self):
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        self.have = {}

    def put(self, files):
        for k in list(self.have):
            if k not in files:
                try:
                    os.unlink(os.path.join(self.dir, k))
                except OSError:
                    pass
                del self.have[k]
        for k, v in files.items():
            if isinstance(v, str):
                v = v.encode("utf-8", "surrogateescape")
            if self.have.get(k) == v:
                continue
            p = os.path.join(self.dir, k)
            if "/" in k:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)
            self.have[k] = v

    def exec(self, args, stdin=None, variant="release", timeout=None, cwd=None):
        self.runs += 1
        try:
            r = subprocess.run([self.bins[variant]] + args, input=stdin,
                               stdin=None if stdin is not None else subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=cwd or self.dir, env=self.env, timeout=timeout or self.timeout,
                               close_fds=False)
            return Result(r.returncode, r.stdout, r.stderr)
        except subprocess.TimeoutExpired as e:
            return Result(None, e.stdout or b"", e.stderr or b"", True)

    def run(self, files, main, args=(), variant="release", stdin=None, timeout=None):
        if isinstance(files, (str, bytes)):
            files = {main: files}
        self.put(files)
        a = list(args)
        if stdin is None:
            a.append(main)
        return self.exec(a, stdin, variant, timeout)


# ---------------------------------------------------------------- shrinking

def run_choices(part, choices, env):
    """(violation or None, normalised choices, case)"""
    src = Src(replay=choices)
    try:
        case = part.gen(src)
        part.check(case, env)
    except Violation as v:
        return v, src.log, None
    except Discard:
        return None, src.log, None
    return None, src.log, None


def shrink(part, choices, viol, env, budget=90.0):
    end = time.time() + budget
    best, bestv = list(choices), viol

    def attempt(c):
        nonlocal best, bestv
        if time.time() > end:
            return False
        try:
            v, log, _ = run_choices(part, c, env)
        except Exception:
            return False
        if v is not None:
            log = log[:]
            while log and log[-1] == 0:
                log.pop()
            if (len(log), sum(log), log) < (len(best), sum(best), best):
                best, bestv = log, v
                return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = len(best) - size
            while i >= 0 and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif size > 1 and any(best[i:i + size]) and \
                        attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i -= max(1, size // 2) if size > 1 else 1
                i = min(i, len(best) - size)
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            v = best[i]
            lo, hi = 0, v
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    for cand in (v // 2, v - 1):
                        if cand and i < len(best) and cand < best[i] and \
                                attempt(best[:i] + [cand] + best[i + 1:]):
                            improved = True
            i += 1
    return best, bestv


# ------------------------------------------------------------------- runner

def load_known():
    """known_findings.txt: '<status>: property=<id> sig=<signature> ...' lines."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("open: "):
                d = dict(x.split("=", 1) for x in l[6:].split(" ") if "=" in x)
                res.append((d.get("property"), d.get("sig"), l[6:]))
    return res


def worker(mod, idx, nworkers, seed, tier, bins, stop, budget, q, scale):
    import importlib
    m = importlib.import_module("vf.checks." + mod)
    env = Env(bins)
    known = {(p, s) for p, s, _ in load_known()}
    res = {"cases": {}, "evals": {}, "nontrivial": set(), "samples": [], "discards": 0,
           "known": [], "flaky": [], "error": None, "viol": None, "runs": 0, "cut": False, "notes": {}}
    env.notes = res["notes"]
    env.tier, env.seed = tier, seed
    t0 = time.time()
    if not {"asan", "check"} & set(getattr(m, "VARIANTS", [])):
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    try:
        if hasattr(m, "setup_worker"):
            m.setup_worker(env)
        # interleave the parts so that a time cut hits all of them alike
        todo = []
        for part in m.PARTS:
            if os.environ.get("VF_PART", part.name) != part.name:
                continue
            n = part.quick if tier == "quick" else part.thorough
            n = int(n * scale)
            k = n // nworkers + (1 if idx < n % nworkers else 0)
            todo.append([part, k, 0])
            res["cases"][part.name] = 0
            res["evals"][part.name] = 0
        tot = sum(k for _, k, _ in todo) or 1
        done = 0
        while done < tot and any(k > i for _, k, i in todo):
            if stop.is_set():
                break
            if time.time() - t0 > budget:
                res["cut"] = True
                break
            # the part that is furthest behind
            e = min((e for e in todo if e[2] < e[1]), key=lambda e: e[2] / e[1])
            part = e[0]
            rng = random.Random("%s/%s/%d/%d/%d" % (m.ID, part.name, seed, idx, e[2]))
            fixed = part.choices(idx + nworkers * e[2]) if part.choices else None
            if part.choices and fixed is None:
                e[1] = e[2]
                continue
            e[2] += 1
            done += 1
            src = Src(rng, fixed)
            case = None
            try:
                case = part.gen(src)
                r = part.check(case, env)
                res["cases"][part.name] += 1
                if isinstance(r, (list, tuple)):
                    res["evals"][part.name] += len(r)
                    for key, nt in r:
                        if nt:
                            res["nontrivial"].add(hashlib.blake2b(
                                (part.name + "\0" + str(key)).encode("utf-8", "replace"), digest_size=8).digest())
                    if len(res["samples"]) < 3 and e[2] > 2 and any(nt for _, nt in r):
                        s = [str(k) for k, nt in r if nt]
                        res["samples"].append({"part": part.name, "case": s[len(s) // 2][:1500]})
                else:
                    res["evals"][part.name] += int(r or 0)
            except Discard:
                res["discards"] += 1
            except Violation as v:
                if (m.ID, v.sig) in known:
                    res["known"].append((v.sig, v.msg))
                    continue
                # real? (the same choices must fail again)
                again = [run_choices(part, src.log, env)[0] for _ in range(2)]
                if not all(again):
                    res["flaky"].append({"part": part.name, "msg": v.msg[:500]})
                    if len(res["flaky"]) > 20:
                        break
                    continue
                stop.set()
                best, bv = shrink(part, src.log, v, env, 60.0 if tier == "quick" else 240.0)
                conf = [run_choices(part, best, env)[0] for _ in range(3)]
                if all(conf):
                    bv = conf[-1]
                else:
                    best, bv = src.log, v
                res["viol"] = {"part": part.name, "choices": best, "msg": bv.msg,
                               "files": {k: (x if isinstance(x, str) else x.decode("utf-8", "surrogateescape"))
                                         for k, x in bv.files.items()},
                               "cmd": bv.cmd, "sig": bv.sig}
                break
    except Exception:
        res["error"] = traceback.format_exc()
        stop.set()
    res["runs"] = env.runs
    env.close()
    q.put(res)


def write_replay(m, viol, seed, tier):
    d = os.path.join(VERIF, "replay", m.ID)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(viol["choices"]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (viol["part"], h))
    with open(path, "w") as f:
        json.dump({"property": m.ID, "part": viol["part"], "choices": viol["choices"],
                   "message": viol["msg"], "files": viol["files"], "command": viol["cmd"],
                   "rerun": "python3 -m vf replay " + os.path.relpath(path, VERIF)}, f, indent=1)
    return os.path.relpath(path, VERIF)


def main(mod, tier=None, seed=None, scale=1.0):
    import importlib
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
    m = importlib.import_module("vf.checks." + mod)
    try:
        bins = B.build(getattr(m, "VARIANTS", ["release"]))
    except B.BuildError as e:
        print("build failed: %s" % e)
        return 2
    tb = time.time() - t0
    nw = int(os.environ.get("VF_JOBS", os.cpu_count() or 4))
    budget = getattr(m, "BUDGET", {}).get(tier) or (240 if tier == "quick" else 3000)
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    if hasattr(m, "setup"):
        m.setup(bins, tier, seed)
    ps = [ctx.Process(target=worker, args=(mod, i, nw, seed, tier, bins, stop, budget, q, scale))
          for i in range(nw)]
    for p in ps:
        p.start()
    rs = []
    for _ in ps:
        while True:
            try:
                rs.append(q.get(timeout=5))
                break
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    print("a worker ended without a result")
                    return 2
    for p in ps:
        p.join()
    errs = [r["error"] for r in rs if r["error"]]
    viols = [r["viol"] for r in rs if r["viol"]]
    parts = {}
    notes = {}
    for r in rs:
        for k, v in r["cases"].items():
            parts.setdefault(k, {"cases": 0, "evaluations": 0})
            parts[k]["cases"] += v
            parts[k]["evaluations"] += r["evals"][k]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    nontriv = set()
    for r in rs:
        nontriv |= r["nontrivial"]
    samples = []
    for i in range(3):
        for r in rs:
            if len(r["samples"]) > i:
                samples.append(r["samples"][i])
    seen, ss = {}, []
    for s in samples:
        if seen.get(s["part"], 0) < 2:
            seen[s["part"]] = seen.get(s["part"], 0) + 1
            ss.append(s)
    known = load_known()
    status = 0
    for r in rs:
        for f in r["flaky"]:
            print("note: a failure did not repeat, ignored: %s" % f["msg"][:200])
    hit = {s for r in rs for s, _ in r["known"]}
    for p, s, text in known:
        if p == m.ID:
            print("KNOWN-FINDING: property=%s %s" % (p, text))
    out_v = []
    for v in viols:
        path = write_replay(m, v, seed, tier)
        out_v.append({"replay": path, "message": v["msg"][:2000]})
        print("--- %s/%s: %s" % (m.ID, v["part"], v["msg"][:3000]))
        if v["cmd"]:
            print("command: %s" % v["cmd"])
        print("VIOLATION property=%s replay=%s" % (m.ID, path))
        status = 1
    ev = {"property": m.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(p["evaluations"] for p in parts.values()),
                       "distinct_nontrivial": len(nontriv),
                       "rule": m.RULE, "samples": ss or ["none"],
                       "files_or_cases_generated": sum(p["cases"] for p in parts.values()),
                       "ethos_runs": sum(r["runs"] for r in rs), "parts": parts,
                       "discarded": sum(r["discards"] for r in rs),
                       "cut_by_time": any(r["cut"] for r in rs), "build_s": round(tb, 1)},
          "wall_s": round(time.time() - t0, 1),
          "assumptions": getattr(m, "ASSUMPTIONS", []), "violations": out_v}
    if notes:
        ev["coverage"]["counts"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", m.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if errs:
        print("error in the check itself:\n" + errs[0])
        if not status:
            return 2
    print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %d runs, %.1fs%s" % (
        m.ID, tier, ev["coverage"]["files_or_cases_generated"], ev["coverage"]["evaluations"], len(nontriv),
        ev["coverage"]["ethos_runs"], time.time() - t0, "" if not ev["coverage"]["cut_by_time"] else " (cut by time)"))
    return status


def replay(path):
    import importlib
    d = json.load(open(path))
    mod = d["property"].lower()
    m = importlib.import_module("vf.checks." + mod)
    bins = B.build(getattr(m, "VARIANTS", ["release"]))
    env = Env(bins)
    env.notes, env.tier, env.seed = {}, "quick", 1
    if hasattr(m, "setup"):
        m.setup(bins, "quick", 1)
    if hasattr(m, "setup_worker"):
        m.setup_worker(env)
    part = [p for p in m.PARTS if p.name == d["part"]][0]
    v, log, _ = run_choices(part, d["choices"], env)
    env.close()
    if v is None:
        print("does not fail on this tree")
        return 0
    print(v.msg)
    for k, x in v.files.items():
        print("---- %s\n%s" % (k, x if isinstance(x, str) else x.decode(errors="replace")))
    if v.cmd:
        print("command: " + v.cmd)
    print("VIOLATION property=%s replay=%s" % (m.ID, path))
    return 1
