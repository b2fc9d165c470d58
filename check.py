#!/usr/bin/env python3
"""check.py <ID>            decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
check.py --replay FILE     run a recorded violating case again (alone, then with those before it)
check.py --setup           build what all checks share (a warm-up; every check rebuilds)

Builds the code under test from /repo, runs the real code under monitored workloads and lets
the monitors decide. Exit 0: held on everything explored. Exit 1 and a VIOLATION line: an
oracle saw the property broken. Exit 2: no verdict (build failure, killed, harness fault).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
IDS = ["C%02d" % i for i in range(1, 22)]
PYTHON_PROPS = ("C15", "C16")

RULES = {
 "C01": ("random histories of add-vertex/add-edge/delete-edge over several id distributions, all queries compared with a set model in lock-step", "the history left at least one edge"),
 "C02": ("graphs obtained by mutation, matrices, bytes, approximation, duplication and decompression, composed; symmetric and nearly symmetric matrices", "at least one edge was present"),
 "C03": ("random writes to matrices of all 12 element types and to adjacency matrices, compared with a cell map", "at least one non-zero cell"),
 "C04": ("random graphs pooled with random, boundary and huge block dimensions, compared with exact block counts", "the pooled graph had an edge"),
 "C05": ("random graphs approximated with thresholds at, just above and just below block averages", "the graph had an edge"),
 "C06": ("graphs whose block populations straddle the level, compressed at all levels, compared with a block census", "the graph had an edge"),
 "C07": ("compress/decompress compositions compared with a census-filtered model", "the graph had an edge"),
 "C08": ("save/load generations of both formats with mutation between them", "the graph had an edge"),
 "C09": ("images written by the library read by an independent codec and the other way round, and the shipped samples", "the image had a record"),
 "C10": ("valid images and structured corruptions of them, judged by an independent validator", "an image with a full header"),
 "C11": ("hostile byte strings decoded under a counting allocator, overflow checks and a CPU watchdog", "an image with a full header"),
 "C12": ("graphs and matrices of all element types rendered and compared with an independent renderer", "the matrix had a cell"),
 "C13": ("random C call histories with releases in any order under a checking allocator; AddressSanitizer and Miri on the same histories", "every history"),
 "C14": ("random scripts interpreted by a C program built on gphrx.h, transcript compared with the Rust library's answers", "every script"),
 "C15": ("random histories of Python calls compared with a Python model", "some edge was present"),
 "C16": ("random create/derive/mutate/iterate/drop/raise histories of Python objects over an allocator that watches every block", "some list, matrix, compressed graph or non-empty graph was alive at the end"),
 "C17": ("interleavings of derivation, query and mutation over families of related values with snapshots of all of them", "some edge was present"),
 "C18": ("threads reading shared values and mutating their own, compared with single-threaded answers; ThreadSanitizer and Miri watch for races", "every run with at least two threads"),
 "C19": ("graphs with ids over the whole 64-bit range under a counting allocator, with and without overflow checks", "some edge was present"),
 "C20": ("compressed graphs from all three sources, every view compared with every other", "some block was present"),
 "C21": ("images and texts of graphs, compressed graphs and matrices asked for through Rust, C and Python while the allocator refuses blocks of the result's size, then asked for again", "a refusal was reported and the full result was given afterwards"),
}


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if r.returncode != 0:
        raise NoVerdict(f"build step failed ({r.returncode}): {' '.join(cmd)}\n{r.stdout[-3000:]}")
    return r.stdout


# ------------------------------------------------------------------ builds

def content_hash():
    h = hashlib.sha256()
    for top in (REPO, HARNESS):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".h", ".c", ".py", ".lock")) and os.path.isfile(p):
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


CONTENT = None


def fresh(target):
    """Cargo decides by modification times; a copied tree may lie about those. Where the sources
    differ in content from what this target directory was built from, have the crates rebuilt."""
    global CONTENT
    CONTENT = CONTENT or content_hash()
    mark = os.path.join(target, "gx-content")
    os.makedirs(target, exist_ok=True)
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != CONTENT:
        for d, ds, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in list(ds):
                    if x.startswith(("graphrox", "gx")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
            elif len(d[len(target):].split(os.sep)) > 4:
                ds[:] = []
        with open(mark, "w") as f:
            f.write(CONTENT)
    return target

def b_harness(profile):
    t = fresh(os.path.join(B, "h-" + profile))
    sh(["cargo", "build", "--offline", "--profile", profile], HARNESS, {"CARGO_TARGET_DIR": t})
    return os.path.join(t, profile, "gxmon")


def b_cdriver():
    fresh(B + "/c")
    sh(["cargo", "build", "--offline", "--release", "-p", "graphrox-c"], REPO, {"CARGO_TARGET_DIR": B + "/c"})
    out = B + "/cdriver"
    sh(["clang", "-O1", "-g", "-Wall", "-I" + REPO + "/graphrox-c", "driver.c", "-o", out, B + "/c/release/libgraphrox.a",
        "-lpthread", "-ldl", "-lm"], HARNESS + "/cdriver")
    return out


def b_cdriver_asan():
    fresh(B + "/casan")
    sh(["cargo", "+nightly", "build", "--offline", "--release", "-p", "graphrox-c", "--target", TRIPLE], REPO,
       {"CARGO_TARGET_DIR": B + "/casan", "RUSTFLAGS": "-Zsanitizer=address"})
    out = B + "/cdriver-asan"
    sh(["clang", "-O1", "-g", "-Wall", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + REPO + "/graphrox-c",
        "driver.c", "-o", out, B + f"/casan/{TRIPLE}/release/libgraphrox.a", "-lpthread", "-ldl", "-lm"], HARNESS + "/cdriver")
    return out


def b_tsan():
    t = fresh(B + "/tsan")
    sh(["cargo", "+nightly", "build", "--offline", "--release", "--no-default-features", "-Zbuild-std", "--target", TRIPLE], HARNESS,
       {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Zsanitizer=thread"})
    return f"{t}/{TRIPLE}/release/gxmon"


MIRI_ENV = {"CARGO_TARGET_DIR": B + "/miri", "XDG_CACHE_HOME": B + "/miri-cache"}


def b_miri():
    fresh(B + "/miri")
    sh(["cargo", "+nightly", "miri", "setup"], HARNESS, MIRI_ENV)
    return "miri"


def b_pypkg(kind):
    if kind == "C15":
        fresh(B + "/c")
        sh(["cargo", "build", "--offline", "--release", "-p", "graphrox-c"], REPO, {"CARGO_TARGET_DIR": B + "/c"})
        so = B + "/c/release/libgraphrox.so"
    else:
        sh(["cargo", "build", "--offline", "--release"], HARNESS + "/shim", {"CARGO_TARGET_DIR": fresh(B + "/shim")})
        so = B + "/shim/release/libgxshim.so"
    d = f"{B}/py-{kind}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = REPO + "/graphrox-py/graphrox"
    for f in os.listdir(src):
        if f.endswith(".py"):
            shutil.copy(os.path.join(src, f), d)
    shutil.copy(so, d + "/graphrox-x86_64-unknown-linux-gnu.so")
    shutil.copy(so, d + "/graphrox-aarch64-unknown-linux-gnu.so")
    return d


def parallel(**jobs):
    res, errs = {}, []

    def go(k, f):
        try:
            res[k] = f()
        except Exception as e:
            errs.append(e if isinstance(e, NoVerdict) else NoVerdict(f"{k}: {e!r}"))
    ts = [threading.Thread(target=go, args=x) for x in jobs.items()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def dictionary(path):
    """Numbers written in the sources under test: they steer the workload, never an oracle."""
    nums = set()
    for top in ("graphrox-rs/src", "graphrox-c/src", "graphrox-py/graphrox"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith((".rs", ".py")):
                    continue
                s = open(os.path.join(d, f), errors="replace").read()
                if f.endswith(".rs"):
                    s = s.split("#[cfg(test)]")[0]
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|128|size))?(?![\w.])", s):
                    try:
                        v = int(m.group(1).replace("_", "") or "x", 0)
                    except ValueError:
                        continue
                    if v < 2 ** 64:
                        nums.add(v)
                for m in re.finditer(r"1(?:_?u\w+)?\s*<<\s*(\d+)", s):
                    if int(m.group(1)) < 64:
                        nums.add(1 << int(m.group(1)))
                # sizes written as products, and how many records a size in bytes is
                for m in re.finditer(r"\d[\d_]*(?:\s*\*\s*\d[\d_]*)+", s):
                    v = 1
                    for x in m.group(0).replace("_", "").split("*"):
                        v *= int(x)
                    if v < 2 ** 64:
                        nums.add(v)
    nums |= {v // k for v in nums for k in (8, 16, 24) if 256 <= v < 2 ** 24 and v % k == 0}
    # prefer the unusual
    keep = sorted(nums, reverse=True)[:300]
    with open(path, "w") as f:
        f.write("\n".join(map(str, keep)) + "\n")
    return path


# ------------------------------------------------------------------ workers

class Engine:
    """One way of running cases: command prefix, environment, what its crashes mean."""
    def __init__(self, name, cmd, env=None, aux="", extra=(), kind="rust"):
        self.name, self.cmd, self.env, self.aux, self.extra, self.kind = name, cmd, env or {}, aux, list(extra), kind

    def argv(self, mode, pid, **kw):
        a = list(self.cmd) + [mode, pid]
        for k, v in kw.items():
            a += ["--" + k.replace("_", "-"), str(v)]
        if self.aux and self.kind != "py":
            a += ["--aux", self.aux]
        return a + self.extra

    def run(self, argv, stdout, stderr, timeout, cwd=None):
        e = dict(os.environ)
        e.update(self.env)
        p = subprocess.Popen(argv, stdout=stdout, stderr=stderr, env=e, cwd=HARNESS if self.kind == "miri" else cwd, start_new_session=True)
        end = time.time() + timeout
        quiet = []
        while True:
            try:
                p.wait(1)
                return p.returncode
            except subprocess.TimeoutExpired:
                pass
            # Nobody in a worker ever waits for time to pass: all of its threads asleep for long
            # are waiting for each other. (Miri finds that itself.)
            if self.kind != "miri":
                now = asleep(p.pid)
                quiet = quiet + [(time.time(), now)] if now is not None else []
                if quiet and quiet[-1][0] - quiet[0][0] > 40 and len(quiet) > 30:
                    if quiet[-1][1] - quiet[0][1] <= 20:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return DEADLOCK
                    quiet = quiet[1:]
            if time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return None


DEADLOCK = 7001


def asleep(group):
    """CPU ticks used so far by the process group if each of its threads is asleep, else None."""
    ticks = n = 0
    for pid in filter(str.isdigit, os.listdir("/proc")):
        try:
            if int(open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()[2]) != group:
                continue
            for t in os.listdir(f"/proc/{pid}/task"):
                f = open(f"/proc/{pid}/task/{t}/stat").read().rsplit(")", 1)[1].split()
                if f[0] not in "SZ":
                    return None
                ticks += int(f[11]) + int(f[12])
                n += 1
        except (OSError, IndexError, ValueError):
            continue
    return ticks if n else None


DEFINITIVE = ("GXALLOC-VIOLATION", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "Data race detected", "program deadlocked")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.run_dir = tempfile.mkdtemp(prefix=f"gx-{pid}-", dir=B)
        self.dict = dictionary(os.path.join(self.run_dir, "dict"))
        self.violations, self.trouble, self.results = [], [], []

    # which engines, with how many workers and seconds each
    def engines(self):
        p, thorough = self.pid, self.tier == "thorough"
        secs = int(os.environ.get("GX_SECONDS", 0)) or (400 if thorough else 25)
        if p in PYTHON_PROPS:
            pkg = b_pypkg(p)
            return [(Engine("python", [sys.executable, ROOT + "/pydriver/driver.py"], extra=["--pkg", pkg], kind="py"), 8, secs, None)]
        jobs = dict(checked=lambda: b_harness("checked"), release=lambda: b_harness("release"))
        if p == "C21":
            jobs.update(py=lambda: b_pypkg(p))
        if p in ("C13", "C14"):
            jobs.update(plain=b_cdriver, asan=b_cdriver_asan)
        if p == "C18":
            jobs.update(tsan=b_tsan)
        if p in ("C13", "C18"):
            jobs.update(miri=b_miri)
        r = parallel(**jobs)
        log(f"built in {time.time() - self.t0:.1f} s")
        aux = f"plain={r['plain']};asan={r['asan']}" if "plain" in r else ""
        ck, rl = Engine("checked", [r["checked"]], aux=aux), Engine("release", [r["release"]], aux=aux)
        if p == "C18":
            ts = Engine("tsan", [r["tsan"]], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}, aux="tsan", kind="tsan")
            return [(ck, 1, secs, None), (rl, 1, secs, None), (ts, 3, secs, None)] + self.miri(3, secs)
        if p == "C13":
            return [(ck, 3, secs, None), (rl, 3, secs, None)] + self.miri(2, secs)
        if p == "C21":
            py = Engine("python", [sys.executable, ROOT + "/pydriver/driver.py"], extra=["--pkg", r["py"]], kind="py")
            return [(ck, 3, secs, None), (rl, 3, secs, None), (py, 2, secs, None)]
        return [(ck, 4, secs, None), (rl, 4, secs, None)]

    def miri(self, n, secs):
        out = []
        for i in range(n):
            s = (self.seed * 31 + i) % 2 ** 31
            # tree borrows: the current aliasing model; both models where they agree matter little here
            flags = f"-Zmiri-disable-isolation -Zmiri-seed={s} -Zmiri-preemption-rate={[0.01, 0.1, 0.4][i % 3]}"
            env = dict(MIRI_ENV, MIRIFLAGS=flags)
            env["CARGO_TARGET_DIR"] = f"{B}/miri"
            out.append((Engine(f"miri{i}", ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--no-default-features", "--"], env=env, kind="miri"), 1, secs, None))
        return out

    def work(self):
        plan = self.engines()
        jobs = []
        base = 0
        total = sum(n for _, n, _, _ in plan)
        for e, n, secs, mx in plan:
            for i in range(n):
                jobs.append((e, base, f"{e.name}-{i}", secs, mx))
                base += 1
        ts = [threading.Thread(target=self.worker, args=(*j, total)) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]

    def worker(self, e, shard, tag, secs, mx, total):
        try:
            self.worker_(e, shard, tag, secs, mx, total)
        except Exception as x:
            self.trouble.append(f"{tag}: {x!r}")

    def common(self, e):
        kw = dict(seed=self.seed, dict=self.dict)
        if e.kind != "py":
            kw.update(tier=self.tier)
            # CPU seconds one case may take; cases take milliseconds
            kw["cpu_limit"] = 100000 if e.kind in ("miri", "tsan") else 45 if self.tier == "quick" else 240
        return kw

    def worker_(self, e, shard, tag, secs, mx, total):
        name = f"{self.run_dir}/{self.pid}-{tag}"
        kw = self.common(e)
        kw.update(shard=shard, nshards=total, seconds=secs, min=3 if e.kind == "miri" else 20, out=self.run_dir, tag=tag)
        if mx:
            kw["max"] = mx
        argv = e.argv("run", self.pid, **kw)
        with open(name + ".out", "w") as so, open(name + ".err", "w") as se:
            rc = e.run(argv, so, se, secs * 3 + 240)
        err = tail(name + ".err")
        res = None
        if os.path.exists(name + ".json"):
            try:
                res = json.load(open(name + ".json"))
            except ValueError:
                res = None
        if res is not None and rc in (0, 1, 3):
            res["tag"], res["engine"] = tag, e.name
            self.results.append(res)
            if res["bug"]:
                self.trouble.append(f"{tag}: harness: {res['bug']}")
            if res["failure"]:
                self.violations.append(dict(engine=e, case=res["failure"]["case"], message=res["failure"]["message"], shard=shard, total=total))
            return
        # it ended without a result: who was it?
        try:
            case = int.from_bytes(open(name + ".state", "rb").read(8), "little")
        except OSError:
            self.trouble.append(f"{tag}: did not start: {err[-600:]}")
            return
        if rc == DEADLOCK:
            self.violations.append(dict(engine=e, case=case, message=f"deadlock: every thread asleep, none of them ever to wake ({err[-300:].strip()})"))
            return
        definitive = next((l.strip() for l in full(name + ".err").splitlines() if any(d in l for d in DEFINITIVE)), None)
        what = describe(rc)
        log(f"{tag}: worker ended with {what} in case {case}; running the case again")
        if rc == -signal.SIGKILL or rc is None:
            self.trouble.append(f"{tag}: {what} in case {case}")
            return
        v = self.replay(e, case)
        if v is not None:
            self.violations.append(dict(engine=e, case=case, message=v))
        elif definitive:
            self.violations.append(dict(engine=e, case=case, message=f"{definitive} ({what}; seen once, not on replay alone)"))
        else:
            # perhaps earlier cases matter: the same worker up to that case
            kw2 = dict(kw, seconds=0, min=(case - shard) // total + 1, max=(case - shard) // total + 1, tag=tag + "-again")
            with open(name + ".out2", "w") as so, open(name + ".err2", "w") as se:
                rc2 = e.run(e.argv("run", self.pid, **kw2), so, se, secs * 4 + 240)
            if rc2 is not None and (rc2 < 0 and rc2 != -9 or rc2 == rc != 0):
                self.violations.append(dict(engine=e, case=case, message=f"{describe(rc2)}, again when the worker's cases were repeated: {tail(name + '.err2')[-400:]}"))
            else:
                self.trouble.append(f"{tag}: {what} in case {case}, not seen again: {err[-600:]}")

    def replay(self, e, case):
        """The violation's description if running the case alone shows one, else None."""
        kw = self.common(e)
        kw.update(case=case)
        f = tempfile.NamedTemporaryFile("w+", dir=self.run_dir, delete=False)
        rc = e.run(e.argv("replay", self.pid, **kw), f, f, 900 if self.tier == "thorough" else 240)
        f.seek(0)
        out = f.read()
        f.close()
        if rc == 1 and "RESULT violation:" in out:
            return out.split("RESULT violation:", 1)[1].strip()[:2000]
        for l in out.splitlines():
            if any(d in l for d in DEFINITIVE):
                return l.strip()
        if rc == 77:
            return "hang: " + tail_of(out)
        if rc == DEADLOCK:
            return "deadlock: every thread asleep: " + tail_of(out)
        if rc is not None and rc < 0 and rc != -signal.SIGKILL:
            return f"{describe(rc)}: {tail_of(out)}"
        return None

    def replay_history(self, e, case, shard, total):
        """Like `replay`, with the cases that the worker had run before."""
        k = (case - shard) // total + 1
        kw = dict(self.common(e), shard=shard, nshards=total, seconds=0, min=k, max=k, out=self.run_dir, tag="again")
        e.run(e.argv("run", self.pid, **kw), subprocess.DEVNULL, subprocess.DEVNULL, 3000)
        try:
            f = json.load(open(f"{self.run_dir}/{self.pid}-again.json"))["failure"]
        except (OSError, ValueError):
            return "the worker died before it was through with its cases"
        return f and f"case {f['case']}: {f['message']}"

    def finish(self):
        os.makedirs(EVID + "/replay", exist_ok=True)
        rs = self.results
        ev, skips, samples = {}, {}, []
        for r in rs:
            for k, v in r["events"].items():
                ev[k] = ev.get(k, 0) + v
            for k, v in r["skips"].items():
                skips[k] = skips.get(k, 0) + v
        for r in rs:
            samples += [f"[{r['tag']}] {s}" for s in r["samples"][:2]]
        distinct = set()
        for r in rs:
            try:
                b = open(f"{self.run_dir}/{self.pid}-{r['tag']}.hash", "rb").read()
            except OSError:
                continue
            if len(distinct) < 8_000_000:
                distinct.update(b[i:i + 8] for i in range(0, len(b), 8))
        cases, nontriv = sum(r["cases"] for r in rs), sum(r["nontrivial"] for r in rs)
        skipped = sum(skips.values())
        engines = {}
        for r in rs:
            x = engines.setdefault(r["engine"], {"workers": 0, "cases": 0, "nontrivial": 0})
            x["workers"] += 1
            x["cases"] += r["cases"]
            x["nontrivial"] += r["nontrivial"]
        if not rs or cases == 0:
            self.trouble.append("no cases were run")
        elif skipped > cases / 2 and not self.violations:
            self.trouble.append(f"{skipped} of {cases} cases could not be set up: {skips}")
        elif len(distinct) == 0 and not self.violations:
            self.trouble.append("no non-trivial case was run")
        rule, nt = RULES[self.pid]
        known = json.load(open(ROOT + "/known-findings.json"))
        listed = [k for k in known["known"] if k["property"] == self.pid]
        for v in self.violations:
            v["known"] = next((k for k in listed if re.search(k["message_pattern"], v["message"])), None)
        fresh = [v for v in self.violations if not v["known"]]
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": cases, "distinct_nontrivial": len(distinct), "nontrivial": nontriv,
                "rule": f"{rule}. A case is non-trivial when: {nt}; distinct cases are counted by a hash of what was generated.",
                "samples": samples[:10], "events_observed": dict(sorted(ev.items())), "not_set_up": skips, "engines": engines,
                "inconclusive": self.trouble, "dictionary_size": sum(1 for _ in open(self.dict)),
                "harness_sha256": tree_hash(),
            },
            "assumptions": ["the reference model, independent codec and renderer in /verif/harness and /verif/pydriver",
                            "rustc, clang and the sanitizer/Miri runtimes", "executions produced, not all executions"],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        with open(f"{EVID}/{self.pid}.json", "w") as f:
            json.dump(evidence, f, indent=1)
        for k in listed:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for t in self.trouble:
            log("no verdict from", t)
        log(f"{self.pid}: {cases} cases, {len(distinct)} distinct non-trivial, {evidence['wall_s']} s")
        if fresh:
            v = fresh[0]
            e = v["engine"]
            path = f"{EVID}/replay/{self.pid}-{self.seed}-{v['case']}.json"
            shutil.copy(self.dict, path + ".dict")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "case": v["case"], "engine": e.name,
                           "shard": v.get("shard"), "nshards": v.get("total"), "message": v["message"], "dict": path + ".dict",
                           "others": [{"engine": w["engine"].name, "case": w["case"], "message": w["message"]} for w in fresh[1:9]]}, f, indent=1)
            print(v["message"][:1500])
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        if self.trouble:
            for t in self.trouble:
                print("INCONCLUSIVE:", t[:1500])
            return 2
        return 0


def describe(rc):
    if rc is None:
        return "a time limit"
    if rc == -signal.SIGPROF:
        return "the CPU limit of one case"
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal {-rc}"
    return {77: "the CPU limit of one case", DEADLOCK: "a deadlock", 66: "a sanitizer report"}.get(rc, f"status {rc}")


def full(p):
    try:
        return open(p, errors="replace").read()[-2_000_000:]
    except OSError:
        return ""


def tail_of(s):
    return " | ".join(s.strip().splitlines()[-4:])[-800:]


def tail(p):
    return tail_of(full(p))


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(HARNESS)):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(ROOT + "/pydriver/driver.py", "rb").read())
    return h.hexdigest()


def main():
    os.makedirs(B, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if sys.argv[1:2] == ["--setup"]:
        for t in ("rustc", "cargo", "clang", "python3"):
            if not shutil.which(t):
                print("missing tool", t)
                return 1
        # A warm-up only: every check builds what it needs from the tree it finds.
        for jobs in (dict(checked=lambda: b_harness("checked"), release=lambda: b_harness("release")),
                     dict(plain=b_cdriver, asan=b_cdriver_asan, py=lambda: b_pypkg("C16")), dict(tsan=b_tsan, miri=b_miri)):
            try:
                parallel(**jobs)
            except NoVerdict as e:
                print(e)
        return 0
    replay = None
    if sys.argv[1:2] == ["--replay"]:
        replay = json.load(open(sys.argv[2]))
        pid, tier, seed = replay["property"], replay["tier"], replay["seed"]
    else:
        pid = sys.argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            tier = "thorough"
        seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in IDS or tier not in ("quick", "thorough"):
        print("usage: check.py <ID>")
        return 2
    # leave nothing of an earlier run behind to be mistaken for this one's
    ck = Check(pid, tier, seed)
    try:
        if replay:
            ck.dict = replay["dict"]
            e = next(e for e, *_ in ck.engines() if e.name == replay["engine"])
            v = ck.replay(e, replay["case"])
            if v is None and replay.get("nshards"):
                log("not seen when the case is run alone; running the worker's cases up to it")
                v = ck.replay_history(e, replay["case"], replay["shard"], replay["nshards"])
            print("violation: " + v if v else "held")
            return 1 if v else 0
        try:
            os.remove(f"{EVID}/{pid}.json")
        except OSError:
            pass
        ck.work()
        return ck.finish()
    except NoVerdict as e:
        print("INCONCLUSIVE:", e)
        return 2
    finally:
        shutil.rmtree(ck.run_dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
