#!/usr/bin/env python3
"""Driver of the property checks.

  check.py C01              run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE    run one saved case again
  check.py --setup          build everything once (warms the build cache)

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Any other exit: the check itself could not give an answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
PKG = "github.com/fadhilkurnia/shamir"
CPUS = os.cpu_count() or 4
CASE_LIMIT = 90          # seconds one case may take before it is called a hang ...
CONFIRM_LIMIT = 240      # ... after it has run again, alone, with this limit

ASSUMPTIONS = [
    "amd64 and 386 run natively; of arm64, the vector routines run in an interpreter and the rest as on amd64",
    "the reference field, Lagrange, Reed-Solomon and OFB code in harness/ref is right (it is checked against the code under test and against the standard library's AES by these same checks)",
    "exploration by generated cases: what was not generated was not checked",
]


# Builds that checks do without where they cannot be had.
OPTIONAL = {"386": "32-bit", "neon": "arm64"}


class Inconclusive(Exception):
    pass


def env_for(config, tmp):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["GOTOOLCHAIN"] = "local"
    e["GOFLAGS"] = "-mod=readonly"
    e["GOPROXY"] = "off"
    e["GOSUMDB"] = "off"
    e["GOWORK"] = "off"
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GODEBUG", None)
    e["GOTRACEBACK"] = "all"
    e["TMPDIR"] = tmp
    e["VERIF_NEON"] = os.path.join(tmp, "arm64.elf")
    e["VERIF_CPU"] = config if config in ("ssse3", "sse2", "scalar") else "native"
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    return e


def build(kind, tmp):
    """Builds a worker; returns its path, or for the 32-bit build the reason why
    there is none."""
    out = os.path.join(tmp, "worker-" + kind)
    cmd = ["go", "build", "-o", out]
    env = env_for("native", tmp)
    if kind == "noasm":
        cmd += ["-tags", "noasm"]
    elif kind == "race":
        cmd += ["-race"]
    elif kind == "386":
        env.update(GOARCH="386", CGO_ENABLED="0")
    elif kind == "neon":
        flags = build_neon(env, tmp)
        if isinstance(flags, Missing):
            return flags
        cmd += flags
    cmd.append("./cmd/worker")
    p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
    if kind in OPTIONAL:
        if p.returncode != 0 and re.search(r"^# averif(/|$)", p.stderr, re.M):
            raise Inconclusive("the harness itself does not build (%s):\n%s" % (kind, p.stdout + p.stderr))
        if p.returncode != 0:
            return Missing("%s: the build fails:\n%s" % (OPTIONAL[kind], p.stdout + p.stderr), kind == "386" and in_repo(p.stderr))
        try:
            q = subprocess.run([out, "-mode", "list"], env=env_for(kind, tmp), capture_output=True, text=True)
            if q.returncode != 0:
                return Missing("%s: does not run here (exit %d) %s" % (OPTIONAL[kind], q.returncode, q.stderr[-500:]))
        except OSError as e:
            return Missing("%s: does not run here (%s)" % (OPTIONAL[kind], e))
    if p.returncode != 0:
        raise Inconclusive("the harness does not build against /repo (%s):\n%s" % (kind, p.stdout + p.stderr))
    return out


def in_repo(err):
    """Whether the compiler complains about a package of the code under test."""
    return bool(re.search(r"^# " + re.escape(PKG) + r"(/|$)", err, re.M))


def build_neon(env, tmp):
    """The arm64 files of galois stand in for the amd64 ones, and their assembly
    routines become calls of an interpreter (harness/neon), which takes their
    machine code from a program linked for arm64. Returns flags of go build."""
    arm = dict(env, GOOS="linux", GOARCH="arm64", CGO_ENABLED="0")
    elf = os.path.join(tmp, "arm64.elf")
    p = subprocess.run(["go", "build", "-o", elf, "./cmd/armprobe"], cwd=HARNESS, env=arm, capture_output=True, text=True)
    if p.returncode != 0:
        return Missing("arm64: the build fails:\n" + p.stdout + p.stderr, in_repo(p.stderr))
    files = {}
    for arch, e in (("amd64", env), ("arm64", arm)):
        p = subprocess.run(["go", "list", "-json=Dir,GoFiles,SFiles", PKG + "/galois"], cwd=HARNESS, env=e, capture_output=True, text=True)
        if p.returncode != 0:
            return Missing("arm64: go list fails: " + p.stderr)
        j = json.loads(p.stdout)
        files[arch] = set((j.get("GoFiles") or []) + (j.get("SFiles") or []))
    at = j["Dir"]
    replace = {os.path.join(at, f): "" for f in files["amd64"] - files["arm64"]}
    asm, go, names = [], [], []
    for i, f in enumerate(sorted(files["arm64"] - files["amd64"])):
        if not f.endswith(".go"):
            continue
        with open(os.path.join(at, f)) as fh:
            text = fh.read()
        text = re.sub(r"(?m)^//(go:build| *\+build) .*$", "//", text)
        for m in re.finditer(r"(?m)^func +(\w+)\((.*)\)([^\n{]*)$", text):
            name, params, result = m.group(1), m.group(2), m.group(3).split("//")[0].strip()
            q = re.fullmatch(r"\s*(\w+(?:\s*,\s*\w+)*)\s+\[\](?:byte|uint8)\s*", params)
            if q is None or result:
                return Missing("arm64: the interpreter cannot call %s(%s)" % (name, params))
            args = [a.strip() for a in q.group(1).split(",")]
            names.append(name)
            asm.append("TEXT ·%s(SB), 0, $0-%d\n\tJMP ·verifNEON_%s(SB)\n" % (name, 24 * len(args), name))
            go.append('func verifNEON_%s(%s []byte) { VerifNEON("%s", %s) }\n' % (name, ", ".join(args), name, ", ".join(args)))
        copy = os.path.join(tmp, "neon%d.go" % i)
        with open(copy, "w") as fh:
            fh.write(text)
        replace[os.path.join(at, "zz_verif_neon%d.go" % i)] = copy
    glue = os.path.join(tmp, "neon_glue")
    with open(glue + ".go", "w") as fh:
        fh.write("package galois\n\nvar VerifNEON func(name string, args ...[]byte)\n\nvar VerifNEONNames = []string{%s}\n\n%s" % (
            ", ".join('"%s"' % n for n in names), "\n".join(go)))
    with open(glue + ".s", "w") as fh:
        fh.write("\n".join(asm))
    replace[os.path.join(at, "zz_verif_neon.go")] = glue + ".go"
    replace[os.path.join(at, "zz_verif_neon.s")] = glue + ".s"
    overlay = os.path.join(tmp, "neon_overlay.json")
    with open(overlay, "w") as fh:
        json.dump({"Replace": replace}, fh)
    return ["-tags", "verifneon", "-overlay", overlay]


def kind_of(config):
    return config if config in ("noasm", "race", "386", "neon") else "default"


class Missing(str):
    """Why a build that is not needed everywhere is missing."""

    def __new__(cls, text, in_repo=False):
        m = super().__new__(cls, text)
        m.in_repo = in_repo
        return m


class Run:
    def __init__(self, tmp):
        self.tmp = tmp
        self.bins = {}
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False
        self.seq = 0

    def need(self, kinds):
        kinds = [k for k in kinds if k not in self.bins]
        with cf.ThreadPoolExecutor(3) as ex:
            for k, b in zip(kinds, ex.map(lambda k: build(k, self.tmp), kinds)):
                self.bins[k] = b

    def worker(self, config, args, timeout, env_extra=None):
        """Runs one worker; returns (rc, result or None, stderr tail, cur-case path)."""
        with self.lock:
            self.seq += 1
            n = self.seq
        base = os.path.join(self.tmp, "j%d" % n)
        out, cur, err = base + ".out", base + ".cur", base + ".err"
        cmd = [self.bins[kind_of(config)], "-config", config, "-out", out, "-cur", cur] + args
        env = env_for(config, self.tmp)
        env.update(env_extra or {})
        if config == "onecpu":
            env["GOMAXPROCS"] = "1"
            if shutil.which("taskset"):
                cpus = sorted(os.sched_getaffinity(0))
                cmd = ["taskset", "-c", str(cpus[n % len(cpus)])] + cmd
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, env=env, cwd=self.tmp, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                self.kill(p)
                rc = "timeout"
            finally:
                with self.lock:
                    self.procs.discard(p)
        res = None
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        with open(err, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(0)
            head = f.read(20000).decode("utf8", "replace")
            if size > 40000:
                f.seek(size - 20000)
                head += "\n...\n" + f.read().decode("utf8", "replace")
            elif size > 20000:
                head += f.read().decode("utf8", "replace")
        return rc, res, head, cur

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def kill_all(self):
        self.stop = True
        with self.lock:
            ps = list(self.procs)
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def judge_death(self, config, rc, err, cur):
        """A worker died. Returns a violation envelope, or raises Inconclusive."""
        env = None
        try:
            with open(cur) as f:
                env = json.load(f)
        except (OSError, ValueError):
            pass
        if env is None:
            raise Inconclusive("a worker (%s) ended with %s before its first case:\n%s" % (config, rc, err[-4000:]))
        if rc in (-9, "timeout") or "out of memory" in err or "cannot allocate memory" in err:
            raise Inconclusive("a worker (%s) ended with %s (memory or time):\n%s" % (config, rc, err[-2000:]))
        if rc == 66 or "WARNING: DATA RACE" in err:
            if not races_in_repo(err):
                raise Inconclusive("race report without frames of the code under test:\n" + err[:6000])
            env["kind"], env["error"] = "data race", err[:6000]
            return env
        if rc == 97:
            kind = "hang"
        else:
            kind = "crash"
        # run it again alone, in a fresh process
        rp = cur + ".replay"
        env["kind"] = kind
        with open(rp, "w") as f:
            json.dump(env, f)
        again = False
        err2 = err
        for _ in range(1 if kind == "hang" else 3):
            rc2, res2, e2, _ = self.worker(config, ["-mode", "replay", "-file", rp, "-times", "3", "-limit", "%ds" % CONFIRM_LIMIT], CONFIRM_LIMIT * 3 + 60)
            if res2 is not None and res2.get("violation"):
                return res2["violation"]
            if rc2 == rc:
                again, err2 = True, e2
                break
        if kind == "hang":
            if not again and deadlocked(err):
                env["error"] = "deadlock: after %d s all goroutines are blocked:\n%s" % (CASE_LIMIT, repo_part(err))
                return env
            if not again:
                raise Inconclusive("a case ran for over %d s but ended when run alone" % CASE_LIMIT)
            env["error"] = "the case does not end within %d s:\n%s" % (CONFIRM_LIMIT, repo_part(err2))
            return env
        if again or crash_in_repo(err):
            env["error"] = "the process died (exit %s):\n%s" % (rc, repo_part(err2))
            return env
        raise Inconclusive("a worker (%s) ended with %s, not reproducible:\n%s" % (config, rc, err[:6000]))


def races_in_repo(err):
    return PKG + "/" in err


def crash_in_repo(err):
    m = re.search(r"(panic:|fatal error:|SIG[A-Z]+:).*?\n\ngoroutine .*?(\n\n|$)", err, re.S)
    return bool(m and PKG in m.group(0))


def deadlocked(err):
    """Whether the stacks of a hanging worker show the code under test blocked
    and nothing of it or of the harness running."""
    blocked = False
    for m in re.finditer(r"^goroutine \d+[^\n\[]*\[([^\]]*)\]:\n(.*?)(?=\n\n|\Z)", err, re.S | re.M):
        state, stack = m.group(1), m.group(2)
        if "(*Runner).watchdog" in stack:
            continue
        if re.match(r"(running|runnable|syscall|sleep|GC )", state):
            return False
        if PKG + "/" in stack:
            blocked = True
    return blocked


def repo_part(err):
    return err[:6000]


def list_subs(run, prop, tier):
    env = env_for("native", run.tmp)
    p = subprocess.run([run.bins["default"], "-mode", "list", "-prop", prop, "-tier", tier], env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise Inconclusive("list failed: " + p.stderr)
    return json.loads(p.stdout) or []


def make_jobs(subs, tier, seed):
    jobs = []
    for s in subs:
        shards = 1 if s["Alone"] else s["Shards"]
        if not shards:
            shards = CPUS if s["IsEnum"] else max(1, min(CPUS if tier == "quick" else 3 * CPUS, s["Checks"] // 25))
            if len(s["Configs"]) > 1 and tier == "quick" and not s["IsEnum"]:
                shards = max(1, min(shards, CPUS // 2))
            if len(s["Configs"]) > 1 and tier == "quick" and s["IsEnum"]:
                shards = max(1, CPUS // 2)
        for c in s["Configs"]:
            checks = s["Checks"]
            if (c in OPTIONAL or c == "onecpu") and not s["SameSeed"]:
                checks = -(-checks // 3)  # slow, and mostly the same code
            for i in range(shards):
                args = ["-mode", "run", "-prop", s["Prop"], "-sub", s["Name"], "-tier", tier, "-seed", str(seed), "-shard", str(i), "-shards", str(shards),
                        "-checks", str(max(1, -(-checks // shards))), "-limit", "%ds" % CASE_LIMIT]
                jobs.append((s, c, i, args))
    # longest first is unknown; interleave the sub-checks
    jobs.sort(key=lambda j: (j[2], j[0]["Name"], j[1]))
    return jobs


def report(prop, env):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    env["property"] = prop
    h = hashlib.sha256(json.dumps([env["sub"], env["config"], env["seed"], env["case"]], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, env["sub"], h))
    with open(path, "w") as f:
        json.dump(env, f, indent=1)
        f.write("\n")
    print("%s/%s [%s] %s" % (prop, env["sub"], env["config"], (env.get("error") or "")[:3000]))
    print("case: %s" % json.dumps(env["case"])[:1500])
    print("replay with: python3 %s --replay %s" % (os.path.join(VERIF, "check.py"), path))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def compare_digests(results):
    """results: (sub, config, shard) -> result. Returns a violation or None."""
    groups = {}
    for (sub, config, shard), r in results.items():
        if r.get("digests"):
            groups.setdefault((sub, shard), {})[config] = r
    bad = []
    for (sub, shard), by in groups.items():
        base = by.get("native")
        if base is None:
            continue
        for config, r in by.items():
            if len(r["digests"]) != len(base["digests"]):
                raise Inconclusive("%s: %s ran %d cases, native %d" % (sub, config, len(r["digests"]), len(base["digests"])))
            for i, (a, b) in enumerate(zip(base["digests"], r["digests"])):
                if a != b and "-" not in (a, b):
                    bad.append((len(r["cases"][i]), i, config, a, b, json.loads(r["cases"][i])))
    if not bad:
        return None
    bad.sort(key=lambda x: (x[5]["case"].get("len", 0) if isinstance(x[5]["case"], dict) else 0, x[0], x[1]))
    _, _, config, a, b, env = bad[0]
    env["kind"] = "differential"
    env["config"] = config
    env["error"] = "the results of the same case with the same random bytes differ: digest %s with config native, %s with %s (%d such cases)" % (a, b, config, len(bad))
    return env


def check(prop, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="averif-")
    budget = 780 if tier == "quick" else 4 * 3600
    run = Run(tmp)
    try:
        run.need(["default"])
        subs = list_subs(run, prop, tier)
        if not subs:
            raise Inconclusive("no sub-checks for " + prop)
        run.need(sorted({kind_of(c) for s in subs for c in s["Configs"]}))
        for kind, arch in (("386", "386"), ("neon", "arm64")):
            missing = run.bins.get(kind)
            if not isinstance(missing, Missing):
                continue
            if missing.in_repo and prop == "C19":
                env = {"sub": "build", "config": kind, "tier": tier, "seed": seed, "case": {"GOARCH": arch}, "kind": "build", "error": str(missing)}
                write_evidence(prop, tier, seed, subs, {}, env, time.time() - t0, None)
                report(prop, env)
                return 1
            print("without the configuration %s: %s" % (kind, missing[:600]), file=sys.stderr)
            for s in subs:
                s["Configs"] = [c for c in s["Configs"] if c != kind]
        jobs = make_jobs(subs, tier, seed)
        results, violation, problems = {}, None, []

        def one(job):
            s, c, i, args = job
            if run.stop:
                return None
            left = budget - (time.time() - t0)
            if left < 5:
                raise Inconclusive("time budget used up")
            rc, res, err, cur = run.worker(c, args, left)
            if run.stop:
                return None
            if res is not None:
                if res.get("harness_error"):
                    raise Inconclusive("%s [%s]: %s" % (s["Name"], c, res["harness_error"]))
                return res
            return {"violation": run.judge_death(c, rc, err, cur)}

        # what needs much memory comes last and one at a time
        for width, batch in ((CPUS, [j for j in jobs if not j[0]["Alone"]]), (1, [j for j in jobs if j[0]["Alone"]])):
            with cf.ThreadPoolExecutor(width) as ex:
                futs = {ex.submit(one, j): j for j in batch}
                for f in cf.as_completed(futs):
                    s, c, i, _ = futs[f]
                    try:
                        r = f.result()
                    except Inconclusive as e:
                        problems.append(str(e))
                        continue
                    if r is None:
                        continue
                    if r.get("violation"):
                        if violation is None:
                            violation = r["violation"]
                            run.kill_all()
                    else:
                        results[(s["Name"], c, i)] = r
        if violation is None and not problems:
            violation = compare_digests(results)
        fuzz = None
        if violation is None and not problems and tier == "thorough":
            fuzz, violation = native_fuzz(run, prop, tmp)
        write_evidence(prop, tier, seed, subs, results, violation, time.time() - t0, fuzz)
        if violation is not None:
            report(prop, violation)
            return 1
        if problems:
            for p in problems[:3]:
                print("INCONCLUSIVE %s: %s" % (prop, p), file=sys.stderr)
            return 2
        n = sum(r["evaluations"] for r in results.values())
        print("%s held on %d evaluations (%s, seed %d, %.1f s)" % (prop, n, tier, seed, time.time() - t0))
        return 0
    except Inconclusive as e:
        print("INCONCLUSIVE %s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        run.kill_all()
        shutil.rmtree(tmp, ignore_errors=True)


# Coverage-guided campaigns of the thorough tier: property -> (target, seconds).
FUZZ = {
    "C01": [("FuzzShamirRoundtrip", 240)],
    "C05": [("FuzzShamirCombine", 600)],
    "C06": [("FuzzRegenerate", 600)],
    "C07": [("FuzzSSMSRoundtrip", 240)],
    "C09": [("FuzzSSMSCombine", 600), ("FuzzSSMSMutate", 600)],
    "C10": [("FuzzCSPRNG", 240)],
    "C13": [("FuzzVector", 240)],
}


def native_fuzz(run, prop, tmp):
    stats = []
    for target, secs in FUZZ.get(prop, []):
        secs = int(os.environ.get("VERIF_FUZZ_SECONDS", secs))
        cache = os.path.join(tmp, "fuzzcache-" + target)
        wd = os.path.join(tmp, "fuzzwd-" + target)
        os.makedirs(wd)
        failfile = os.path.join(tmp, "fuzzfail-" + target)
        binp = os.path.join(tmp, "fuzz.test")
        env = env_for("native", tmp)
        env["VERIF_FUZZ_FAIL"] = failfile
        if not os.path.exists(binp):
            # go test -c leaves coverage instrumentation out unless -fuzz is given
            p = subprocess.run(["go", "test", "-c", "-fuzz", "Fuzz", "-o", binp, "./fuzz"], cwd=HARNESS, env=env, capture_output=True, text=True)
            if p.returncode != 0:
                raise Inconclusive("fuzz targets do not build: " + p.stdout + p.stderr)
        p = subprocess.run([binp, "-test.run", "^$", "-test.fuzz", "^" + target + "$", "-test.fuzztime", "%ds" % secs,
                            "-test.fuzzcachedir", cache, "-test.fuzzminimizetime", "10s", "-test.parallel", str(CPUS)],
                           cwd=wd, env=env, capture_output=True, text=True, timeout=secs + 300)
        execs = re.findall(r"execs: (\d+)", p.stdout + p.stderr)
        interesting = re.findall(r"new interesting: (\d+)", p.stdout + p.stderr)
        stats.append({"target": target, "seconds": secs, "execs": int(execs[-1]) if execs else 0,
                      "new_interesting": int(interesting[-1]) if interesting else 0})
        if p.returncode != 0:
            if os.path.exists(failfile):
                with open(failfile) as f:
                    return stats, json.load(f)
            raise Inconclusive("%s failed without a saved case:\n%s" % (target, (p.stdout + p.stderr)[-4000:]))
    return stats, None


def write_evidence(prop, tier, seed, subs, results, violation, wall, fuzz):
    evals, hashes, bulk = 0, set(), 0
    per, samples, rules = {}, [], []
    classes = {}
    bulk_seen = {}
    for s in subs:
        rules.append("%s: %s" % (s["Name"], s["Rule"]))
    for (sub, config, shard), r in sorted(results.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2])):
        evals += r["evaluations"]
        hashes.update(r.get("hashes") or [])
        # an enumeration gives every configuration the same inputs: count them once
        key = (sub, shard)
        bulk_seen[key] = max(bulk_seen.get(key, 0), r["bulk_nontrivial"])
        d = per.setdefault(sub, {"evaluations": 0, "by_config": {}, "wall_s": 0.0, "slowest_case_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["by_config"][config] = d["by_config"].get(config, 0) + r["evaluations"]
        d["wall_s"] = round(d["wall_s"] + r["wall_s"], 2)
        d["slowest_case_s"] = round(max(d["slowest_case_s"], r["max_case_s"]), 3)
        c = classes.setdefault(sub, {})
        for k, v in (r.get("classes") or {}).items():
            c[k] = c.get(k, 0) + v
        if shard == 0 and len([x for x in samples if x["sub"] == sub]) < 3:
            for x in (r.get("samples") or [])[:3]:
                samples.append({"sub": sub, "config": config, "case": x})
    if violation is not None and not samples:
        samples.append({"sub": violation["sub"], "config": violation["config"], "case": json.dumps(violation["case"])[:700]})
    bulk = sum(bulk_seen.values())
    if violation is not None and evals == 0:
        evals = 1
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(hashes) + bulk,
        "rule": " | ".join(rules),
        "samples": samples,
        "per_sub_check": per,
        "classes": classes,
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(path):
    tmp = tempfile.mkdtemp(prefix="averif-")
    run = Run(tmp)
    try:
        with open(path) as f:
            env = json.load(f)
        path = os.path.abspath(path)
        run.need(["default", kind_of(env["config"])])
        missing = run.bins[kind_of(env["config"])]
        if isinstance(missing, Missing):
            print(missing)
            if missing.in_repo and env.get("kind") == "build":
                print("VIOLATION property=%s replay=%s" % (env["property"], path))
                return 1
            return 2
        if env.get("kind") == "build":
            print("it builds")
            return 0
        configs = [env["config"]]
        if env.get("kind") == "differential":
            configs = ["native"] + configs
        times = "200" if env.get("kind") == "data race" else "3"
        digests = []
        for c in configs:
            rp = os.path.join(tmp, "replay-%s.json" % c)
            with open(rp, "w") as f:
                json.dump(dict(env, config=c), f)
            rc, res, err, cur = run.worker(c, ["-mode", "replay", "-file", rp, "-times", times, "-limit", "%ds" % CONFIRM_LIMIT], 900)
            if res is None:
                print(err[-6000:])
                print("the worker ended with %s" % rc)
                print("VIOLATION property=%s replay=%s" % (env["property"], path))
                return 1
            if res.get("harness_error"):
                print(res["harness_error"])
                return 2
            if res.get("violation"):
                print(res["violation"]["error"])
                print("VIOLATION property=%s replay=%s" % (env["property"], path))
                return 1
            digests.append((res.get("digests") or [None])[0])
        if len(digests) == 2 and digests[0] != digests[1] and "-" not in digests:
            print("digest %s with %s, %s with %s" % (digests[0], configs[0], digests[1], configs[1]))
            print("VIOLATION property=%s replay=%s" % (env["property"], path))
            return 1
        print("the case passes")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="averif-")
        try:
            Run(tmp).need(["default", "noasm", "race", "386", "neon"])
        except Inconclusive as e:
            print(e, file=sys.stderr)
            return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if len(sys.argv) != 2:
        print(__doc__, file=sys.stderr)
        return 2
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(sys.argv[1], tier, seed & (2**63 - 1))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # never let a traceback look like a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
