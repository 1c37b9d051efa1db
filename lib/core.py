"""Building and running the monitors, and turning what they saw into a verdict."""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
EVID = os.path.join(VERIF, "evidence")
SHARDS = 8
GIB = 1 << 30


class Inconclusive(Exception):
    pass


class BuildError(Exception):
    def __init__(self, text):
        super().__init__(text[-3000:])
        self.text = text


def known_findings():
    """Lines 'known: property=<id> key=<key> <text>' and 'fixed: ...' (the latter suppress nothing)."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m[1], m[2])] = m[3].strip()
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.stages = []
        self.violations = []
        self.known_seen = {}
        self.notes = []
        self.rule = ""
        self.assumptions = []
        self.exhaustive = None
        self.extra = {}

    # -- environment ---------------------------------------------------------------------
    def env(self, toolchain="stable-x86_64-unknown-linux-gnu", **extra):
        e = {
            "HOME": "/root",
            "PATH": "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin",
            "RUSTUP_TOOLCHAIN": toolchain,
            "CARGO_NET_OFFLINE": "true",
            "CARGO_INCREMENTAL": "0",
            "CARGO_TERM_COLOR": "never",
            "RUSTC_WRAPPER": "",
            "LANG": "C.UTF-8",
            "CARGO_TARGET_DIR": TARGET,
            # const-random draws the hash seed of the crate from here at build time
            "CONST_RANDOM_SEED": f"frozen-collections-{self.seed}",
        }
        e.update({k: str(v) for k, v in extra.items()})
        return e

    # -- building ------------------------------------------------------------------------
    def build(self, bin_, features=(), toolchain=None, env=None, target=None, crate=HARNESS, target_dir=None, release=False, timeout=700):
        """Builds a monitor from /repo's working tree; BuildError when it doesn't compile."""
        e = self.env(toolchain) if toolchain else self.env()
        e.update(env or {})
        if target_dir:
            e["CARGO_TARGET_DIR"] = target_dir
        cmd = ["cargo", "build", "--offline", "--locked", "-q"]
        if bin_:
            cmd += ["--bin", bin_]
        if features:
            cmd += ["--features", ",".join(features)]
        if target:
            cmd += ["--target", target]
        if release:
            cmd += ["--release"]
        # two cargos creating nested target directories at the same time get in each other's way
        os.makedirs(e["CARGO_TARGET_DIR"], exist_ok=True)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive(f"building {bin_} took over {timeout} s")
        if p.returncode:
            raise BuildError(p.stdout)
        self.stages.append({"stage": f"build {bin_}", "s": round(time.time() - t, 1)})
        d = os.path.join(e["CARGO_TARGET_DIR"], *([target] if target else []), "release" if release else "debug")
        return os.path.join(d, bin_) if bin_ else d

    def both(self, *a, **k):
        """The monitor built twice: with the debug checks of a development build, and optimised without them, as users ship it."""
        plain = dict(k)
        plain["env"] = {
            **(k.get("env") or {}),
            "CARGO_PROFILE_DEV_OPT_LEVEL": "2",
            "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
            "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false",
        }
        plain["target_dir"] = os.path.join(TARGET, "plain")
        os.makedirs(plain["target_dir"], exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            futs = [ex.submit(self.build, *a, **k), ex.submit(self.build, *a, **plain)]
            exes = [f.result() for f in futs]
        self.extra["builds"] = ["debug assertions and overflow checks on", "optimised, debug assertions and overflow checks off"]
        return exes

    # -- instrumented builds -------------------------------------------------------------
    NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
    TRIPLE = "x86_64-unknown-linux-gnu"

    def sanitized(self, bin_, kind, features=(), std=True, env=None):
        """The monitor and /repo's crates, and possibly the standard library, built with a compiler sanitizer."""
        e = self.env(self.NIGHTLY, RUSTFLAGS=f"-Zsanitizer={kind}", CARGO_TARGET_DIR=os.path.join(TARGET, kind))
        e.update(env or {})
        cmd = ["cargo", "build", *(["-Zbuild-std"] if std else []), "--target", self.TRIPLE, "--offline", "--locked", "-q", "--bin", bin_]
        if features:
            cmd += ["--features", ",".join(features)]
        os.makedirs(e["CARGO_TARGET_DIR"], exist_ok=True)
        t = time.time()
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        if p.returncode:
            sys.stderr.write(p.stdout[-6000:])
            raise Inconclusive(f"{bin_} does not compile with -Zsanitizer={kind}")
        self.stages.append({"stage": f"build {bin_} with -Zsanitizer={kind}", "s": round(time.time() - t, 1)})
        return os.path.join(TARGET, kind, self.TRIPLE, "debug", bin_)

    def miri(self, bin_, flags="", features=()):
        """The command line, for a shard, of the monitor interpreted by Miri."""
        e = self.env(self.NIGHTLY, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"))
        os.makedirs(e["CARGO_TARGET_DIR"], exist_ok=True)

        def cmd(i):
            miriflags = f"-Zmiri-disable-isolation -Zmiri-seed={self.seed * 64 + i} -Zmiri-ignore-leaks {flags(i) if callable(flags) else flags}"
            return (
                ["env"] + [f"{k}={v}" for k, v in e.items()] + ["MIRIFLAGS=" + miriflags, "cargo", "miri", "run", "--offline", "--locked", "-q"]
                + ["--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", bin_]
                + (["--features", ",".join(features)] if features else [])
                + ["--"]
            )

        return cmd

    def foreign(self, bin_, triple, features=(), env=None, flags=""):
        """The command line, for a shard, of the monitor compiled for another kind of machine and interpreted by Miri, as to its results only."""
        home = os.path.join(TARGET, "foreign-" + triple)
        e = self.env(self.NIGHTLY, CARGO_TARGET_DIR=os.path.join(home, "target"), XDG_CACHE_HOME=os.path.join(home, "cache"))
        e.update(env or {})
        os.makedirs(e["CARGO_TARGET_DIR"], exist_ok=True)
        os.makedirs(e["XDG_CACHE_HOME"], exist_ok=True)
        t = time.time()
        base = ["--offline", "--locked", "-q", "--target", triple, "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", bin_]
        base += ["--features", ",".join(features)] if features else []
        p = subprocess.run(["cargo", "miri", "setup", "-q", "--target", triple], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, cwd=self.work)
        if p.returncode:
            sys.stderr.write(p.stdout[-3000:])
            raise Inconclusive(f"no standard library for {triple}")
        # results only: memory is another property's business, and this is several times faster
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-data-race-detector -Zmiri-disable-weak-memory-emulation " + flags
        p = subprocess.run(["cargo", "miri", "run", *base, "--", "--budget", "0", "--scale", "0.0001"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, cwd=self.work)
        if re.search(r"^error(\[|: could not compile)", p.stdout, re.M):
            raise BuildError(p.stdout)
        self.stages.append({"stage": f"build {bin_} for {triple}", "s": round(time.time() - t, 1)})
        return lambda i: ["env"] + [f"{k}={v}" for k, v in e.items()] + ["cargo", "miri", "run", *base, "--"]

    def control(self, label, cmd, env, expect):
        """Shows that an instrument reports what it must: a faulty program of the monitor's own has to be caught."""
        e = self.env()
        e.update(env)
        for _ in range(3):
            try:
                p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, cwd=self.work)
            except subprocess.TimeoutExpired:
                raise Inconclusive(f"{label}: the control run took over 200 s")
            if p.returncode and re.search(expect, p.stdout):
                break
        else:
            sys.stderr.write(p.stdout[-3000:])
            raise Inconclusive(f"{label}: the instrument missed the monitor's own deliberate fault")
        self.ev(f"controls caught: {label}")

    def build_or_stop(self, *a, both=True, **k):
        try:
            return self.both(*a, **k) if both else self.build(*a, **k)
        except BuildError as e:
            sys.stderr.write(e.text[-6000:])
            raise Inconclusive("the monitor does not compile against /repo's working tree")

    # -- running -------------------------------------------------------------------------
    def shards(self, exe, label, args=(), n=SHARDS, budget=None, mem=6 * GIB, env=None, timeout=None, seed=None, crash_is_violation=True, cmd=None):
        """Runs n shards in parallel, merges what they saw, and returns the merged counts."""
        budget = budget or (600 if self.thorough else 90)
        timeout = timeout or budget + 120
        seed = self.seed if seed is None else seed
        e = self.env()
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        t = time.time()

        def limits():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def one(i):
            out = os.path.join(self.work, f"{label}-{i}.json")
            full = ((cmd(i) if callable(cmd) else cmd) or [exe if isinstance(exe, str) else exe[i % len(exe)]]) + ["--seed", str(seed), "--tier", self.tier, "--shard", f"{i}/{n}", "--out", out, "--budget", str(budget), *args]
            log = out + ".log"
            with open(log, "w") as lf:
                try:
                    p = subprocess.run(full, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limits, cwd=self.work)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            return i, rc, out, log, full

        merged = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=SHARDS) as ex:
            for i, rc, out, log, full in ex.map(one, range(n)):
                text = open(log, errors="replace").read()
                case = ""
                if os.path.exists(out + ".case"):
                    case = open(out + ".case", errors="replace").read().strip()
                if rc == 0 and os.path.exists(out):
                    self.merge(json.load(open(out)), label, full, merged)
                    continue
                ended = self.classify(rc, text)
                if ended and crash_is_violation:
                    self.violation(f"{label}: {ended}", case=case, cmd=full, log=text[-6000:])
                else:
                    sys.stderr.write(text[-3000:] + "\n")
                    raise Inconclusive(f"{label} shard {i} ended with {rc} in case: {case[:300]}")
        self.stages.append({"stage": f"run {label}", "s": round(time.time() - t, 1)})
        return merged

    @staticmethod
    def classify(rc, text):
        """The way a monitored process ended, when that by itself is a violation."""
        if "AddressSanitizer" in text:
            m = re.search(r"AddressSanitizer: ([^\n]*)", text)
            if m and not re.search(r"out-of-memory|allocation-size-too-big|hard rss", m[1]):
                return "AddressSanitizer: " + m[1][:200]
            return None
        if "LeakSanitizer" in text:
            return "LeakSanitizer: memory leaked"
        if "ThreadSanitizer: data race" in text:
            return "ThreadSanitizer: data race"
        if re.search(r"Undefined Behavior:", text):
            m = re.search(r"Undefined Behavior: ([^\n]*)", text)
            return "Miri: Undefined Behavior: " + m[1][:200]
        if "memory allocation of" in text and "failed" in text:
            return "a case asked for more memory than the monitor's limit of several GiB"
        if "unsafe precondition(s) violated" in text:
            return "unsafe precondition violated"
        if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGTRAP, -signal.SIGFPE):
            return f"the process died with signal {-rc}"
        return None

    def merge(self, d, label, cmd, merged):
        self.evaluations += d["evaluations"]
        self.distinct.update(f"{x}" for x in d["distinct"])
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
            merged[k] = merged.get(k, 0) + v
        if not d["complete"]:
            self.notes.append(f"{label}: stopped at its time budget")
        room = 12 - len(self.samples)
        if room > 0:
            self.samples += d["samples"][: max(1, room // 6)]
        for k, v in d["known"].items():
            self.known_seen[k] = v
        for v in d["violations"]:
            self.violation(v["msg"], case=f"{v['case']} {v['desc']}", cmd=cmd + ["--case", str(v["case"])])

    def violation(self, msg, case="", cmd=(), log="", files=()):
        self.violations.append({"msg": msg, "case": case, "cmd": list(cmd), "log": log, "files": list(files)})

    def ev(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, least):
        """The verdict 'held' counts only if the monitors saw enough."""
        got = self.counts.get(what, 0)
        if got < least and not self.violations:
            raise Inconclusive(f"only {got} of {what} observed, expected at least {least}")

    # -- verdict -------------------------------------------------------------------------
    def write(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples[:12],
            "observed": dict(sorted(self.counts.items())),
            "stages": self.stages,
            "notes": self.notes,
        }
        cov.update(self.extra)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")

    def conclude(self):
        known = known_findings()
        for k, v in sorted(self.known_seen.items()):
            if (self.pid, k) in known:
                print(f"KNOWN-FINDING: property={self.pid} {known[(self.pid, k)]}")
            else:
                self.violation(f"{k}: {v}")
        self.write()
        if not self.violations:
            if self.evaluations == 0 or not self.distinct:
                print(f"INCONCLUSIVE property={self.pid}: nothing was observed")
                return 2
            print(f"held property={self.pid} tier={self.tier} evaluations={self.evaluations} distinct={len(self.distinct)} wall={time.time() - self.t0:.0f}s")
            return 0
        rep = os.path.join(EVID, "replays")
        os.makedirs(rep, exist_ok=True)
        for v in self.violations[:10]:
            h = hashlib.sha256((v["msg"] + v["case"]).encode()).hexdigest()[:12]
            path = os.path.join(rep, f"{self.pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **v}, f, indent=1, ensure_ascii=False)
            print(f"  {v['msg'][:600]}")
            print(f"    case: {v['case'][:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1
