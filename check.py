#!/usr/bin/env python3
"""Decides one property: check.py ID.

Builds the monitors against /repo's working tree, runs them in parallel, merges what they observed
into evidence/ID.json. Exit 0 held on everything observed, 1 violation, 2 no verdict.
"""
import array
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PROPS, RULES  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
MEM = 4 << 30

VARIANTS = {
    # name: (cargo arguments, toolchain, rustflags)
    "plain": (["build", "--release"], None, ""),
    "serde": (["build", "--release", "--features", "serde"], None, ""),
    "asan": (
        ["build", "--release", "--features", "plain_alloc,serde", "--target", "x86_64-unknown-linux-gnu"],
        "nightly",
        "-Zsanitizer=address",
    ),
    "miri": (["miri", "run", "--features", "plain_alloc"], "nightly", ""),
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def hash_tree(root, exts):
    hs = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                hs.update(p.encode() + b"\0")
                with open(p, "rb") as g:
                    hs.update(g.read() + b"\0")
    return hs.hexdigest()


def env_for(variant):
    _, tc, flags = VARIANTS[variant]
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, variant)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = ("-Awarnings " + flags).strip()
    if variant == "asan":
        # the optimizing register allocator of this toolchain clobbers the exception pointer in
        # some landing pads of instrumented functions
        e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "0"
    if tc:
        e["RUSTUP_TOOLCHAIN"] = tc
    else:
        e["RUSTUP_TOOLCHAIN"] = "stable"
    return e


def forget(target):
    """cargo looks at modification times only: forget what was built from other contents"""
    for p in glob.glob(os.path.join(target, "**", ".fingerprint", "*"), recursive=True):
        if re.match(r"(triple_arena|mon)", os.path.basename(p)):
            shutil.rmtree(p, ignore_errors=True)


def prepare(variant):
    target = os.path.join(BUILD, variant)
    os.makedirs(target, exist_ok=True)
    want = hash_tree(REPO, (".rs", ".toml", ".md")) + hash_tree(HARNESS, (".rs", ".toml", ".lock"))
    stamp = os.path.join(target, "contents")
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        forget(target)
    return stamp, want


def start_build(variant):
    stamp, want = prepare(variant)
    args, _, _ = VARIANTS[variant]
    if variant == "miri":
        # builds and runs an empty selection
        cmd = ["cargo", *args, "--", "engines"]
        e = env_for(variant)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    else:
        cmd = ["cargo", *args]
        e = env_for(variant)
    logf = open(os.path.join(BUILD, variant + ".log"), "w+")
    p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=logf, stderr=subprocess.STDOUT)
    return variant, p, logf, stamp, want


def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        without = []
        jobs = [start_build(v) for v in variants]
        for v, p, logf, stamp, want in jobs:
            try:
                r = p.wait(timeout=700)
            except subprocess.TimeoutExpired:
                p.kill()
                raise CheckError(f"build of variant {v} timed out")
            if r != 0:
                logf.seek(0)
                log(logf.read()[-6000:])
                if v == "miri":
                    # the other variants tell whether the code is at fault
                    log("note: the interpreter cannot be used")
                    without.append(v)
                    continue
                raise CheckError(f"build of variant {v} failed")
            with open(stamp, "w") as f:
                f.write(want)
    return without


def binary(variant):
    if variant == "asan":
        return os.path.join(BUILD, variant, "x86_64-unknown-linux-gnu", "release", "mon")
    return os.path.join(BUILD, variant, "release", "mon")


def limits(variant):
    def f():
        os.setsid()
        if variant in ("plain", "serde"):
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def run_env(variant):
    e = env_for(variant)
    if variant == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:symbolize=0:hard_rss_limit_mb=4000"
    return e


def names(tags):
    return ["C%02d" % i for i in range(1, 24) if tags >> i & 1]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = PROPS[pid]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.notes = []
        self.results = []
        self.fps = set()
        self.sts = set()
        self.miri_runs = []

    def thorough(self):
        return self.tier == "thorough"

    # ---- native workers

    def start(self, variant, worker, secs, only=None):
        cmd = [
            binary(variant), "run", "--prop", self.pid, "--seed", str(self.seed),
            "--worker", str(worker), "--secs", str(secs), "--out", self.out,
            "--thorough", "1" if self.thorough() else "0",
        ]
        if only:
            cmd += ["--only", only]
        logf = open(os.path.join(self.out, f"w{worker}.log"), "w")
        p = subprocess.Popen(cmd, stdout=logf, stderr=subprocess.STDOUT, env=run_env(variant),
                             preexec_fn=limits(variant), cwd=self.out)
        return {"p": p, "v": variant, "w": worker, "secs": secs, "t": time.time(), "only": only}

    def collect(self, j):
        w = j["w"]
        f = os.path.join(self.out, f"w{w}.json")
        with open(f) as g:
            r = json.load(g)
        r["variant"] = j["v"]
        self.results.append(r)
        for ext, s in (("fp", self.fps), ("st", self.sts)):
            with open(os.path.join(self.out, f"w{w}.{ext}"), "rb") as g:
                a = array.array("Q")
                a.frombytes(g.read())
                s.update(a)
        for v in r["violations"]:
            v["variant"] = j["v"]
            self.violations.append(v)

    def crashed(self, j, code):
        """A worker died or hung: run its current case again alone and attribute it"""
        w, variant = j["w"], j["v"]
        cur = os.path.join(self.out, f"w{w}.cur")
        if not os.path.exists(cur):
            raise CheckError(f"worker {w} ended with {code} before it started")
        case = open(cur).read().split()
        if len(case) < 3:
            raise CheckError(f"worker {w} ended with {code} without a case")
        eng, ptr, seed = case[:3]
        hang = code == 77
        if time.time() > self.repeat_until:
            self.notes.append(f"worker {w} ended with {code} in case {eng} {ptr} {seed}, not repeated for lack of time")
            return False
        trace = os.path.join(self.out, f"w{w}.trace")
        cmd = [binary(variant), "replay", self.pid, "1" if self.thorough() else "0", eng, ptr, seed, trace]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run_env(variant),
                               preexec_fn=limits(variant), cwd=self.out, timeout=(110 if self.thorough() else 45) if hang else 200)
            again = p.returncode
            output = p.stdout.decode(errors="replace")[-3000:]
        except subprocess.TimeoutExpired:
            again = 77
            output = ""
        lines = open(trace).read().splitlines() if os.path.exists(trace) else []
        if again in (0, 1):
            # not reproduced alone
            self.notes.append(f"worker {w} ended with {code} in case {eng} {ptr} {seed}, which ran normally "
                              f"when repeated (exit {again})")
            return False
        if again == 77 and not hang:
            self.notes.append(f"worker {w} ended with {code}, its case {eng} {ptr} {seed} took too long alone")
            return False
        if re.search(r"AddressSanitizer: SEGV .*libgcc_s", output):
            self.notes.append(f"worker {w}: the unwinder crashed in case {eng} {ptr} {seed}, see DESIGN.md")
            return False
        if not lines:
            self.notes.append(f"worker {w} ended with {code} outside of any operation")
            return False
        opno, tags, desc = lines[-1].split("|", 2)
        tags = int(tags)
        if "AddressSanitizer" in output or "unsafe precondition" in output or again in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            tags |= 1 << 9
        what = "did not terminate" if hang else f"ended the process with {again}"
        v = {
            "property": self.pid, "engine": eng, "ptr_no": int(ptr), "case_seed": seed, "op": int(opno),
            "message": f"an operation {what}: {desc}", "tags": names(tags), "reproduced": True,
            "log": [x.split("|", 2)[2] for x in lines[-400:]], "variant": variant, "output": output,
        }
        if self.pid in v["tags"]:
            self.violations.append(v)
            return True
        self.notes.append(f"foreign: {eng} {ptr} {seed}: {v['message']} ({','.join(v['tags'])})")
        return False

    def native(self, jobs):
        """runs (variant, worker, secs, only) jobs"""
        run = [self.start(*j) for j in jobs]
        restarts = 0
        # cases of workers that ended early are repeated one after another
        self.repeat_until = time.time() + (1800 if self.thorough() else 300)
        while run:
            time.sleep(0.1)
            for j in list(run):
                code = j["p"].poll()
                late = time.time() - j["t"] > j["secs"] * 5 + 150
                if code is None and not late:
                    continue
                run.remove(j)
                if code is None:
                    os.killpg(j["p"].pid, signal.SIGKILL)
                    j["p"].wait()
                    self.notes.append(f"worker {j['w']} was stopped after {time.time() - j['t']:.0f} s")
                    continue
                if code == 0:
                    self.collect(j)
                elif code == 3 or code == 101:
                    raise CheckError(f"worker {j['w']}: " + open(os.path.join(self.out, f"w{j['w']}.log")).read()[-800:])
                else:
                    hit = self.crashed(j, code)
                    left = j["secs"] - (time.time() - j["t"])
                    restarts += 1
                    if hit:
                        break
                    if restarts < 40 and time.time() < self.repeat_until:
                        # other cases
                        run.append(self.start(j["v"], j["w"] + 100, max(left, 6), j["only"]))
            if self.violations:
                for j in run:
                    try:
                        os.killpg(j["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    j["p"].wait()
                return

    # ---- Miri

    def miri(self, jobs, secs):
        run = []
        e = env_for("miri")
        for n, (only, flags) in enumerate(jobs):
            e2 = dict(e)
            # every violation of the checked rules aborts the interpreted program
            e2["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={self.seed * 64 + n} " + flags
            cmd = ["cargo", "miri", "run", "-q", "--features", "plain_alloc", "--", "run", "--prop", self.pid,
                   "--seed", str(self.seed), "--worker", str(1000 + n), "--secs", str(secs), "--mincases", "2",
                   "--stdout", "--only", only]
            out = open(os.path.join(self.out, f"miri{n}.log"), "w+")
            run.append((n, only, flags, out, cmd, e2, time.time(),
                        subprocess.Popen(cmd, cwd=HARNESS, env=e2, stdout=out, stderr=subprocess.STDOUT,
                                         preexec_fn=limits("miri"))))
        for n, only, flags, out, cmd, e2, t, p in run:
            try:
                code = p.wait(timeout=max(10, secs * 4 + 200 - (time.time() - t)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                code = None
            out.seek(0)
            text = out.read()
            m = re.search(r"^RESULT (.*)$", text, re.M)
            ub = re.search(r"error: (Undefined Behavior.*|memory leaked.*|unsupported operation.*|.*abnormal termination.*|.*deadlock.*)", text)
            if m:
                r = json.loads(m.group(1))
                r["variant"] = "miri"
                self.results.append(r)
                for v in r["violations"]:
                    v["variant"] = "miri"
                    self.violations.append(v)
            if ub and ("Undefined Behavior" in ub.group(1) or "memory leaked" in ub.group(1)):
                self.violations.append({
                    "property": self.pid, "engine": only, "message": "Miri: " + ub.group(1)[:400],
                    "tags": ["C09"], "variant": "miri", "reproduced": True,
                    "log": text[-6000:].splitlines(), "command": cmd, "MIRIFLAGS": e2["MIRIFLAGS"],
                })
            elif not m:
                self.notes.append(f"miri {only}: no result (exit {code}): {text[-300:]}")
            self.miri_runs.append({"engine": only, "flags": flags, "cases": json.loads(m.group(1))["cases"] if m else 0})

    # ---- verdict

    def report(self):
        cov = {}
        ev, per, foreign = {}, {}, {}
        tot = {k: 0 for k in ("cases", "ops", "monitor_evaluations", "monitor_evaluations_all", "allocs", "deallocs")}
        samples = []
        for r in self.results:
            for k in tot:
                tot[k] += r.get(k, 0)
            for src, dst in ((r["events"], ev), (r["per_engine"], per), (r["foreign"], foreign)):
                for k, n in src.items():
                    dst[k] = dst.get(k, 0) + n
            samples += r["samples"]
        relevant = sum(ev.values())
        cov["evaluations"] = tot["cases"]
        cov["distinct_nontrivial"] = len(self.fps)
        cov["rule"] = RULES["common"] + " " + self.cfg["rule"]
        cov["samples"] = samples[:10] or ["none"]
        cov["operations_executed"] = tot["ops"]
        cov["monitor_evaluations_for_this_property"] = tot["monitor_evaluations"]
        cov["monitor_evaluations_all"] = tot["monitor_evaluations_all"]
        cov["relevant_events"] = ev
        cov["distinct_states_compared"] = len(self.sts)
        cov["cases_per_engine_and_ptr_type"] = per
        cov["workers"] = [{k: r.get(k) for k in ("variant", "worker", "cases", "wall_s")} for r in self.results]
        cov["allocator_events"] = {"allocations": tot["allocs"], "deallocations": tot["deallocs"]}
        if self.miri_runs:
            cov["miri_runs"] = self.miri_runs
        if foreign:
            cov["failures_of_other_properties"] = foreign
        if self.notes:
            cov["notes"] = self.notes[:20]
        evid = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.cfg["level"],
            "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations), "assumptions": RULES["assumptions"] + self.cfg.get("assumptions", []),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        f = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(f + ".tmp", "w") as g:
            json.dump(evid, g, indent=1)
        os.replace(f + ".tmp", f)
        log(f"{self.pid}: {tot['cases']} cases, {tot['ops']} operations, {relevant} relevant events, "
            f"{len(self.fps)} distinct nontrivial histories, {len(self.sts)} states, "
            f"{tot['monitor_evaluations']} evaluations of this property, {time.time() - self.t0:.1f} s")
        for n in self.notes[:10]:
            log("note:", n)
        for k, n in sorted(foreign.items())[:10]:
            log(f"failures of other properties: {n} x {k}")
        return relevant

    def finish(self):
        known = []
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3).strip()))
        new = []
        for v in self.violations:
            for pat, what in known:
                if re.search(pat, v["message"]):
                    log(f"KNOWN-FINDING: property={self.pid} {what}")
                    break
            else:
                new.append(v)
        self.violations = new
        relevant = self.report()
        if new:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            path = os.path.join(HERE, "replay", f"{self.pid}.json")
            v = new[0]
            if "case_seed" in v and v["variant"] in ("plain", "serde", "asan"):
                v["replay_command"] = (f"{binary(v['variant'])} replay {self.pid} {int(self.thorough())} "
                                       f"{v['engine']} {v['ptr_no']} {v['case_seed']}")
            with open(path, "w") as g:
                json.dump(new[:5], g, indent=1)
            log(f"{v['engine']}: {v['message']}")
            for l in v["log"][-8:]:
                log("   ", l)
            log(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if not self.results or relevant == 0 or not self.fps:
            log(f"{self.pid}: no verdict, nothing relevant was observed")
            return 2
        return 0

    def main(self):
        cfg = self.cfg
        variants = sorted({j[0] for j in cfg["jobs"]} | ({"miri"} if cfg.get("miri") else set()))
        without = build(variants)
        if without:
            self.notes.append("could not be built: " + ", ".join(without))
        scale = cfg.get("thorough_scale", 10) if self.thorough() else 1
        self.out = tempfile.mkdtemp(prefix="run-" + self.pid + "-", dir=BUILD)
        try:
            jobs = []
            for n, (variant, secs, only) in enumerate(cfg["jobs"]):
                jobs.append((variant, n, secs * scale, only))
            self.native(jobs)
            if cfg.get("miri") and not self.violations and "miri" not in without:
                self.miri(cfg["miri"]["jobs"], cfg["miri"]["secs"] * scale)
            return self.finish()
        finally:
            shutil.rmtree(self.out, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        vs = sorted({j[0] for c in PROPS.values() for j in c["jobs"]} | ({"miri"} if any(c.get("miri") for c in PROPS.values()) else set()))
        build(vs)
        return 0
    try:
        return Check(sys.argv[1]).main()
    except CheckError as e:
        log("check error:", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
