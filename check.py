#!/usr/bin/env python3
"""Decides one property by generated-input search, rebuilding the harness from /repo's working tree.

  check.py C02              quick or thorough, by VERIF_TIER (default quick); seed from VERIF_SEED
  check.py setup            builds everything the quick checks use
  check.py replay FILE      reruns a replay file; exit 1 if it still fails

Exit 0: held on everything explored. Exit 1: a VIOLATION line. Anything else: the check itself failed.
"""
import fcntl, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
STABLE, NIGHTLY, HOST = "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu"
CORES = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
GENS = ["small", "small-deep", "boundary", "history", "regress"]
SLOT = 4096


class CheckError(Exception):
    """The check could not do its work; says nothing about the property."""


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- building


class Build:
    """One way of compiling a harness crate."""

    def __init__(self, crate, bin, profile="release", features=None, toolchain=STABLE, rustflags="", target=None, label=None, cfgtag=""):
        self.crate, self.bin, self.profile, self.features = crate, bin, profile, features
        self.toolchain, self.rustflags, self.target = toolchain, rustflags, target
        feat = "default" if features is None else ("+".join(features) or "none")
        self.label = label or f"{profile}/{feat}"
        # builds with different flags or features must not evict one another
        self.dir = os.path.join(TARGET, f"{crate}-{cfgtag or 'plain'}" + ("" if features is None else "-" + feat.replace("+", "_")))
        self.path = None

    def env(self):
        e = dict(os.environ)
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
        e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=self.toolchain, CARGO_TARGET_DIR=self.dir, CARGO_TERM_COLOR="never")
        for k in ("CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            e.pop(k, None)
        e["RUSTFLAGS"] = self.rustflags
        return e

    def args(self):
        a = ["--bin", self.bin, "--profile", self.profile, "--locked", "--quiet"]
        if self.features is not None:
            a += ["--no-default-features", "--features", ",".join(self.features)]
        if self.target:
            a += ["--target", self.target]
        return a

    def build(self, into):
        cwd = os.path.join(V, self.crate)
        t = time.time()
        r = subprocess.run(["cargo", "build"] + self.args(), cwd=cwd, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError(f"{self.crate} ({self.label}) does not build:\n{r.stdout[-6000:]}")
        d = self.dir
        if self.target:
            d = os.path.join(d, self.target)
        self.path = os.path.join(into, f"{self.crate}-{self.label.replace('/', '_')}")
        shutil.copy2(os.path.join(d, self.profile, self.bin), self.path)
        log(f"built {self.crate} {self.label} in {time.time() - t:.1f}s")

    def spec(self):
        return dict(crate=self.crate, bin=self.bin, profile=self.profile, features=self.features, toolchain=self.toolchain,
                    rustflags=self.rustflags, target=self.target, label=self.label, cfgtag=os.path.basename(self.dir)[len(self.crate) + 1:].split("-")[0])


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                h.update(hashlib.sha256(open(p, "rb").read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def build_all(builds, into):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo judges by modification times; a tree whose content changed is built afresh
        now = repo_hash()
        for d in {b.dir for b in builds}:
            stamp = os.path.join(d, ".repo")
            old = open(stamp).read() if os.path.exists(stamp) else None
            if old is not None and old != now:
                for b in builds:
                    if b.dir == d:
                        subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "arraystring", "--profile", b.profile] + (["--target", b.target] if b.target else []),
                                       cwd=os.path.join(V, b.crate), env=b.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.makedirs(d, exist_ok=True)
            if old != now and old is not None:
                os.remove(stamp)
        with ThreadPoolExecutor(len(builds)) as ex:
            for f in [ex.submit(b.build, into) for b in builds]:
                f.result()
        for d in {b.dir for b in builds}:
            open(os.path.join(d, ".repo"), "w").write(now)


# ---------------------------------------------------------------- running


def run_one(binary, prop, gen, choices, watch=True, extra_env=None, timeout=60):
    """One case in a process of its own: (returncode, stdout, stderr)."""
    e = dict(os.environ)
    e.update(extra_env or {})
    cmd = [binary, "one", "--prop", prop, "--gen", gen, "--choices", ",".join(map(str, choices))] + (["--watch", "1"] if watch else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None, "", ""
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def died(rc):
    return rc is not None and (rc < 0 or rc in (134, 139, 66))


def crash_of(binary, prop, gen, choices, env):
    """(step line, counts) if this case brings the process down."""
    rc, _, err = run_one(binary, prop, gen, choices, True, env)
    if not died(rc):
        return None
    steps = [l for l in err.splitlines() if l.startswith("STEP ")]
    if not steps:
        return None
    tail = [l for l in err.splitlines() if not l.startswith("STEP ")]
    return steps[-1], steps[-1].split(" ")[2] == "1", rc, "\n".join(tail[:30])


def shrink(start, bad, budget=150, seconds=60):
    """The in-process shrinker's outline, for cases that kill the process."""
    best, end, left = list(start), time.time() + seconds, [budget]

    def attempt(v):
        nonlocal best
        if left[0] <= 0 or time.time() > end or v == best:
            return False
        left[0] -= 1
        if bad(v):
            best = v
            return True
        return False

    while True:
        before = list(best)
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best)
            while i > 0:
                a = max(0, i - size)
                attempt(best[:a] + best[i:])
                i = min(a, len(best))
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                if not attempt(best[:i] + [0] + best[i + 1:]):
                    attempt(best[:i] + [best[i] // 2] + best[i + 1:])
        while best and best[-1] == 0:
            best = best[:-1]
        if best == before or left[0] <= 0 or time.time() > end:
            return best


class Worker:
    """One binary's share of the search."""

    def __init__(self, build, args, env=None, label=None, prefix=None, timeout=600, threads=None):
        self.build, self.args, self.env = build, args, env or {}
        self.label = label or build.label
        self.prefix, self.timeout, self.threads = prefix or [], timeout, threads

    def run(self, prop, seed, tmp):
        tag = self.label.replace("/", "_").replace(" ", "_")
        self.out, self.slots, self.hashes = (os.path.join(tmp, f"{tag}.{x}") for x in ("json", "slots", "hashes"))
        threads = self.threads or CORES
        cmd = self.prefix + [self.build.path, "run", "--prop", prop, "--seed", str(seed), "--threads", str(threads), "--out", self.out, "--hashes", self.hashes]
        cmd += ["--slots", self.slots] + self.args
        e = dict(os.environ)
        e.update(self.env)
        t = time.time()
        with open(os.path.join(tmp, f"{tag}.log"), "wb") as lg:
            try:
                rc = subprocess.run(cmd, stdout=lg, stderr=subprocess.STDOUT, env=e, timeout=self.timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
        self.secs = time.time() - t
        self.rc = rc
        self.log = open(os.path.join(tmp, f"{tag}.log"), "rb").read()[-4000:].decode("utf-8", "replace")
        log(f"{self.label}: exit {rc} after {self.secs:.1f}s")
        self.result = None
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
            except ValueError:
                pass
        return self

    def candidates(self):
        """The cases that were running when the process ended."""
        c = []
        if os.path.exists(self.slots):
            b = open(self.slots, "rb").read()
            for t in range(len(b) // (SLOT * 4)):
                w = struct.unpack_from(f"<{SLOT}I", b, t * SLOT * 4)
                if w[0] == 1 and w[1] < len(GENS) and w[2] <= SLOT - 4:
                    c.append((GENS[w[1]], list(w[3:3 + w[2]])))
        return c

    def finding(self, prop):
        """A violation as a dict, None if there is none; raises if the worker gave no answer."""
        if self.rc is None:
            raise CheckError(f"{self.label}: no answer within {self.timeout}s")
        if self.result is not None and self.result.get("finding"):
            f = self.result["finding"]
            return dict(detail=f["detail"], facet=f.get("facet"), gen=f["generator"], choices=f["choices"], case=f.get("case"))
        if self.rc == 0 and self.result is not None:
            return None
        if not died(self.rc):
            raise CheckError(f"{self.label}: exit {self.rc}\n{self.log}")
        foreign = None
        for gen, choices in self.candidates():
            c = crash_of(self.build.path, prop, gen, choices, self.env)
            if c is None:
                continue
            if not c[1]:
                foreign = c
                continue

            def bad(v):
                d = crash_of(self.build.path, prop, gen, v, self.env)
                return d is not None and d[1]

            small = shrink(choices, bad)
            step, _, rc, tail = crash_of(self.build.path, prop, gen, small, self.env) or c
            what = "exit %d" % rc if rc > 0 else signal.Signals(-rc).name
            return dict(detail=f"the process died ({what}) in step {step[5:]}", facet="Crash", gen=gen, choices=small,
                        case={"generator": gen, "choices": small, "last_step": step, "stderr": tail})
        if foreign:
            raise CheckError(f"{self.label}: the process died in an operation this property is not about ({foreign[0][:400]}); the property's own check reports it")
        raise CheckError(f"{self.label}: died (exit {self.rc}) and no case reproduces it\n{self.log}")


def add_up(done):
    """One result out of those of several processes."""
    if not done:
        return None
    r = dict(done[0])
    for d in done[1:]:
        for k, v in d.items():
            if isinstance(v, int):
                r[k] += v
            elif k in ("by_generator", "classes"):
                r[k] = {g: r[k].get(g, 0) + v.get(g, 0) for g in list(r[k]) + [x for x in v if x not in r[k]]}
            elif k == "samples":
                r[k] = r[k] + v
    return r


def gather_hashes(worker):
    """For the union of distinct cases."""
    with open(worker.hashes, "wb") as o:
        for f in worker.parts:
            if os.path.exists(f["hashes"]):
                o.write(open(f["hashes"], "rb").read())


class Interpreted:
    """A share of the search run by Miri, several processes side by side; what it reports as undefined behaviour is the finding."""

    FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
    env = {}
    prefix = ["miri"]

    def __init__(self, boundary, history, salt, procs=None, seconds=200, timeout=600):
        self.build = Build(H, "harness", "release", toolchain=NIGHTLY, label="miri", cfgtag="miri")
        self.label, self.boundary, self.history, self.salt, self.timeout = "miri", boundary, history, salt, timeout
        self.procs, self.seconds = procs or CORES, seconds

    def command(self, args):
        e = self.build.env()
        e["MIRIFLAGS"] = self.FLAGS
        return dict(args=["cargo", "miri", "run", "--release", "--locked", "--quiet", "--"] + args, cwd=os.path.join(V, H), env=e)

    def bare(self, gen, choices):
        """(undefined behaviour?, output, last step) of one case."""
        c = self.command(["bare", "--prop", "C22", "--gen", gen, "--choices", ",".join(map(str, choices))])
        try:
            r = subprocess.run(c["args"], cwd=c["cwd"], env=c["env"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return False, "", ""
        out = r.stderr.decode("utf-8", "replace")
        steps = [l for l in out.splitlines() if l.startswith("STEP ")]
        at = out.find("error: Undefined Behavior")
        return r.returncode != 0 and at >= 0, out[at:at + 3000] if at >= 0 else out[-2000:], steps[-1] if steps else ""

    def run(self, prop, seed, tmp):
        t = time.time()
        # compiles once, so that the processes do not wait for one another; also the proof that the interpreter works here
        bad, out, last = self.bare("history", [3, 4])
        if not bad and not last:
            # this share is extra: without the interpreter the compiled builds still decide, and the evidence says what ran
            log(f"miri does not run here, its share is left out: {out[-1500:]}")
            self.parts, self.result, self.secs, self.rc = [], None, time.time() - t, 0
            return self
        log(f"miri ready in {time.time() - t:.1f}s")
        t = time.time()
        self.parts, ps = [], []
        for k in range(self.procs):
            f = {x: os.path.join(tmp, f"miri{k}.{x}") for x in ("json", "note", "log", "hashes")}
            share = lambda n: str(n // self.procs)
            c = self.command(["run", "--prop", prop, "--seed", str(seed), "--salt", str(self.salt + k), "--threads", "1", "--boundary", share(self.boundary), "--history", share(self.history),
                              "--seconds", str(self.seconds), "--note", f["note"], "--out", f["json"], "--hashes", f["hashes"]])
            ps.append(subprocess.Popen(c["args"], cwd=c["cwd"], env=c["env"], stdout=subprocess.DEVNULL, stderr=open(f["log"], "wb"), start_new_session=True))
            self.parts.append(f)
        end = time.time() + self.timeout
        for p, f in zip(ps, self.parts):
            try:
                f["rc"] = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                f["rc"] = None
        self.secs = time.time() - t
        self.rc = 0 if all(f["rc"] == 0 for f in self.parts) else 1
        log(f"miri: exits {[f['rc'] for f in self.parts]} after {self.secs:.1f}s")
        self.result = add_up([json.load(open(f["json"])) for f in self.parts if f["rc"] == 0])
        self.hashes = os.path.join(tmp, "miri.hashes")
        gather_hashes(self)
        return self

    def finding(self, prop):
        errors = []
        for f in self.parts:
            if f["rc"] == 0:
                continue
            text = open(f["log"], "rb").read().decode("utf-8", "replace")
            if f["rc"] is None or "error: Undefined Behavior" not in text:
                errors.append(f"miri: exit {f['rc']}\n{text[-2500:]}")
                continue
            note = struct.unpack(f"<{os.path.getsize(f['note']) // 4}I", open(f["note"], "rb").read())
            gen, choices = GENS[note[0]], list(note[1:])
            if not self.bare(gen, choices)[0]:
                errors.append(f"miri reported undefined behaviour which the case alone does not show\n{text[-2500:]}")
                continue
            small = shrink(choices, lambda v: self.bare(gen, v)[0], 60, 150)
            _, out, last = self.bare(gen, small)
            head = out.splitlines()[0] if out else ""
            return dict(detail=f"{head} in step {last[5:]}", facet="Undefined", gen=gen, choices=small, case={"generator": gen, "choices": small, "last_step": last, "miri": out},
                        extra=dict(interpreter="miri"))
        if errors:
            raise CheckError("\n".join(errors))
        return None


class Elsewhere:
    """A share of the judged cases on another platform (32 bits, big-endian), which Miri makes possible without such a machine."""

    PLATFORMS = {"i686-unknown-linux-gnu": "checked", "s390x-unknown-linux-gnu": "release"}
    env = {}
    prefix = ["miri"]

    def __init__(self, crate, target, amounts, salt, procs, seconds):
        self.crate, self.target, self.amounts, self.salt, self.procs, self.seconds = crate, target, amounts, salt, procs, seconds
        self.build = Build(crate, crate, self.PLATFORMS.get(target, "release"), toolchain=NIGHTLY, target=target, label="miri " + target.split("-")[0], cfgtag="miri")
        self.label = self.build.label

    def command(self, args):
        e = self.build.env()
        e["MIRIFLAGS"] = Interpreted.FLAGS
        return ["cargo", "miri", "run", "--profile", self.build.profile, "--target", self.target, "--locked", "--quiet", "--bin", self.crate, "--"] + args, dict(cwd=os.path.join(V, self.crate), env=e)

    def one(self, prop, gen, choices):
        """(violated?, output) of one case; None when there is no answer."""
        a, k = self.command(["one", "--prop", prop, "--gen", gen, "--choices", ",".join(map(str, choices))])
        try:
            p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, **k)
        except subprocess.TimeoutExpired:
            return None, ""
        out, err = (x.decode("utf-8", "replace") for x in (p.stdout, p.stderr))
        try:
            return json.loads(out.strip().splitlines()[-1]).get("finding") is not None, out
        except (IndexError, ValueError):
            return None, err[-2500:]

    def run(self, prop, seed, tmp):
        t = time.time()
        self.parts, self.result, self.rc, ps = [], None, 0, []
        self.hashes = os.path.join(tmp, self.label.replace(" ", "_") + ".hashes")
        ok, out = self.one(prop, "history", [3, 4])
        if ok is None:
            log(f"{self.label} does not run here, its share is left out: {out}")
            self.secs = time.time() - t
            return self
        log(f"{self.label} ready in {time.time() - t:.1f}s")
        t = time.time()
        for k in range(self.procs):
            f = {x: os.path.join(tmp, f"{self.label.replace(' ', '_')}{k}.{x}") for x in ("json", "note", "log", "hashes")}
            args = ["run", "--prop", prop, "--seed", str(seed), "--salt", str(self.salt + k), "--threads", "1", "--out", f["json"], "--hashes", f["hashes"]] + self.amounts
            args += ["--seconds", str(self.seconds)]
            if self.crate == H:
                args += ["--note", f["note"], "--judged", "1"]
            a, kw = self.command(args)
            ps.append(subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=open(f["log"], "wb"), start_new_session=True, **kw))
            self.parts.append(f)
        end = time.time() + self.seconds + 600
        for p, f in zip(ps, self.parts):
            try:
                f["rc"] = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                f["rc"] = None
        self.secs = time.time() - t
        log(f"{self.label}: exits {[f['rc'] for f in self.parts]} after {self.secs:.1f}s")
        self.result = add_up([json.load(open(f["json"])) for f in self.parts if f["rc"] == 0])
        gather_hashes(self)
        return self

    def finding(self, prop):
        for f in self.parts:
            if f["rc"] != 0:
                text = open(f["log"], "rb").read().decode("utf-8", "replace")
                at = text.find("error: Undefined Behavior: Data race")
                if prop == "C23" and at >= 0:
                    note = struct.unpack(f"<{os.path.getsize(f['note']) // 4}I", open(f["note"], "rb").read())
                    return dict(detail=text[at:].splitlines()[0], facet="Differ", gen=GENS[note[0]], choices=list(note[1:]), case={"generator": GENS[note[0]], "choices": list(note[1:]), "miri": text[at:at + 3000]},
                                extra=dict(interpreter="miri", platform=self.target, crate=self.crate))
                raise CheckError(f"{self.label}: exit {f['rc']}\n" + text[-2500:])
        for f in self.parts:
            d = json.load(open(f["json"])).get("finding")
            if d:
                return dict(detail=d["detail"], facet=d.get("facet"), gen=d["generator"], choices=d["choices"], case=d.get("case"),
                            extra=dict(interpreter="miri", platform=self.target, crate=self.crate))
        return None


class Fuzzed:
    """A share of the search guided by coverage: libFuzzer processes side by side, each with a corpus of its own."""

    COVER = "".join(f" -Cllvm-args=-sanitizer-coverage-{x}" for x in ("level=4", "inline-8bit-counters", "pc-table", "trace-compares"))
    CFG = "-Zsanitizer=address --cfg exact --cfg fuzzing"
    prefix = ["libfuzzer"]

    def __init__(self, seconds, salt, procs=None):
        self.fuzzer = Build("harness_fuzz", "harness_fuzz", "release", toolchain=NIGHTLY, rustflags=f"{self.CFG} -Cpasses=sancov-module{self.COVER}", target=HOST, label="libfuzzer", cfgtag="fuzz")
        # the same cases one by one: for shrinking and for replay files
        self.build = Build(H, "harness", "checked", toolchain=NIGHTLY, rustflags=self.CFG, target=HOST, label="fuzzjudge", cfgtag="fuzzjudge")
        self.label, self.seconds, self.salt, self.procs, self.env = "libfuzzer", seconds, salt, procs or CORES, dict(ASAN_ENV)

    def run(self, prop, seed, tmp):
        t = time.time()
        self.tmp, self.parts = tmp, []
        ps = []
        for k in range(self.procs):
            f = {x: os.path.join(tmp, f"fuzz{k}.{x}") for x in ("json", "hashes", "slots", "log", "corpus")}
            os.makedirs(f["corpus"])
            e = dict(os.environ, FUZZ_PROP=prop, FUZZ_OUT=f["json"], FUZZ_HASHES=f["hashes"], FUZZ_SLOTS=f["slots"], ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
            ps.append(subprocess.Popen([self.fuzzer.path, f"-seed={(seed * 1000 + self.salt * 100 + k) % 2**31 or 1}", f"-max_total_time={self.seconds}", "-max_len=240", "-len_control=0", "-entropic=0",
                                        "-reduce_inputs=0", "-rss_limit_mb=3000", "-handle_segv=0", "-handle_abrt=0", "-print_final_stats=1", f"-artifact_prefix={tmp}/", f["corpus"]],
                                       env=e, stdout=subprocess.DEVNULL, stderr=open(f["log"], "wb"), start_new_session=True))
            self.parts.append(f)
        end = time.time() + self.seconds + 120
        for p, f in zip(ps, self.parts):
            try:
                f["rc"] = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                f["rc"] = None
        self.secs = time.time() - t
        log(f"libfuzzer: exits {[f['rc'] for f in self.parts]} after {self.secs:.1f}s")
        self.rc = 0 if all(f["rc"] == 0 for f in self.parts) else 1
        done = [json.load(open(f["json"])) for f in self.parts if os.path.exists(f["json"])]
        self.result = None
        if done:
            self.result = dict(done[0], finding=None, corpus=sum(len(os.listdir(f["corpus"])) for f in self.parts))
            for d in done[1:]:
                for k, v in d.items():
                    if isinstance(v, int):
                        self.result[k] += v
        self.hashes = os.path.join(tmp, "fuzz.hashes")
        with open(self.hashes, "wb") as o:
            for f in self.parts:
                if os.path.exists(f["hashes"]):
                    o.write(open(f["hashes"], "rb").read())
        return self

    def finding(self, prop):
        errors = []
        if self.rc != 0:
            build_all([self.build], self.tmp)
        for f in self.parts:
            if f["rc"] == 0:
                continue
            text = open(f["log"], "rb").read()[-3000:].decode("utf-8", "replace")
            if f["rc"] == 77:
                d = json.load(open(f["json"]))["finding"]
                bad = lambda v: run_one(self.build.path, prop, d["generator"], v, False, self.env)[0] == 1
                if not bad(d["choices"]):
                    errors.append(f"libfuzzer found {d}, which the case alone does not show")
                    continue
                small = shrink(d["choices"], bad, 600, 90)
                one = json.loads(run_one(self.build.path, prop, d["generator"], small, False, self.env)[1])
                return dict(detail=one["finding"]["detail"], facet=one["finding"]["facet"], gen=d["generator"], choices=small, case=one["case"])
            w = Worker(self.build, [], env=self.env, label="libfuzzer")
            w.rc, w.result, w.slots, w.log = f["rc"], None, f["slots"], text
            try:
                found = w.finding(prop)
                if found:
                    return found
            except CheckError as e:
                errors.append(str(e))
        if errors:
            raise CheckError("\n".join(errors))
        return None


# ---------------------------------------------------------------- the checks

H = "harness"
REL = lambda: Build(H, "harness", "release")
CHK = lambda: Build(H, "harness", "checked")
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
ASAN = lambda: Build(H, "harness", "release", toolchain=NIGHTLY, rustflags="-Zsanitizer=address --cfg exact", target=HOST, label="asan", cfgtag="asan")
ALLREL = lambda: Build(H, "harness", "release", features=["std", "allcaps"])
ALLCHK = lambda: Build(H, "harness", "checked", features=["std", "allcaps"])


def amount(small, boundary, history, salt):
    a = ["--boundary", str(boundary), "--history", str(history), "--salt", str(salt)]
    return a + (["--small", small] if small else [])


def engine_plan(prop, tier):
    """(builds, workers) of a property decided by the model-based engine."""
    if tier == "quick":
        wide = prop in ("C01", "C10", "C15", "C16", "C22")
        n = (1_000_000, 1_500_000) if not wide else (900_000, 900_000)
        if prop in ("C09", "C10"):  # the slow ones
            n = (500_000, 500_000)
        if prop == "C23":  # every case is four runs
            n = (400_000, 500_000)
        rel, chk = REL(), CHK()
        ws = [Worker(rel, amount("small", *n, 0)), Worker(chk, amount("small", n[0] // 2, n[1] // 2, 1))]
        bs = [rel, chk]
        if prop == "C23":
            ws[1] = Worker(chk, amount(None, n[0] // 2, n[1] // 2, 1))
        if prop == "C22":
            a = ASAN()
            bs.append(a)
            ws[1] = Worker(chk, amount(None, 150_000, 150_000, 1))
            ws.append(Worker(a, amount("small", 100_000, 150_000, 2), env=ASAN_ENV))
            ws.append(Interpreted(400, 800, 3))
        return bs, ws
    rel, chk = ALLREL(), ALLCHK()
    n = (16_000_000, 24_000_000) if prop != "C23" else (5_000_000, 7_000_000)
    bs = [rel, chk]
    ws = [Worker(rel, amount("small-deep" if prop not in ("C01", "C10", "C15", "C16", "C22", "C23") else "small", *n, 10), timeout=1500),
          Worker(chk, amount("small", n[0] // 2, n[1] // 2, 11), timeout=1500)]
    if prop in ("C22", "C01", "C18"):
        a = ASAN()
        bs.append(a)
        ws.append(Worker(a, amount("small", 1_000_000, 1_500_000, 12), env=ASAN_ENV, timeout=1500))
    f = Fuzzed(600 if prop in ("C01", "C22") else 240, 13)
    bs.append(f.fuzzer)
    ws.append(f)
    if prop == "C23":
        # two threads under a scheduler that switches between any two instructions, and reports data races
        ws.append(Elsewhere(H, HOST, ["--boundary", "1000000", "--history", "1000000"], 50, CORES, 240))
    if prop == "C22":
        ws.append(Interpreted(6_000, 12_000, 20, seconds=2400, timeout=3000))
    else:
        ws += [Elsewhere(H, x, ["--small", "small", "--boundary", "1000000", "--history", "1000000"], 30 + 10 * i, CORES, 150) for i, x in enumerate(Elsewhere.PLATFORMS)]
    return bs, ws


ENGINE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C18", "C20", "C22", "C23"]


# the smaller harnesses: crate, random cases per build (quick)
MINI = {"C13": ("harness_serde", 2_000_000), "C14": ("harness_diesel", 600_000), "C17": ("harness_api", 3_000_000), "C21": ("harness_api", 3_000_000)}


def mini_plan(prop, tier):
    crate, n = MINI[prop]
    n *= 1 if tier == "quick" else 12
    b = lambda profile: Build(crate, crate, profile)
    args = lambda n, salt: ["--small", "small", "--history", str(n), "--salt", str(salt)]
    rel, chk = b("release"), b("checked")
    bs, ws = [rel, chk], [Worker(rel, args(n, 0), timeout=1500), Worker(chk, args(n // 2, 1), timeout=1500)]
    if tier != "quick" or crate != "harness_diesel":
        # one of C19's builds
        o = Build(crate, crate, "checked", features=["std", "logs"])
        bs.append(o)
        ws.append(Worker(o, args(n // 4, 3), env={"KIT_LOGGER": "1"}, label=o.label + " with a logger", timeout=1500))
    if tier != "quick" and prop != "C21":
        a = Build(crate, crate, "release", toolchain=NIGHTLY, rustflags="-Zsanitizer=address", target=HOST, label="asan", cfgtag="asan")
        bs.append(a)
        ws.append(Worker(a, args(n // 4, 2), env=ASAN_ENV, timeout=1500))
    if tier != "quick" and crate != "harness_diesel":
        # SQLite is beyond the interpreter
        ws += [Elsewhere(crate, x, ["--history", "100000"], 30 + 10 * i, CORES, 150) for i, x in enumerate(Elsewhere.PLATFORMS)]
    return bs, ws


def plan(prop, tier):
    if prop in ENGINE:
        return engine_plan(prop, tier)
    if prop in MINI:
        return mini_plan(prop, tier)
    raise CheckError(f"no check for {prop}")


# ---------------------------------------------------------------- reporting


def write_evidence(prop, tier, seed, coverage, violations):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage, wall_s=round(time.time() - T0, 2), violations=violations,
             assumptions=["rustc, std and the operating system behave as specified",
                          "the reference (std's String, str, char and their decoders) is right"])
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def write_replay(prop, worker, f):
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    r = dict(property=prop, build=worker.build.spec(), env=worker.env, generator=f["gen"], choices=f["choices"], facet=f.get("facet"), detail=f["detail"], case=f.get("case"),
             rerun=f"python3 {V}/check.py replay <this file>")
    r.update(f.get("extra", {}))
    name = hashlib.sha256(json.dumps([prop, r["build"], f["gen"], f["choices"]]).encode()).hexdigest()[:12]
    path = os.path.join(V, "replays", f"{prop}-{name}.json")
    with open(path, "w") as o:
        json.dump(r, o, indent=1, ensure_ascii=False)
        o.write("\n")
    return path


def merge(prop, workers, tmp):
    """The evidence's coverage: what each worker measured, and the union of the distinct cases."""
    done = [w for w in workers if w.result is not None]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], builds={})
    for w in done:
        r = w.result
        cov["evaluations"] += r["cases"]
        if prop != "C19" or w is done[0]:
            cov["rule"] = r["rule"]
        cov["samples"] += r["samples"][: 6 if len(done) < 3 else 3]
        cov["builds"][w.label] = {k: v for k, v in r.items() if k not in ("samples", "rule", "finding", "foreign_example")}
        cov["builds"][w.label]["wall_s"] = round(w.secs, 2)
        if r.get("foreign_example"):
            cov["builds"][w.label]["foreign_example"] = r["foreign_example"]
    files = [w.hashes for w in done if os.path.exists(w.hashes)]
    if files:
        native = next(w for w in workers if not w.prefix)
        out = subprocess.run([native.build.path, "union"] + files, stdout=subprocess.PIPE, text=True, check=True)
        cov["distinct_nontrivial"] = int(out.stdout)
    if prop == "C17":
        cov["capacities_asked_of_the_compiler"] = "0 to 320 and eleven beyond: 1 to 255 accepted, those above refused"
    cov["rule"] = ("cases are choice sequences drawn by the generators (small scope enumerated completely, capacity boundaries and operation histories at random), "
                   "distinct by type, initial state and resolved operations; a case counts as non-trivial when " + cov["rule"]) if prop in ENGINE + ["C19"] else cov["rule"]
    if prop == "C19":
        cov["rule"] += "; the cases of C13, C17 and C21 (in the thorough tier C14 too) are counted by those properties' rules"
    return cov


def wrong_capacities(tmp):
    """What the compiler accepts and should not, or refuses and should not. Comes first: the harness itself names every capacity."""
    b = Build("harness_api", "capacities", label="capacities", cfgtag="caps")
    build_all([b], tmp)
    r = subprocess.run([b.path], stdout=subprocess.PIPE, text=True, timeout=60)
    lines = r.stdout.splitlines()
    if r.returncode != 0 or not lines or not lines[0].startswith("ASKED"):
        raise CheckError(f"capacities: exit {r.returncode}")
    return b, int(lines[0].split()[1]), [l[6:] for l in lines[1:]]


def decide(prop, tier, seed):
    os.makedirs(TARGET, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        if prop == "C19":
            return decide_c19(tier, seed, tmp)
        if prop == "C17":
            b, asked, wrong = wrong_capacities(tmp)
            if wrong:
                path = write_replay(prop, Worker(b, []), dict(gen="capacities", choices=[], detail="; ".join(f"capacity {w}" for w in wrong), case=wrong))
                write_evidence(prop, tier, seed, dict(evaluations=asked, distinct_nontrivial=asked, rule="every capacity asked of the compiler", samples=wrong[:10]), 1)
                log("; ".join(f"capacity {w}" for w in wrong)[:500])
                print(f"VIOLATION property={prop} replay={path}", flush=True)
                return 1
        builds, workers = plan(prop, tier)
        build_all(builds, tmp)
        errors, bad = [], []
        ran = []
        for w in workers:
            w.run(prop, seed, tmp)
            ran.append(w)
            try:
                f = w.finding(prop)
                if f:
                    bad.append((w, f))
                    break  # one is enough
            except CheckError as e:
                errors.append(str(e))
        if errors and not bad:
            raise CheckError("\n".join(errors))
        return conclude(prop, tier, seed, ran, bad, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# C19: the same cases in differently configured builds must show the same results.


def c19_families(tier):
    """(property whose cases are run, amount, configurations), per harness."""
    def f(crate, profile, feats, logger=False):
        return Build(crate, crate, profile, features=feats, label=f"{crate} {profile}/{'+'.join(feats) or 'none'}"), logger
    quick = tier == "quick"
    e = [f(H, "release", []), f(H, "release", ["std", "logs"], True), f(H, "checked", ["std", "serde-traits"]),
         f(H, "checked", ["std", "logs", "serde-traits", "diesel-traits", "no-panic"], True)]
    if not quick:
        e += [f(H, "release", x, l) for x, l in ((["std"], False), (["logs"], False), (["logs"], True), (["serde-traits"], False), (["diesel-traits"], False), (["std", "logs", "serde-traits"], False))]
        e += [f(H, "checked", x, l) for x, l in (([], False), (["logs"], True), (["std"], False), (["no-panic"], False))]
    out = [("C19", amount("small", *((250_000, 300_000) if quick else (3_000_000, 4_000_000)), 0), e)]
    for crate, props, n in (("harness_serde", ["C13"], 300_000), ("harness_api", ["C21", "C17"], 300_000), ("harness_diesel", ["C14"], 100_000)):
        if quick and crate == "harness_diesel":
            continue  # takes a minute to build
        c = [f(crate, "release", []), f(crate, "checked", ["std", "logs"], True)]
        if not quick:
            c += [f(crate, "release", ["std"]), f(crate, "release", ["logs"], True), f(crate, "checked", []), f(crate, "checked", ["std"])]
        for p in props:
            out.append((p, ["--small", "small", "--history", str(n if quick else n * 12), "--salt", "0"], c))
    return out


def digest_of(prop, config, gen, choices):
    """What one configuration shows on one case."""
    b, logger = config
    try:
        r = subprocess.run([b.path, "one", "--prop", prop, "--gen", gen, "--choices", ",".join(map(str, choices)), "--logger", str(int(logger))],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return None, None
    if died(r.returncode):
        return f"died ({r.returncode})", None
    if r.returncode not in (0, 1):
        return None, None
    d = json.loads(r.stdout.decode("utf-8", "replace"))
    return d["digest"], dict(d["case"], wrong=d["finding"]) if d.get("finding") else d["case"]


def decide_c19(tier, seed, tmp):
    families = c19_families(tier)
    uniq = {}
    for _, _, configs in families:
        for b, _ in configs:
            uniq.setdefault((b.dir, b.profile), b)
    build_all(list(uniq.values()), tmp)
    workers = []
    for prop, args, configs in families:
        for b, _ in configs:
            b.path = uniq[(b.dir, b.profile)].path
        found = compare(prop, args, configs, seed, tmp, workers)
        if found:
            return conclude("C19", tier, seed, workers, [found], tmp)
    return conclude("C19", tier, seed, workers, [], tmp)


def compare(prop, args, configs, seed, tmp, workers):
    """Runs one family's cases in all its configurations: (worker, what differs), or None."""
    mine, digests = [], []
    for b, logger in configs:
        w = Worker(b, args + ["--logger", str(int(logger))], label=b.label + (" with a logger" if logger else "") + ("" if prop == "C19" else f" {prop}"), timeout=1500)
        d = os.path.join(tmp, w.label.replace("/", "_").replace(" ", "_") + ".digests")
        w.args += ["--digests", d]
        w.run(prop, seed, tmp)
        mine.append(w)
        workers.append(w)
        digests.append({tuple(l.split()[:2]): l.split()[2] for l in open(d)} if os.path.exists(d) else None)

    def differ(i, j, gen, choices):
        a, b = digest_of(prop, configs[i], gen, choices)[0], digest_of(prop, configs[j], gen, choices)[0]
        return a is not None and b is not None and a != b

    def report(i, j, gen, choices):
        small = shrink(choices, lambda v: differ(i, j, gen, v), 400, 90)
        (a, ca), (b, cb) = digest_of(prop, configs[i], gen, small), digest_of(prop, configs[j], gen, small)
        show = lambda c, d: c if c is not None else d
        detail = f"{mine[i].label} and {mine[j].label} differ"
        for x, y in zip((ca or {}).get("steps", []) + [(ca or {}).get("wrong")], (cb or {}).get("steps", []) + [(cb or {}).get("wrong")]):
            if x != y:
                detail += f": {x} / {y}"
                break
        return mine[j], dict(detail=detail, facet="Differ", gen=gen, choices=small, case={mine[i].label: show(ca, a), mine[j].label: show(cb, b)},
                             extra=dict(compare=[dict(build=configs[k][0].spec(), logger=configs[k][1], cases=prop) for k in (i, j)]))

    for j, w in enumerate(mine):
        if w.rc == 0 and digests[j] is not None:
            continue
        if w.rc is None:
            raise CheckError(f"{w.label}: no answer")
        other = next((i for i, o in enumerate(mine) if o.rc == 0), None)
        if died(w.rc) and other is not None:
            for gen, choices in w.candidates():
                if differ(other, j, gen, choices):
                    return report(other, j, gen, choices)
        raise CheckError(f"{w.label}: exit {w.rc}, and no case tells it from another configuration\n{w.log}")
    for j in range(1, len(mine)):
        if digests[0].keys() != digests[j].keys():
            raise CheckError("the configurations did not run the same cases")
        diff = [k for k in digests[0] if digests[0][k] != digests[j][k]]
        for gen, block in sorted(diff, key=lambda k: (GENS.index(k[0]), int(k[1])))[:5]:
            rows = []
            for i in (0, j):
                r = subprocess.run([configs[i][0].path, "block", "--prop", prop, "--seed", str(seed), "--salt", "0", "--gen", gen, "--block", block, "--logger", str(int(configs[i][1]))],
                                   stdout=subprocess.PIPE, text=True, timeout=300)
                rows.append(r.stdout.splitlines())
            for a, b in zip(*rows):
                if a != b:
                    choices = [int(x) for x in a.split(" ")[1].split(",") if x] if " " in a else []
                    if differ(0, j, gen, choices):
                        return report(0, j, gen, choices)
        if diff:
            raise CheckError(f"{mine[j].label}: blocks {diff[:3]} differ but no single case does")
    return None


def conclude(prop, tier, seed, workers, bad, tmp):
    cov = merge(prop, workers, tmp)
    write_evidence(prop, tier, seed, cov, len(bad))
    for w, f in bad:
        path = write_replay(prop, w, f)
        log(f"[{w.label}] {f['detail']}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    if bad:
        return 1
    log(f"{prop}: held on {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct and non-trivial")
    return 0


# ---------------------------------------------------------------- entry


def replay(path):
    r = json.load(open(path))
    if r.get("compare"):
        return replay_compare(path, r)
    if r.get("platform"):
        bad, out = Elsewhere(r["crate"], r["platform"], [], 0, 0, 0).one(r["property"], r["generator"], r["choices"])
        print(out)
        # a data race takes the interpreter down
        bad = True if bad is None and "error: Undefined Behavior" in out else bad
        if bad:
            print(f"VIOLATION property={r['property']} replay={path}")
        return 2 if bad is None else int(bad)
    if r.get("interpreter") == "miri":
        bad, out, last = Interpreted(0, 0, 0).bare(r["generator"], r["choices"])
        print(last, out, sep="\n")
        if not bad:
            print("this case no longer fails")
            return 0
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    b = Build(**r["build"])
    if r["generator"] == "capacities":
        tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
        try:
            wrong = wrong_capacities(tmp)[2]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("\n".join(wrong) or "this case no longer fails")
        if wrong:
            print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if wrong else 0
    os.makedirs(TARGET, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        build_all([b], tmp)
        rc, out, err = run_one(b.path, r["property"], r["generator"], r["choices"], True, r.get("env"))
        print(out, err, sep="\n")
        if rc == 0:
            print("this case no longer fails")
            return 0
        if rc == 1 or died(rc):
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_compare(path, r):
    os.makedirs(TARGET, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        cs = [(Build(**c["build"]), c["logger"]) for c in r["compare"]]
        build_all([b for b, _ in cs], tmp)
        got = [digest_of(k.get("cases", "C19"), c, r["generator"], r["choices"]) for k, c in zip(r["compare"], cs)]
        print(json.dumps(got, indent=1, ensure_ascii=False))
        if None in (got[0][0], got[1][0]):
            return 2
        if got[0][0] == got[1][0]:
            print("this case no longer fails")
            return 0
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--seed" in sys.argv:
        seed = int(sys.argv[sys.argv.index("--seed") + 1])
    try:
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "setup":
            return setup()
        return decide(sys.argv[1], tier, seed)
    except CheckError as e:
        print(f"ERROR: {e}", file=sys.stderr, flush=True)
        return 2


def setup():
    os.makedirs(TARGET, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        uniq = {}
        for b in engine_plan("C22", "quick")[0] + [b for p in ("C13", "C14", "C17") for b in mini_plan(p, "quick")[0]] + [b for _, _, c in c19_families("quick") for b, _ in c]:
            uniq.setdefault((b.dir, b.profile), b)
        build_all(list(uniq.values()), tmp)
        log("miri runs" if Interpreted(0, 0, 0).bare("history", [3, 4])[2] else "miri does not run")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
