#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: each must apply, build, pass the stable tests, and its demo must tell it from the unchanged tree.

  seedcheck.py ID...    (all of /verif/seeded by default)
"""
import json, os, shutil, subprocess, sys, tempfile

SEED = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base
if isinstance(stable, dict):
    stable = stable.get("passed")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEED))
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    copy = os.path.join(work, "repo")
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=os.path.join(copy, "target"))
    bad = 0
    try:
        for i in ids:
            d = os.path.join(SEED, i)
            why = []
            r = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if r.returncode != 0:
                why.append("demo fails on the unchanged tree: " + r.stdout[-600:])
            r = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
            if r.returncode != 0:
                print(i, "DOES NOT APPLY", r.stdout)
                bad += 1
                continue
            subprocess.run("find src -name '*.rs' -exec touch {} +", cwd=copy, shell=True)
            for c in ("cargo check --lib --offline", "cargo check --lib --no-default-features --offline", "cargo check --all-features --benches --offline"):
                r = sh(c.split(), copy, env=env)
                if r.returncode != 0:
                    why.append(c + ": " + r.stdout[-1500:])
            r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8".split(), copy, env=env)
            open(os.path.join(work, "test.log"), "w").write(r.stdout)
            subprocess.run([sys.executable, "/opt/vp/results.py", os.path.join(work, "out.json"), "cargo:" + os.path.join(work, "test.log")], stdout=subprocess.DEVNULL)
            passed = set(json.load(open(os.path.join(work, "out.json")))["passed"])
            missing = [t for t in stable if t not in passed]
            if missing:
                why.append(f"breaks tests: {missing[:5]}" + ("" if "error" not in r.stdout[:3000] else r.stdout[:1500]))
            r = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if r.returncode == 0:
                why.append("demo passes with the patch")
            else:
                tail = " | ".join(r.stdout.strip().splitlines()[-3:])[:200]
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
            subprocess.run("find src -name '*.rs' -exec touch {} +", cwd=copy, shell=True)
            print(i, "ok: " + tail if not why else "BAD " + "; ".join(why), flush=True)
            bad += bool(why)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bad


sys.exit(main())
