#!/usr/bin/env python3
"""Runs one check (run.py N01 [--thorough]) or builds everything (run.py --setup).

Each run brings the workspace views up to date with /repo's working tree, rebuilds the harness that
decides the property, and runs it. Exit code: the harness's own (0 held, 1 violation); 2 if /repo or
the harness does not build; 3 if the harness broke.
"""
import fcntl, glob, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import sync  # noqa: E402

BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
#: harness package -> properties it decides
PACKAGES = {
    "h-sim": "N01 N02 N03 N04 N05 N06 N07 N08 N09".split(),
}
for f in sorted(glob.glob(os.path.join(VERIF, "harness", "h-*", "properties.txt"))):
    PACKAGES[os.path.basename(os.path.dirname(f))] = open(f).read().split()


def environment():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings --cfg verif",
               VERIF_ROOT=VERIF)
    return env


def build(pkg):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = sync.main()
        memo = os.path.join(BUILD, "built-%s.json" % pkg)
        try:
            last = json.load(open(memo))
        except (OSError, ValueError):
            last = {}
        # Never trust file times alone: a crate whose content moved is rebuilt.
        moved = [k for k in now if last.get(k) != now[k]]
        for k in moved:
            crate = os.path.basename(k.split(":", 1)[1])
            if crate:
                for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", crate + "-*")):
                    shutil.rmtree(d, ignore_errors=True)
        if moved and os.path.exists(memo):
            os.remove(memo)
        log = os.path.join(BUILD, "build-%s.log" % pkg)
        with open(log, "w") as out:
            r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness", pkg),
                               env=environment(), stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode != 0:
            sys.stdout.write(open(log).read()[-6000:])
            print("build of %s failed" % pkg)
            return False
        json.dump(now, open(memo, "w"))
    return True


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        ok = all([build(p) for p in PACKAGES])
        return 0 if ok else 2
    prop = args[0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    pkg = next(p for p, ids in PACKAGES.items() if prop in ids)
    start = time.time()
    if not build(pkg):
        return 2
    env = environment()
    env["VERIF_TIER"] = "thorough" if thorough else "quick"
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("RUST_BACKTRACE", "0")
    limit = 6 * 3600 if thorough else 850 - (time.time() - start)
    p = subprocess.Popen([os.path.join(TARGET, "debug", pkg), prop], env=env, cwd=VERIF,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        print("check %s ran out of time" % prop)
        return 3
    if rc not in (0, 1):
        print("check %s ended with %s" % (prop, rc))
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
