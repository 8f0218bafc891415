#!/usr/bin/env python3
"""Run one check:  run.py <PROPERTY-ID> [--repo DIR] [--dump FILE]

1. builds the rustc driver (driver/) if its binary is missing,
2. compiles the repository's current tree with the driver as rustc wrapper (type-check
   only), which dumps the resolved MIR of the crate and of the generic library code it uses,
3. runs the property's rules over that dump, writes evidence/<ID>.json, prints the verdict."""
import fcntl, hashlib, importlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
BUILD = os.path.join(HERE, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-4000:])
        raise SystemExit("ERROR: command failed: " + " ".join(cmd))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    binp = os.path.join(BUILD, "driver", "debug", "mirdump")
    src = os.path.join(HERE, "driver")
    h = hashlib.sha256()
    for f in ("src/main.rs", "Cargo.toml", "rust-toolchain.toml"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return binp
    sh(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "driver")], env=base_env())
    open(stamp, "w").write(h.hexdigest())
    return binp


def forget(target):
    """drop cargo's record of having compiled the crate, so that the driver runs on every call"""
    for sub in ("build", ".fingerprint", "deps", "incremental"):
        d = os.path.join(target, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if "fluffy_tribble" in n:
                    q = os.path.join(d, n)
                    shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)


def make_dump(out):
    """compile the current tree of the repository under the driver; returns the dump path"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp = build_driver()
        target = os.path.join(BUILD, "target")
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            for c in ("/opt/vp/Cargo.lock.initial", os.path.join(HERE, "Cargo.lock.repo")):
                if os.path.exists(c):
                    shutil.copy(c, lock)     # ignored by git in the repository
                    break
        forget(target)
        env = base_env()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=env).strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["MIRDUMP_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = binp
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", target]
        sh(cmd, env=env, cwd=REPO)
        p = os.path.join(out, "fluffy_tribble.json")
        if not os.path.exists(p):
            shutil.rmtree(target, ignore_errors=True)     # cargo considered the crate fresh: compile from scratch
            sh(cmd, env=env, cwd=REPO)
    if not os.path.exists(p):
        raise SystemExit("ERROR: the driver produced no dump")
    return p


def known(pid):
    """keys listed as known findings of this property"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key=")
                key, _, what = rest[4:].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def bounded(memory=14 << 30, seconds=720):
    """what does not finish within these bounds counts as not understood"""
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    def late(*_):
        raise RuntimeError("not decided within %d s" % seconds)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--setup":
        tmp = tempfile.mkdtemp(prefix="mirdump-")
        try:
            make_dump(tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("driver built, repository analysed once")
        return
    dump = args[args.index("--dump") + 1] if "--dump" in args else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = None
    if dump is None:
        tmp = tempfile.mkdtemp(prefix="mirdump-")
        dump = make_dump(tmp)
    try:
        import model
        M = model.Model(dump)
        M.tier = tier
        if M.d.errors:
            raise SystemExit("ERROR: the crate does not type-check")
        mod = importlib.import_module("checks." + pid.lower())
        R = model.Report(pid, M)
        bounded()
        try:
            mod.run(M, R)
        except model.AnalysisError as x:
            R.viol.append(("anchor", "the construct this rule is anchored on was not found or not understood: %s" % x))
        except (Exception, RecursionError) as x:     # fail closed: what the analysis cannot digest is not verified
            traceback.print_exc()
            R.viol.append(("anchor", "the code has a form the analysis cannot digest: %s: %s" % (type(x).__name__, x)))
        rc = R.finish(HERE, tier, seed, time.time() - t0, known(pid))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
