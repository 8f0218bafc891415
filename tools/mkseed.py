#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPECFILE [ids]  (SPECFILE is python defining SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=rust main body)}).
Writes /verif/seeded/<id>/, confirms it in scratch copies and runs the property's check against the patched copy."""
import json, os, re, shutil, subprocess, sys
V = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the bug
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf -- "${tmp:?}"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && grep -q downcast "$repo/Cargo.lock" && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
fluffy_tribble = { path = "$repo" }
nalgebra = "0.24.0"
generational-arena = "0.2.8"
[workspace]
END
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cd "$tmp" && cargo build --offline -q || exit 99
timeout 60 "$tmp/target/debug/demo" > "$tmp/out" 2> "$tmp/err"
rc=$?
head -c 1500 "$tmp/err"
exit $rc
'''
HEAD = '''#![allow(unused)]
use fluffy_tribble::*;
use fluffy_tribble::types::*;
fn close(a: f32, b: f32) -> bool { (a - b).abs() < 1e-3 * (1.0 + b.abs()) }
fn vclose(a: Vec3, b: Vec3) -> bool { (a - b).magnitude() < 1e-3 * (1.0 + b.magnitude()) }
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ids = sys.argv[2:] or list(g["SEEDS"])
    work = "/tmp/seedwork"
    if not os.path.isdir(work):
        sh(["cp", "-a", "/repo", work])
    for i in ids:
        s = g["SEEDS"][i]
        sh(["git", "fetch", "-q", "/repo", "HEAD"], work)
        sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], work)
        d = os.path.join(V, i)
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            src = open(p).read()
            if src.count(old) != 1:
                print(i, "EDIT MATCHES", src.count(old), f, old[:60])
                ok = False
                break
            open(p, "w").write(src.replace(old, new))
        if not ok:
            continue
        rc, diff = sh(["git", "diff"], work)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(HEAD + s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh(["cargo", "test", "--offline", "--workspace"], work)
        m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", out)
        tests = m[0] if m else out[-600:]
        rc1, out1 = sh(["bash", d + "/demo.sh"], "/repo")
        rc2, out2 = sh(["bash", d + "/demo.sh"], work)
        env = dict(os.environ, VERIF_REPO=work)
        rc3, out3 = sh([sys.executable, "run.py", s["prop"]], "/verif", env)
        good = tests and tests[0] == "ok" and rc1 == 0 and rc2 not in (0, 99)
        print("%s %s: tests %s, demo clean %d bug %d, check %s -> %d" % ("OK  " if good else "BAD ", i, tests, rc1, rc2, s["prop"], rc3))
        if rc1:
            print("   clean demo:", out1[-700:])
        if rc2 in (0, 99):
            print("   bug demo:", out2[-500:])
        if rc3 != 1:
            print("   MISSED by", s["prop"], out3[-500:])
        else:
            print("   ", [l for l in out3.splitlines()][0][:260])
    sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], work)


main()
