"""Make and confirm planted bugs.   seed.py BATCH.py [ids...]
BATCH.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], main, needs, breaks)] ; main is the body of a Rust
main() that must return normally on the unchanged tree and panic with the change."""
import json, os, re, shutil, subprocess, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sd"
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-C target-cpu=x86-64"
export PATH="$HOME/.cargo/bin:$PATH"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sci-rs = { path = "$repo/sci-rs", features = ["std"] }
nalgebra = "0.33.2"
num-traits = "0.2"
ndarray = "0.16"
[workspace]
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo run --offline --quiet
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def reset():
    if not os.path.exists(W):
        shutil.copytree("/repo", W, symlinks=True)
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git fetch -q /repo HEAD && git checkout -q -f %s && git clean -fdq -e target -e Cargo.lock" % h, W)
    assert sh("git rev-parse HEAD", W).stdout.strip() == h


def demo(d):
    e = dict(os.environ, DEMO_TARGET="/tmp/sd-demo")
    return subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=e, capture_output=True, text=True)


def tests():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else [])
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="-C target-cpu=x86-64")
    bad = []
    for fl in ("--all-features", ""):
        r = subprocess.run("cargo test --workspace %s --no-fail-fast --offline -- --test-threads 8" % fl, shell=True, cwd=W, env=e, capture_output=True, text=True)
        out = r.stdout + r.stderr
        if "error: could not compile" in out or "error[" in out:
            return "does not compile:\n" + out[-1500:]
        bad += re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
    return sorted(set(bad))


def main():
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in S:
        if want and s["id"] not in want:
            continue
        reset()
        d = os.path.join(R, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(s.get("demo", DEMO))
        open(d + "/main.rs", "w").write(s["main"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = demo(d)
        if r0.returncode:
            print(s["id"], "DEMO FAILS UNCHANGED", (r0.stdout + r0.stderr)[-800:])
            shutil.rmtree(d)
            continue
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches %d times in %s: %r" % (t.count(old), f, old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
        r1 = demo(d)
        if r1.returncode == 0 or ("could not compile" in r1.stderr and s["prop"] != "C04"):
            print(s["id"], "DEMO DOES NOT FAIL", (r1.stdout + r1.stderr)[-500:])
            shutil.rmtree(d)
            continue
        b = tests()
        exp = KNOWN_FAIL
        if isinstance(b, str) or set(b) - exp:
            print(s["id"], "TESTS", b)
            shutil.rmtree(d)
            continue
        print(s["id"], "ok:", (r1.stderr.strip().splitlines() or [""])[-2:][0][:150])
    reset()


KNOWN_FAIL = set()
main()
