"""Build the MIR dump of /repo's working tree (nothing is written in /repo but ignored files)."""
import json, os, subprocess, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def driver(scratch):
    """compile the dumper from its committed source (kept in build/ under a content hash)"""
    src = os.path.join(ROOT, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    out = os.path.join(ROOT, "build", "mirdump-" + h)
    if not os.path.exists(out):
        tmp = os.path.join(scratch, "mirdump-build")
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "-C", "prefer-dynamic", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("driver does not build:\n" + r.stderr[-3000:])
        try:
            tmp2 = out + ".%d" % os.getpid()
            import shutil
            shutil.copy2(tmp, tmp2)
            os.replace(tmp2, out)
        except OSError:
            return tmp
    return out


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def dump(repo, scratch, name, flags):
    drv = driver(scratch)
    out = os.path.join(scratch, "out-" + name)
    tgt = os.path.join(scratch, "tgt-" + name)
    os.makedirs(out)
    e = env({"LD_LIBRARY_PATH": sysroot() + "/lib", "MIRDUMP_OUT": out, "MIRDUMP_CRATES": "sci_rs", "RUSTC_WORKSPACE_WRAPPER": drv,
             "CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "-Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=warn"})
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-p", "sci-rs", "--lib"] + flags, cwd=repo, env=e, capture_output=True, text=True)
    p = os.path.join(out, "sci_rs.json")
    if r.returncode or not os.path.exists(p):
        raise BuildError(r.stderr)
    return p


def bodies(path):
    d = json.load(open(path))
    return {f["uid"]: json.dumps(f, sort_keys=True) for f in d["fns"]} if isinstance(d["fns"], list) else \
        {u: json.dumps(f, sort_keys=True) for u, f in d["fns"].items()}


def differs(a, b, covered):
    x, y = bodies(a), bodies(b)
    return [u for u in covered if u in x and u in y and x[u] != y[u]]
