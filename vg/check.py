"""One check: dump the type-checked MIR of /repo's current tree, analyse it, decide the property's
obligations, write evidence/<id>.json, print KNOWN-FINDING / VIOLATION lines.

usage: check.py <property> <quick|thorough>
"""
import hashlib, importlib, json, multiprocessing, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "specs"))
import mirdata
from registry import REG

LIMIT = 720
START = time.time()


def part(args):
    pid, i, path, tier, label = args
    from spec import Ctx
    data = json.load(open(path))
    c = Ctx(pid, data, tier)
    c.deadline = START + LIMIT - 120
    try:
        parts(pid)[i](c)
    except BaseException as e:      # a defect of the machinery: no verdict, never an alarm
        c.und("%s part %d" % (pid, i), "-", "%s: %s" % (type(e).__name__, e))
    for o in c.obs:
        o["config"] = label
    return i, c.obs, c.entries, sorted(c.covered)


def parts(pid):
    mod, _ = REG[pid]
    x = importlib.import_module(mod).PROPS[pid]
    return list(x) if isinstance(x, (list, tuple)) else [x]


def known():
    """known findings: lines 'known: property=<id> key=<obligation id> :: text' """
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                head, _, text = l[7:].partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split(" ", 1))
                out.setdefault(f["property"], {})[f["key"]] = text
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(pid + ".") and f != pid + ".json":
            os.remove(os.path.join(ev, f))
    scratch = tempfile.mkdtemp(prefix="vg-")
    try:
        m = importlib.import_module(REG[pid][0])
        if pid in getattr(m, "RUN", {}):
            obs, entries, covered, meta = m.RUN[pid](REPO, scratch, tier)
        else:
            obs, entries, covered, meta = run(pid, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known().get(pid, {})
    seen, viol, kf = set(), [], []
    for o in obs:
        if o["verdict"] != "VIOLATION" or o["id"] in seen:
            continue
        seen.add(o["id"])
        if o["id"] in kn:
            o["verdict"] = "KNOWN"
            kf.append(o)
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["id"], kn[o["id"]]))
        else:
            viol.append(o)
    cnt = lambda v: sum(o["verdict"] == v for o in obs)
    und = [o for o in obs if o["verdict"] == "UNDECIDED"]
    mod, info = REG[pid]
    cov = {"obligations": len(obs), "discharged": cnt("PROVED"), "undecided": len(und), "refuted": len(viol), "known_findings": len(kf),
           "functions_analysed": covered, "functions": len(covered), "entry_points": [e["entry"] for e in entries],
           "loops_summarised": sum(e.get("loops", 0) for e in entries), "call_sites_followed": sum(e.get("calls", 0) for e in entries),
           "rule": info["rule"], "configurations": meta["configs"],
           "checker_cmd": "bash bin/check.sh %s %s" % (pid, tier), "trusted_base": info.get("trusted", TRUSTED),
           "explanation": info["rule"],
           "undecided_obligations": [{"id": o["id"], "why": str(o.get("detail"))[:300]} for o in und][:60],
           "samples": [{k: o[k] for k in ("id", "function") if k in o} for o in obs if o["verdict"] == "PROVED"][:12]}
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": info["level"],
               "coverage": cov, "assumptions": info.get("assumptions", ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d proved, %d undecided, %d refuted, %d known (%d functions, %.1f s)" %
          (pid, len(obs), cnt("PROVED"), len(und), len(viol), len(kf), len(covered), time.time() - t0))
    for o in und[:20]:
        print("undecided: %s: %s" % (o["id"], str(o.get("detail"))[:200]))
    if viol:
        rp = os.path.join(ev, pid + ".replay.json")
        json.dump({"property": pid, "violations": viol}, open(rp, "w"), indent=1)
        for o in viol[:20]:
            print("violated: %s in %s %s" % (o["id"], o.get("function"), json.dumps(o.get("detail"))[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


TRUSTED = ["rustc's type checker and MIR construction", "driver/mirdump.rs", "the value-graph engine vg/ and its models of core/alloc/num/ndarray functions", "the specifications in specs/"]
ASSUME = ["floating-point operations are read as operations on the real numbers (no rounding, NaN or infinity)",
          "integer addition and multiplication do not overflow their type; usize subtraction below zero is tracked as a panic",
          "numeric trait methods (num-traits, nalgebra::RealField, core::ops) on a generic scalar have their documented meaning"]


def gather(rs, until):
    """results of the parts, as far as they are there in time; the others have no verdict"""
    res = []
    for j, r in rs:
        try:
            res.append(r.get(timeout=max(0.1, until - time.time())))
        except multiprocessing.TimeoutError:
            res.append((j[1], [{"id": "part %d" % j[1], "verdict": "UNDECIDED", "detail": "analysis time limit", "function": "-", "config": j[4]}], [], []))
    return res


def run(pid, tier, scratch):
    t0 = time.time()
    try:
        path = mirdata.dump(REPO, scratch, "all", ["--all-features"])
    except mirdata.BuildError as e:
        # the tree does not compile: the other gate's concern; nothing can be said here
        return [{"id": "build", "verdict": "UNDECIDED", "detail": str(e)[-1500:], "function": "-"}], [], [], {"configs": []}
    confs = [("all-features", path)]
    np = len(parts(pid))
    jobs = [(pid, i, path, tier, "all-features") for i in range(np)]
    ctx = multiprocessing.get_context("fork")
    obs, entries, covered = [], [], set()
    # the default feature set is dumped concurrently; analysed only where its bodies differ
    with ctx.Pool(max(1, min(8, len(jobs)))) as pool:
        rs = [(j, pool.apply_async(part, (j,))) for j in jobs]
        other = None
        if REG[pid][1].get("configs", True):
            try:
                other = mirdata.dump(REPO, scratch, "default", [])
            except mirdata.BuildError as e:
                other = None
        res = gather(rs, t0 + LIMIT)
        pool.terminate()
    for i, o, e, c in res:
        obs += o
        entries += e
        covered |= set(c)
    if other:
        d = mirdata.differs(path, other, covered)
        confs.append(("default-features: %d analysed bodies, %d differ" % (len(covered), len(d)), other))
        if d:
            with ctx.Pool(max(1, min(8, np))) as pool:
                rs = [(j, pool.apply_async(part, (j,))) for j in ((pid, i, other, tier, "default-features") for i in range(np))]
                have = {x["id"]: x for x in obs}
                for i, o, e, c in gather(rs, t0 + LIMIT + 40):
                    for x in o:
                        # entry points may be absent in the smaller configuration
                        if x["verdict"] != "PROVED" and "no longer defined" in str(x.get("detail")):
                            continue
                        if x["verdict"] != have.get(x["id"], {}).get("verdict"):
                            x["id"] += "@default-features"
                            obs.append(x)
                pool.terminate()
    return obs, entries, sorted(covered), {"configs": [c for c, _ in confs]}


if __name__ == "__main__":
    main()
