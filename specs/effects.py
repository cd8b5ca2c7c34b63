"""Effect and call-graph analyses of the crate's MIR: hidden state and environment (C03), heap allocation in the
routines meant to run without an allocator (C02), feature tiers (C04).

Each rule walks the call graph of the compiled bodies from the public entry points (a callee that the type checker
resolves to a local body, every closure and function constant a body mentions, every local implementation of a trait
method that is called unresolved) and reports the construct that breaks the rule with the call path that reaches it."""
import concurrent.futures as cf
import json, re
import mirdata


class Graph:
    def __init__(self, data):
        self.data = data
        self.fns = {f["uid"]: f for f in data["fns"]}
        self.impls = {}
        for f in data["fns"]:
            if f["impl"] and f["impl"].get("trait") and f["kind"] == "AssocFn":
                self.impls.setdefault(f["impl"]["trait"] + "::" + f["uid"].rsplit("::", 1)[1], []).append(f["uid"])
        self.info = {u: scan(f) for u, f in self.fns.items()}

    def entries(self, keep):
        return [u for u, f in self.fns.items() if f["pub"] and f["kind"] in ("Fn", "AssocFn") and keep(f)]

    def edges(self, u):
        out = []
        for v, at in self.info[u]["refs"]:
            if v in self.fns:
                out.append((v, at))
        for n, at in self.info[u]["virtual"]:
            for v in self.impls.get(n, ()):
                out.append((v, at))
        return out

    def reach(self, roots):
        """uid -> (caller, call site) on a shortest path from a root"""
        par = {r: None for r in roots}
        q = list(roots)
        while q:
            u = q.pop(0)
            for v, at in self.edges(u):
                if v not in par:
                    par[v] = (u, at)
                    q.append(v)
        return par

    def path(self, par, u):
        out = []
        while u is not None:
            p = par[u]
            out.append(self.fns[u]["path"] + (" (called at %s)" % p[1] if p else ""))
            u = p[0] if p else None
        return list(reversed(out))


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for y in x.values():
            walk(y, f)
    elif isinstance(x, list):
        for y in x:
            walk(y, f)


def scan(fn):
    """what one body mentions: functions, closures, statics, types, external callees, unsafe calls"""
    refs, virt, ext, types, statics, uns, odd, deref = [], [], [], set(), [], [], [], []

    def term(b):
        at = fn["span"]
        ptrs = {i for i, l in enumerate(b["locals"]) if l["k"] == "ptr"}
        for bb in b["bbs"]:
            if bb.get("c"):
                continue        # unwinding
            for s in bb["s"]:
                at = s[3] if s[0] == "=" else at
                walk(s, lambda x: seen(x, at))
                if ptrs:
                    walk(s, lambda x: "l" in x and x.get("p") and x["l"] in ptrs and x["p"][0][0] == "*" and deref.append(at))
                if s[0] == "=" and s[2]["k"] == "rawptr":
                    odd.append(("raw pointer", at))
                if s[0] == "=" and s[2]["k"] == "cast" and "Ptr" in s[2]["c"] and "Expose" in s[2]["c"]:
                    odd.append(("address as a number", at))
                if s[0] == "=" and s[2]["k"] == "o":
                    if "ThreadLocal" in s[2]["s"] or "thread_local" in s[2]["s"]:
                        statics.append((s[2]["s"], at))
            t = bb["t"]
            at = t.get("s", at)
            walk(t, lambda x: seen(x, at))
        for l in b["locals"]:
            walk(l, lambda x: seen(x, fn["span"]))
        tys = []
        for i, l in enumerate(b["locals"]):
            tys.append(json.dumps(l))
        types.update(tys)

    def seen(x, at):
        k = x.get("k")
        if k == "closure":
            refs.append((x["u"], at))
        elif k == "fndef":
            r = x.get("r")
            if r:
                refs.append((r["u"], at))
                if not r["local"]:
                    ext.append((r["n"], at))
            else:
                refs.append((x["u"], at))
                virt.append((x["n"], at))
                ext.append((x["n"], at))
            if x.get("unsafe"):
                uns.append((x["n"], at))
        elif k == "const":
            if "static" in x:
                statics.append((x["static"], at))
            if "u" in x:
                refs.append((x["u"], at))
            if x.get("fnptr"):
                ext.append((x["fnptr"], at))
    term(fn["body"])
    for p in fn["promoted"]:
        term(p)
    return {"refs": refs, "virtual": virt, "ext": ext, "types": types, "statics": statics, "unsafe": uns, "odd": odd, "deref": deref}


# ------------------------------------------------------------------------------------------------ dumps
TIERS = {"none": ["--no-default-features"], "alloc": ["--no-default-features", "--features", "alloc"],
         "default": [], "std": ["--no-default-features", "--features", "std"], "all": ["--all-features"]}


def dumps(repo, scratch, names):
    mirdata.driver(scratch)
    def one(n):
        try:
            return n, json.load(open(mirdata.dump(repo, scratch, n, TIERS[n]))), None
        except mirdata.BuildError as e:
            return n, None, str(e)
    with cf.ThreadPoolExecutor(4) as ex:
        return {n: (d, e) for n, d, e in ex.map(one, names)}


def errors(text):
    """the compiler's errors: first line and place of each"""
    out, ls = [], text.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error") and not l.startswith("error: could not compile"):
            at = next((x.strip() for x in ls[i + 1:i + 4] if x.strip().startswith("-->")), "")
            out.append("%s %s" % (l, at))
    return out


def ob(id, verdict, function, detail=""):
    return {"id": id, "verdict": verdict, "function": function, "detail": detail, "config": ""}


# ------------------------------------------------------------------------------------------------ C03
ENV = ["std::time::", "std::env::", "std::fs::", "std::io::", "std::process::", "std::thread::", "std::net::", "std::os::", "std::sync::",
       "core::sync::atomic::", "std::sync::atomic::", "std::hash::random::", "std::collections::hash_map::RandomState", "rand::", "getrandom::", "std::alloc::",
       "std::panic::catch_unwind", "std::random::", "libc::"]
PURE_IO = ["std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint"]
ALLOWED_SYNC = ["std::sync::Arc::", "<std::sync::Arc", "alloc::sync::Arc"]
CELLS = ["core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell", "core::cell::OnceCell", "core::cell::LazyCell", "std::sync::", "core::sync::atomic", "std::thread::"]


def purity(repo, scratch, tier):
    ds = dumps(repo, scratch, ["std", "alloc", "none"])
    obs, ent, cov = [], [], set()
    for n, (d, err) in ds.items():
        if d is None:
            obs.append(ob("tier %s" % n, "UNDECIDED", "-", "does not compile: %s" % errors(err)[:2]))
            continue
        g = Graph(d)
        bad_static = {s["n"] for s in d["statics"] if s["mut"] or not s["freeze"]}
        roots = g.entries(lambda f: not f["unsafe"])
        for r in roots:
            par = g.reach([r])
            why = None
            for u in par:
                x = g.info[u]
                for s, at in x["statics"]:
                    if s in bad_static or "hreadLocal" in s or "thread_local" in s:
                        why = why or ("uses the mutable or interior-mutable static %s" % s, at, u)
                for c, at in x["ext"]:
                    if any(c.startswith(p) or ("<" + p) in c for p in ENV) and not any(c.startswith(p) for p in ALLOWED_SYNC):
                        what = "prints" if any(c.startswith(p) for p in PURE_IO) else "depends on the environment or keeps state:"
                        why = why or ("%s calls %s" % (what, c), at, u)
                cov.add(g.fns[u]["path"])
            p = g.fns[r]["path"]
            if why:
                obs.append(ob("%s/%s: no hidden state or environment" % (n, p), "VIOLATION", p,
                              {"construct": why[0], "at": why[1], "in": g.fns[why[2]]["path"], "call_path": g.path(par, why[2])}))
            else:
                odd = [o for u in par for o in g.info[u]["odd"] if o[0] == "address as a number"]
                obs.append(ob("%s/%s: no hidden state or environment" % (n, p), "UNDECIDED" if odd else "PROVED", p, str(odd[:2]) if odd else ""))
        # a static that nothing public reaches keeps no state a caller could see
        ent.append({"entry": "feature tier %s: %d public functions, %d bodies, %d statics" % (n, len(roots), len(g.fns), len(d["statics"])),
                    "calls": sum(len(g.edges(u)) for u in g.fns), "loops": 0})
    return obs, ent, sorted(cov), {"configs": [n for n in ds]}


# ------------------------------------------------------------------------------------------------ C02, C04
HEAP = ["alloc::vec::Vec", "alloc::boxed::Box", "alloc::string::String", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::collections", "std::collections", "hashbrown",
        "std::vec::Vec", "std::boxed::Box", "std::string::String", "alloc::borrow::Cow", "VecStorage", "OwnedRepr", "OwnedArcRepr", "alloc::vec::IntoIter"]
# the routines documented or named as running without an allocator
FREE = ["stats::mean", "stats::variance", "stats::stdev", "stats::autocorr", "stats::autocorr_fast32", "stats::rms_fast32", "stats::lag_diff", "stats::rmssd", "stats::zscore",
        "signal::filter::sosfilt::sosfilt_st", "signal::filter::sosfilt::sosfilt_item", "signal::filter::sosfilt::sosfilt_fast32_st", "signal::filter::sosfilt::sosfilt_ifast32_st",
        "signal::filter::design::sos::Sos::<F>::new"]
FREE_TRAITS = {"special::bessel::Bessel": ["i0", "i0e"], "special::combinatorics::Combinatoric": ["comb", "comb_rep", "perm", "stirling2"],
               "special::factorial::Factorial": ["factorial", "factorial2", "factorialk"]}
PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


def prim(t):
    return t.get("n") if t.get("k") in ("int", "uint", "float") else None


def last(p):
    return p.rsplit("::", 1)[1]


def free_fns(d):
    """the allocation-free routines, by name and by trait: label -> functions of this configuration"""
    out = {}
    for want in FREE:
        out[want.replace("::<F>", "")] = [f for f in d["fns"] if f["kind"] in ("Fn", "AssocFn") and f["pub"] and last(f["path"]) == last(want) and not f["unsafe"]
                                          and (f["path"].split("::")[0] == want.split("::")[0]) and ("Sos" in f["path"] or "Sos" not in want)
                                          and ("Sos" not in want or f["impl"] and not f["impl"].get("trait"))]
    for tr, ms in FREE_TRAITS.items():
        for m in ms:
            for p in (PRIMS if "essel" not in tr else ["f32", "f64"]):
                out["%s::%s for %s" % (last(tr), m, p)] = [f for f in d["fns"] if f["impl"] and f["impl"].get("trait") and last(f["impl"]["trait"]) == last(tr)
                                                           and prim(f["impl"]["self"]) == p and f["uid"].rsplit("::", 1)[1] == m]
    return out


def heapfree(repo, scratch, tier):
    ds = dumps(repo, scratch, ["none", "alloc", "std"])
    obs, ent, cov = [], [], set()
    for n, (d, err) in ds.items():
        if d is None:
            obs.append(ob("tier %s" % n, "UNDECIDED", "-", "does not compile: %s" % errors(err)[:2]))
            continue
        g = Graph(d)
        ff = free_fns(d)
        extra = [f for f in d["fns"] if f["pub"] and f["kind"] in ("Fn", "AssocFn") and last(f["path"]).endswith("_st")]
        for f in extra:
            if not any(f in v for v in ff.values()):
                ff[f["path"]] = [f]
        for lab, fs in ff.items():
            for f in fs:
                par = g.reach([f["uid"]])
                why = None
                for u in par:
                    for t in g.info[u]["types"]:
                        h = next((h for h in HEAP if '"' + h in t or "::" + h in t), None)
                        if h:
                            why = why or ("has a value of heap type %s" % h, g.fns[u]["span"], u)
                    for c, at in g.info[u]["ext"]:
                        if c.startswith("alloc::") or c.startswith("<alloc::") or c.startswith("std::alloc") or ("collect_vec" in c) or c.endswith("Itertools::sorted") or c.endswith("to_vec"):
                            why = why or ("calls %s" % c, at, u)
                    cov.add(g.fns[u]["path"])
                p = f["path"]
                if why:
                    obs.append(ob("%s/%s: no heap allocation" % (n, lab), "VIOLATION", p,
                                  {"construct": why[0], "at": why[1], "in": g.fns[why[2]]["path"], "call_path": g.path(par, why[2])}))
                else:
                    obs.append(ob("%s/%s: no heap allocation" % (n, lab), "PROVED", p))
        ent.append({"entry": "feature tier %s: %d routines" % (n, len(ff)), "calls": sum(len(g.edges(u)) for u in g.fns), "loops": 0})
    return obs, ent, sorted(cov), {"configs": list(ds)}


def tiers(repo, scratch, tier):
    ds = dumps(repo, scratch, ["none", "alloc", "default", "std", "all"])
    obs, ent, cov = [], [], set()
    if all(d is None for d, _ in ds.values()):
        return [ob("build", "UNDECIDED", "-", "nothing compiles")], [], [], {"configs": []}
    for n, (d, err) in ds.items():
        if d is None:
            es = errors(err)
            # an error without a place in this crate (a missing dependency, a broken toolchain) says nothing about it
            mine = [e for e in es if "sci-rs/src" in e or "src/" in e and ".cargo" not in e]
            obs.append(ob("tier %s: compiles" % n, "VIOLATION" if mine else "UNDECIDED", "-", {"features": TIERS[n], "errors": (mine or es)[:6]}))
            continue
        obs.append(ob("tier %s: compiles" % n, "PROVED", "-"))
        ent.append({"entry": "feature tier %s: %d bodies" % (n, len(d["fns"])), "calls": 0, "loops": 0})
        if n in ("none", "alloc"):
            obs.append(ob("tier %s: the standard library is not linked" % n, "VIOLATION" if "std" in d["crates"] else "PROVED", "-", "crates linked: %s" % d["crates"] if "std" in d["crates"] else ""))
        for lab, fs in free_fns(d).items():
            cov |= {f["path"] for f in fs}
            obs.append(ob("tier %s: %s is there" % (n, lab), "PROVED" if fs else "VIOLATION", lab, "" if fs else "public in no module of this configuration"))
    if ds["all"][0] and ds["default"][0]:
        # what the default configuration offers is offered with every feature on
        # the compiler prints re-exported paths of core through std when std is linked
        pub = lambda d: {re.sub(r"\b(std|alloc|core)::", "", f["path"]) for f in d["fns"] if f["pub"] and f["kind"] in ("Fn", "AssocFn")}
        a, b = pub(ds["default"][0]), pub(ds["all"][0])
        for f in sorted(a - b):
            obs.append(ob("features are additive: %s" % f, "UNDECIDED" if "<" in f else "VIOLATION", f, "public by default but not with every feature enabled"))
        obs.append(ob("features are additive", "PROVED", "-", "%d public functions by default, %d with every feature" % (len(a), len(b))))
    return obs, ent, sorted(cov), {"configs": list(ds)}


RUN = {"C02": heapfree, "C03": purity, "C04": tiers}
