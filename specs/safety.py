"""Memory safety of the safe interface (C01): every unchecked operation a safe public function can reach is in bounds,
whatever the arguments.

Call graph: which public functions reach an unsafe operation at all.  Those that do are analysed twice, once with the
unchecked operations unconstrained and once with their bounds as conditions of returning; the two conditions of
returning must be the same (whenever the call returns, every unchecked access on the way was in bounds)."""
import importlib
from spec import *
from effects import Graph

R, C_, n, m, k, w_ = nat("R"), nat("C"), nat("n"), nat("m"), nat("k"), nat("w")
_g = {}


def graph(data):
    if id(data) not in _g:
        _g[id(data)] = Graph(data)
    return _g[id(data)]


def sites(g, par):
    # unsafe operations of code written in this crate (macros of the standard library expand to some of their own)
    own = [u for u in par if g.fns[u]["blocks"] or g.fns[u]["unsafe"]]
    return sorted({"%s: %s" % (at, c) for u in own for c, at in g.info[u]["unsafe"]} |
                  {"%s: dereference of a raw pointer" % at for u in own for at in g.info[u]["deref"]} |
                  {"%s: mutable static %s" % (at, s) for u in par for s, at in g.info[u]["statics"] if any(q["n"] == s and q["mut"] for q in g.data["statics"])})


class Strict(Ctx):
    """the specifications' entry points, asked only about their unchecked operations"""

    def run(self, label, fn, build, tyenv=None, assume=None, timeout=120, recsum=None, summ=None):
        w = World(self.data)
        g = graph(self.data)
        try:
            f = w.find(fn) if isinstance(fn, str) else fn(w)
        except Missing:
            return None         # other properties say what must exist
        ss = sites(g, g.reach([f["uid"]]))
        if not ss:
            return None
        c = Ctx(self.pid, self.data, self.tier)
        c.deadline, c.trace = self.deadline, self.trace
        # with overflow checks, and as compiled without them
        for wraps, how in ((False, ""), (True, " (release)")):
            rs = []
            for strict in (False, True):
                def b(w):
                    w.I.strict, w.I.wraps = strict, wraps
                    return build(w)
                rs.append(Ctx.run(c, label + how, fn, b, tyenv, assume, timeout, recsum, None))
            if None not in rs:
                self.compare(label + how, f, *rs)
        self.entries += c.entries
        self.covered |= c.covered
        self.obs += c.obs
        return None

    def compare(self, label, f, a, b):
        rs = (a, b)
        seen, unk = a.w.I.unsafe_seen | b.w.I.unsafe_seen, a.w.I.unsafe_unk | b.w.I.unsafe_unk
        if unk:
            self.und("%s/unsafe operations" % label, f["path"], "not modelled: %s" % sorted(unk)[:4])
        if seen:
            pre = tuple(x for _, x in a.w.st.pc[:a.npc])
            cond = [F if r.diverges else band(*[x for q, x in r.w.st.pc[r.npc:] if q in "AG"]) for r in rs]
            a.ctx = b.ctx = self
            a.w.st.taint = a.w.st.taint or b.w.st.taint
            a.emit("unchecked operations in bounds", [Ob("unchecked operations in bounds", pre, cond[1], cond[0], ())], None)
            self.obs[-1]["sites"] = sorted(seen)


def reuse(mod, pid, i):
    def f(c):
        s = Strict(c.pid, c.data, c.tier)
        s.deadline, s.trace = c.deadline, c.trace
        x = importlib.import_module(mod).PROPS[pid]
        (list(x) if isinstance(x, (list, tuple)) else [x])[i](s)
        c.obs += s.obs
        c.entries += s.entries
        c.covered |= s.covered
    return f


def wild(c0):
    """arguments no documentation promises anything about: the safe interface must still not go out of bounds"""
    c = Strict(c0.pid, c0.data, c0.tier)
    c.deadline, c.trace = c0.deadline, c0.trace
    a, b = AV("a"), AV("b")
    at, bt = lambda i: sel(a, (), [lift(i)]), lambda i: sel(b, (), [lift(i)])
    X = AV("x")
    mat = lambda: Mat(R, C_, lambda i, j: sel(X, (), [lift(i), lift(j)]))
    V_ = lambda v: enumv("Pad", c.variant("Pad", v))
    opt = lambda v: Opt(T, v)
    c.run("lfilter_zi_dyn[any lengths]", "lfilter_zi_dyn", lambda w: [w.cell(mkseq(n, bt)), w.cell(mkseq(m, at))], assume=[TM.bnot(eq(at(0), 0))])
    for p in range(0, 6):
        for q in range(0, 6):
            for z in range(0, q + 1):
                c.run("lfilter_zi_dyn[%d and %d coefficients, %d leading zeros]" % (p, q, z), "lfilter_zi_dyn",
                      lambda w: [w.cell(Arr([bt(i) for i in range(p)])), w.cell(Arr([ZERO] * z + [at(i) for i in range(z, q)]))], assume=[TM.bnot(eq(at(z), 0))])
    for p in range(0, 6):
        c.run("companion_dyn[any size, %d coefficients]" % p, "companion_dyn", lambda w: [iterof(Arr([at(i) for i in range(p)])), m])
    c.run("companion_dyn[any lengths]", "companion_dyn", lambda w: [iterof(mkseq(n, at)), m])
    for axis in (0, 1):
        c.run("odd_ext_dyn[any length, axis %d]" % axis, "odd_ext_dyn", lambda w: [mat(), n, lift(axis)])
        for what in ("Even", "Odd", "Constant", "None"):
            for e in (True, False):
                c.run("pad[%s, axis %d, %s]" % (what, axis, e), "pad", lambda w: [V_(what), opt(n) if e else Opt(F, n), mat(), lift(axis), m])
    c.run("savgol_coeffs_dyn[any]", "savgol_coeffs_dyn", lambda W: [w_, k, opt(m), opt(real("delta"))])
    c.run("savgol_filter_dyn[any]", "savgol_filter_dyn", lambda W: [iterof(mkseq(n, at)), w_, k, opt(m), opt(real("delta"))])
    c0.obs += c.obs
    c0.entries += c.entries
    c0.covered |= c.covered


def inventory(c):
    """every safe public function: the unsafe operations it can reach"""
    g = graph(c.data)
    for u in g.entries(lambda f: not f["unsafe"]):
        f = g.fns[u]
        par = g.reach([u])
        ss = sites(g, par)
        c.covered |= {g.fns[v]["path"] for v in par}
        if not ss:
            c.ok("%s: reaches no unsafe operation" % f["path"], f["path"])
        elif not any(q in f["path"] for q in ANALYSED):
            c.und("%s: unsafe operations" % f["path"], f["path"], "not among the analysed entry points: %s" % ss[:3])
    if not c.obs:
        c.und("inventory", "-", "no public function found")
    c.entries.append({"entry": "inventory of unsafe operations: %d sites" % len(sites(g, g.fns)), "calls": sum(len(g.edges(u)) for u in g.fns), "loops": 0})


ANALYSED = ["lfilter_zi_dyn", "sosfilt_zi_dyn", "sosfiltfilt_dyn", "odd_ext_dyn", "pad", "companion_dyn", "savgol", "sosfilt", "Bessel", "convolve", "correlate", "resample", "square",
            "stats::", "factorial", "comb", "perm", "stirling2", "poly_dyn", "zpk2tf_dyn", "lp2", "bilinear_zpk_dyn", "cheb", "butt", "relative_degree"]
USE = [("filt", "C05"), ("zi", "C07"), ("ext", "C08"), ("ff", "C09"), ("sig", "C11"), ("sig", "C12"), ("design", "C15"), ("design", "C16"), ("tf", "C17"), ("stats", "C18"), ("stats", "C20"),
       ("special", "C21"), ("special", "C22"), ("special", "C23"), ("sig", "C24"), ("ext", "C25"), ("zi", "C26")]


def parts():
    out = [inventory, wild]
    for mod, pid in USE:
        x = importlib.import_module(mod).PROPS[pid]
        out += [reuse(mod, pid, i) for i in range(len(x) if isinstance(x, (list, tuple)) else 1)]
    return out


PROPS = {"C01": parts()}
