from spec import *
from spec import memo
from loops import system

N, SEC = nat("N"), nat("S")
X = AV("x")
SOS = AV("sos")
x = lambda i: sel(X, (), [lift(i)])
co = lambda n, i, k: sel(SOS, (n, i), [lift(k)])


def cascade_inner(xin, z0, s):
    """signal entering section s (s = number of sections: the output)"""
    k = fresh("#k")
    ph = fresh("ph", "r")
    g = mk_group(k, [(ph, (), xin, co("b", 0, lift(k)) * lift(ph) + z0(lift(k)))])
    return TM.mk_loop(g, 0, lift(s), ())


def df2t():
    """the state recurrence of the cascade over samples -> (z0(t,s), z1(t,s))"""
    t, e = fresh("#t"), fresh("#e")
    Z0, Z1 = AV("Z0"), AV("Z1")
    z0 = lambda s: sel(Z0, (), [s])
    E_ = lift(e)
    xe = cascade_inner(x(lift(t)), z0, E_)
    ye = co("b", 0, E_) * xe + z0(E_)
    g = mk_group(t, [(Z0, (e,), co("z", 0, E_), co("b", 1, E_) * xe - co("a", 1, E_) * ye + sel(Z1, (), [E_])),
                     (Z1, (e,), co("z", 1, E_), co("b", 2, E_) * xe - co("a", 2, E_) * ye)])
    return g


def spec_out(g, t):
    return cascade_inner(x(t), lambda s: TM.mk_loop(g, 0, lift(t), (s,)), SEC)


def spec_state(g, t):
    f = lambda k: Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]),
                              TM.mk_loop(g, 0, t, (k,)), TM.mk_loop(g, 1, t, (k,))))
    return mkseq(SEC, f)


def sosv():
    return mkseq(SEC, lambda k: sos_at(SOS, k))


def conc_sections(S):
    return Arr([sos_at(SOS, lift(k)) for k in range(S)])


def conc_step(S, xin, z):
    """one sample through S sections: (output, new z0 list, new z1 list)"""
    v = xin
    n0, n1 = [], []
    for s in range(S):
        y = co("b", 0, s) * v + z[0][s]
        n0.append(co("b", 1, s) * v - co("a", 1, s) * y + z[1][s])
        n1.append(co("b", 2, s) * v - co("a", 2, s) * y)
        v = y
    return v, n0, n1


def conc_group(S):
    t = fresh("#t")
    ph = [[fresh("z0", "r") for _ in range(S)], [fresh("z1", "r") for _ in range(S)]]
    _, n0, n1 = conc_step(S, x(lift(t)), [[lift(p) for p in q] for q in ph])
    comps = [(ph[0][s], (), co("z", 0, s), n0[s]) for s in range(S)] + [(ph[1][s], (), co("z", 1, s), n1[s]) for s in range(S)]
    return system(t, comps)


def conc_state(g, S, t):
    return [[g[s](lift(t), ()) for s in range(S)], [g[S + s](lift(t), ()) for s in range(S)]]


def conc_spec(S, n):
    g = conc_group(S)
    out = mkseq(n, lambda t: conc_step(S, x(t), conc_state(g, S, t))[0])
    z = conc_state(g, S, n)
    sec = Arr([Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]), z[0][k], z[1][k])) for k in range(S)])
    return out, sec


SMAX = 21


def drain(r):
    I = r.w.I
    r.value = I.models.collect(I, r.w.st, I.models.toit(I, r.w.st, r.value))


def cascade(c):
    def b(w):
        w.sos = w.cell(sosv())
        return [real("xi"), w.sos]
    r = c.run("sosfilt_item", "sosfilt_item", b)
    if r:
        z0 = lambda s: co("z", 0, s)
        r.returns(T)
        r.equal("output", "v", cascade_inner(real("xi"), z0, SEC))

        def nx(k):
            xe = cascade_inner(real("xi"), z0, k)
            ye = co("b", 0, k) * xe + z0(k)
            return Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]),
                               co("b", 1, k) * xe - co("a", 1, k) * ye + co("z", 1, k), co("b", 2, k) * xe - co("a", 2, k) * ye))
        r.equal("sections", r.w.get(r.w.sos), mkseq(SEC, nx))
    g = df2t()

    for fn, lo in (("sosfilt_st", 0), ("sosfilt_dyn", SMAX + 1)):
        def b(w):
            w.sos = w.cell(sosv())
            return [iterof(mkseq(N, x)), w.sos]
        r = c.run(fn, fn, b, assume=[ge(SEC - lo)])
        if r:
            if fn == "sosfilt_st":
                drain(r)
            sm = Sampler({"S": lambda q: q.randrange(lo, lo + 3), "N": lambda q: q.randrange(0, 5)})
            r.returns(T, sampler=sm)
            r.equal("output", "v", mkseq(N, lambda t: spec_out(g, t)), sampler=sm)
            r.equal("sections", r.w.get(r.w.sos), spec_state(g, N), sampler=sm)


def dyn_at(S):
    def f(c):
        def b(w):
            w.sos = w.cell(conc_sections(S))
            return [iterof(mkseq(N, x)), w.sos]
        r = c.run("sosfilt_dyn[%d sections]" % S, "sosfilt_dyn", b)
        if r:
            out, sec = conc_spec(S, N)
            r.returns(T)
            r.equal("output", "v", out)
            r.equal("sections", r.w.get(r.w.sos), sec)
    return f


def tile_spec(S, Q, tile=4):
    """the same recurrence with `tile` samples per step: out(j, i) for sample tile*j+i, final sections"""
    t = fresh("#t")
    ph = [[fresh("z0", "r") for _ in range(S)], [fresh("z1", "r") for _ in range(S)]]

    def steps(j, z):
        ys = []
        for i in range(tile):
            y, n0, n1 = conc_step(S, x(tile * j + i), z)
            ys.append(y)
            z = [n0, n1]
        return ys, z
    _, z = steps(lift(t), [[lift(p) for p in q] for q in ph])
    comps = [(ph[0][s], (), co("z", 0, s), z[0][s]) for s in range(S)] + [(ph[1][s], (), co("z", 1, s), z[1][s]) for s in range(S)]
    g = system(t, comps)
    z = conc_state(g, S, Q)
    out = mkseq(Q, lambda j: Arr(steps(j, conc_state(g, S, j))[0]))
    sec = Arr([Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]), z[0][k], z[1][k])) for k in range(S)])
    return out, sec


OUT = AV("o")


def fast(fn, S, r):
    def f(c):
        old = TM.CAP
        if r == 0:
            TM.CAP = 24         # name large sub-polynomials instead of expanding four composed steps
        try:
            fast1(c, fn, S, r)
        finally:
            TM.CAP = old
    return f


def fast1(c, fn, S, r):
    if 1:
        Q = nat("Q")
        n = 4 * Q + r

        def b(w):
            w.y, w.sos, w.z = w.cell(mkseq(n, x)), w.cell(conc_sections(S)), w.cell(mkseq(n, lambda i: sel(OUT, (), [i])))
            return [w.y, w.sos, w.z]
        res = c.run("%s[%d sections, 4q+%d samples]" % (fn, S, r), fn, b, timeout=300)
        if res:
            v = res.w.get(res.w.z)
            out, sec = conc_spec(S, n)
            res.returns(T)
            if r == 0:
                res.equal("output length", seqlen(v), n)
                ts = memo(lambda: tile_spec(S, Q))
                tl = lambda q: mkseq(Q, lambda j: Arr([seqget(q, 4 * j + i) for i in range(4)]))
                res.equal("output", tl(v), tl(out), alts=[lambda: ts()[0]])
                res.equal("sections", res.w.get(res.w.sos), sec, alts=[lambda: ts()[1]])
            else:
                res.equal("output", v, out)
                res.equal("sections", res.w.get(res.w.sos), sec)


def fast_mismatch(c):
    M = nat("M")
    for fn in ("sosfilt_fast32_st", "sosfilt_ifast32_st"):
        for S in (1, 2):
            def b(w):
                return [w.cell(mkseq(N, x)), w.cell(conc_sections(S)), w.cell(mkseq(M, lambda i: sel(OUT, (), [i])))]
            r = c.run("%s[%d sections, unequal lengths]" % (fn, S), fn, b, assume=[bnot(eq(N, M))])
            if r:
                r.returns(F)


BIG = [fast(fn, S, 0) for S in (10, 8, 6) for fn in ("sosfilt_fast32_st", "sosfilt_ifast32_st")]
PROPS = {"C05": BIG + [cascade, fast_mismatch] + [dyn_at(S) for S in range(SMAX, -1, -1)] +
         [fast(fn, S, r) for S in range(12, -1, -1) for fn in ("sosfilt_fast32_st", "sosfilt_ifast32_st") for r in range(4)
          if not (S in (10, 8, 6) and r == 0)]}
