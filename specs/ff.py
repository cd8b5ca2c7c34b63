"""Zero-phase filtering (C09)."""
import itertools
import loops
from spec import *
from loops import system
from zi import ziv

N = nat("N")
X, SOS = AV("x"), AV("sos")
x = lambda i: sel(X, (), [lift(i)])


def coef(S, zb, za, unit):
    """coefficients with the last ones literally zero where zb/za say so"""
    def co(n, i, k):
        if i == 2 and ((n == "b" and zb[k]) or (n == "a" and za[k])):
            return ZERO
        if unit and n == "a" and i == 0:
            return ONE
        return sel(SOS, (n, i), [lift(k)])
    return co


def step(S, co, xin, z):
    v, n0, n1 = xin, [], []
    for s in range(S):
        y = co("b", 0, s) * v + z[0][s]
        n0.append(co("b", 1, s) * v - co("a", 1, s) * y + z[1][s])
        n1.append(co("b", 2, s) * v - co("a", 2, s) * y)
        v = y
    return v, n0, n1


def run(S, co, sig, z):
    """output sample function of the cascade over sig from state z"""
    t = fresh("#t")
    ph = [[fresh("z0", "r") for _ in range(S)], [fresh("z1", "r") for _ in range(S)]]
    _, n0, n1 = step(S, co, sig(lift(t)), [[lift(p) for p in q] for q in ph])
    g = system(t, [(ph[0][s], (), z[0][s], n0[s]) for s in range(S)] + [(ph[1][s], (), z[1][s], n1[s]) for s in range(S)])
    return lambda k: step(S, co, sig(lift(k)), [[g[s](lift(k), ()) for s in range(S)], [g[S + s](lift(k), ()) for s in range(S)]])[0]


def rest(S, co):
    z0, z1, sc = [], [], ONE
    for k in range(S):
        bb, aa = (lambda i: co("b", i, k)), (lambda i: co("a", i, k))
        z0.append(sc * ziv(3, bb, aa, 0))
        z1.append(sc * ziv(3, bb, aa, 1))
        sc = sc * (bb(0) + bb(1) + bb(2)) / (aa(0) + aa(1) + aa(2))
    return z0, z1


def filtfilt(S, zb, za, unit=True):
    def f(c):
        old, cap = loops.UNROLL, TM.CAP
        TM.CAP = 2000
        loops.UNROLL = 5        # keep the padding loops as array recurrences
        try:
            go(c)
        finally:
            loops.UNROLL, TM.CAP = old, cap

    def go(c):
        co = coef(S, zb, za, unit)
        e = 3 * (2 * S + 1 - min(sum(zb), sum(za)))
        def bld(w):
            secs = Arr([Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]), sel(SOS, ("z", 0), [lift(k)]), sel(SOS, ("z", 1), [lift(k)]))) for k in range(S)])
            w.sos = w.cell(secs)
            w.secs = secs
            return [iterof(mkseq(N, x)), w.sos]
        nz = lambda p: TM.bnot(eq(p, 0))
        asm = [nz(co("a", 0, k)) for k in range(S)] + [nz(co(n, 2, k)) for k in range(S) for n, z in (("b", zb), ("a", za)) if not z[k]]
        r = c.run("sosfiltfilt_dyn[%d %ssections, zero b2 in %s, zero a2 in %s]" % (S, "" if unit else "unnormalised ", list(zb), list(za)), "sosfiltfilt_dyn", bld, assume=asm)
        if not r:
            return
        r.returns(lt(lift(e), N))
        if r.diverges:
            return
        r.equal("sections untouched", r.w.get(r.w.sos), r.w.secs)
        L = N + 2 * e
        ext = lambda i: ite(lt(i, lift(e)), 2 * x(ZERO) - x(e - i), ite(lt(i, N + e), x(i - e), 2 * x(N - 1) - x(2 * N + e - 2 - i)))
        z = rest(S, co)
        x0 = 2 * x(ZERO) - x(lift(e))
        fwd = run(S, co, ext, [[q * x0 for q in zz] for zz in z])
        y0 = fwd(L - 1)
        bwd = run(S, co, lambda i: fwd(L - 1 - i), [[q * y0 for q in zz] for zz in z])
        r.equal("output", "v", mkseq(N, lambda i: bwd(N + e - 1 - i)), hints=[HN.induct(None, 2 * S - 1)])
    return f


def cases(S):
    for zb in itertools.product((0, 1), repeat=S):
        for za in itertools.product((0, 1), repeat=S):
            yield zb, za



def deep(f):
    return lambda c: f(c) if c.tier == "thorough" else None


SLOW = {((0, 0), (1, 1))}
PROPS = {"C09": [deep(filtfilt(4, (0,) * 4, (0,) * 4)), filtfilt(3, (0,) * 3, (0,) * 3), filtfilt(3, (0, 0, 1), (0, 0, 1))] +
         [deep(filtfilt(2, zb, za)) if (zb, za) in SLOW else filtfilt(2, zb, za) for zb, za in cases(2)] +
         [filtfilt(1, zb, za, u) for zb, za in cases(1) for u in (True, False)] + [filtfilt(0, (), ())]}
