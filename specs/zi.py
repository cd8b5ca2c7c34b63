"""Companion matrix (C26) and steady-state initial conditions (C07)."""
from spec import *


def mutiter(w, r):
    return w.I.models.toit(w.I, w.st, r)

M = nat("m")
av_, bv_ = AV("a"), AV("b")
a = lambda i: sel(av_, (), [lift(i)])
b = lambda i: sel(bv_, (), [lift(i)])
nz = lambda x: TM.bnot(eq(x, 0))


def S(n, f):
    j = fresh("#s")
    return mk_sum(n, j, f(lift(j)))


def companion(c):
    r = c.run("companion_dyn", "companion_dyn", lambda w: [iterof(mkseq(M, a)), M], assume=[nz(a(0)), ge(M - 2)])
    if r:
        r.returns(T)
        r.equal("matrix", "v", Mat(M - 1, M - 1, lambda i, j: ite(eq(i, 0), -a(j + 1) / a(0), ite(eq(i, j + 1), ONE, ZERO))))
    for m in range(2, 7):
        r = c.run("companion_dyn[%d]" % m, "companion_dyn", lambda w: [iterof(Arr([a(i) for i in range(m)])), lift(m)], assume=[nz(a(0))])
        if r:
            r.returns(T)
            r.equal("matrix", "v", Mat(lift(m - 1), lift(m - 1), lambda i, j: ite(eq(i, 0), -a(j + 1) / a(0), ite(eq(i, j + 1), ONE, ZERO))))


def lzi(c):
    r = c.run("lfilter_zi_dyn", "lfilter_zi_dyn", lambda w: [w.cell(mkseq(M, b)), w.cell(mkseq(M, a))], assume=[nz(a(0)), ge(M - 2)])
    if r:
        r.returns(T)
        z0 = S(M - 1, lambda j: b(j + 1) - a(j + 1) * b(0) / a(0)) / S(M, lambda j: a(j))
        r.equal("state", "v", mkseq(M - 1, lambda k: S(k + 1, lambda j: a(j)) / a(0) * z0 - S(k, lambda j: b(j + 1) - a(j + 1) * b(0) / a(0)) / a(0)))



def ziv(m, bb, aa, k):
    """state k of the filter bb/aa (m coefficients each, aa(0) nonzero) when its input has always been 1"""
    d = [bb(j) - aa(j) * bb(0) / aa(0) for j in range(1, m)]
    z0 = sum(d, ZERO) / sum([aa(j) for j in range(m)], ZERO)
    return sum([aa(j) for j in range(k + 1)], ZERO) / aa(0) * z0 - sum(d[:k], ZERO) / aa(0)


def lzi_at(c):
    for m in range(2, 8):
        for z in range(0, m):
            aa = lambda i: a(i + z) if i + z < m else ZERO
            r = c.run("lfilter_zi_dyn[%d coefficients, %d leading zeros in a]" % (m, z), "lfilter_zi_dyn",
                      lambda w: [w.cell(Arr([b(i) for i in range(m)])), w.cell(Arr([ZERO] * z + [a(i) for i in range(z, m)]))], assume=[nz(a(z))])
            if r:
                r.returns(T)
                r.equal("state", "v", Arr([ziv(m, b, aa, k) for k in range(m - 1)]))
    for m in range(2, 5):
        r = c.run("lfilter_zi_dyn[a all zero, %d coefficients]" % m, "lfilter_zi_dyn", lambda w: [w.cell(Arr([b(i) for i in range(m)])), w.cell(Arr([ZERO] * m))])
        if r:
            r.returns(F)
    M2 = nat("p")
    r = c.run("lfilter_zi_dyn[unequal lengths]", "lfilter_zi_dyn", lambda w: [w.cell(mkseq(M, b)), w.cell(mkseq(M2, a))], assume=[bnot(eq(M, M2))])
    if r:
        r.returns(F)


SOS, SEC = AV("sos"), nat("S")
co = lambda n, i, k: sel(SOS, (n, i), [lift(k)])
tot = lambda n, k: co(n, 0, k) + co(n, 1, k) + co(n, 2, k)


def sosout(k, scale):
    return Rec("Sos", (Arr([co("b", i, k) for i in range(3)]), Arr([co("a", i, k) for i in range(3)]),
                       *[scale * ziv(3, lambda i: co("b", i, k), lambda i: co("a", i, k), j) for j in range(2)]))


def szi(c):
    def bld(w):
        w.sos = w.cell(mkseq(SEC, lambda k: sos_at(SOS, k)))
        return [mutiter(w, w.sos)]
    q = fresh("#q")
    r = c.run("sosfilt_zi_dyn", "sosfilt_zi_dyn", bld, assume=[forall(SEC, q, nz(co("a", 0, lift(q))))])
    if r:
        r.returns(T)
        def P_(k):
            j = fresh("#j")
            return mk_prod(k, j, tot("b", lift(j)) / tot("a", lift(j)))
        r.equal("sections", r.w.get(r.w.sos), mkseq(SEC, lambda k: sosout(k, P_(k))))


def szi_at(S):
    def f(c):
        def bld(w):
            w.sos = w.cell(Arr([sos_at(SOS, lift(k)) for k in range(S)]))
            return [mutiter(w, w.sos)]
        r = c.run("sosfilt_zi_dyn[%d sections]" % S, "sosfilt_zi_dyn", bld, assume=[nz(co("a", 0, k)) for k in range(S)])
        if r:
            r.returns(T)
            out, sc = [], ONE
            for k in range(S):
                out.append(sosout(lift(k), sc))
                sc = sc * tot("b", k) / tot("a", k)
            r.equal("sections", r.w.get(r.w.sos), Arr(out))
    return f


PROPS = {"C26": [companion], "C07": [lzi, lzi_at, szi] + [szi_at(S) for S in range(0, 7)]}
