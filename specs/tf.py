"""Polynomial from roots, transfer-function form (C17)."""
from spec import *
from loops import system
from models import cxmul
csub = lambda a, b: Cx(a.kids[0] - b.kids[0], a.kids[1] - b.kids[1])

CT = {"k": "adt", "n": "num_complex::Complex", "a": [{"k": "param", "n": "F"}]}
N, M, O = nat("N"), nat("M"), nat("order")
K = real("k")


def roots(name, n):
    a, b = AV(name + ".re"), AV(name + ".im")
    return lambda i: (sel(a, (), [lift(i)]), sel(b, (), [lift(i)]))


def poly(z, n, cx):
    """coefficients of prod (x - z_t), highest power first: multiply by (x - z_t) one root at a time"""
    t, e = fresh("#t"), fresh("#e")
    T_, E_ = lift(t), lift(e)
    if not cx:
        a = AV("pa")
        at = lambda i: sel(a, (), [i])
        g = system(t, [(a, (e,), ite(eq(E_, 0), ONE, ZERO), ite(ge(T_ - E_), at(E_), ZERO) + ite(ge(E_ - 1), -z(T_) * at(E_ - 1), ZERO))])
        return lambda i: g[0](n, (i,))
    a, b = AV("pr"), AV("pi")
    ar, ai = (lambda i: sel(a, (), [i])), (lambda i: sel(b, (), [i]))
    zr, zi = z(T_)
    keep = lambda v: ite(ge(T_ - E_), v, ZERO)
    sh = lambda v: ite(ge(E_ - 1), v, ZERO)
    g = system(t, [(a, (e,), ite(eq(E_, 0), ONE, ZERO), keep(ar(E_)) + sh(-zr * ar(E_ - 1) + zi * ai(E_ - 1))),
                   (b, (e,), ZERO, keep(ai(E_)) + sh(-zr * ai(E_ - 1) - zi * ar(E_ - 1)))])
    return lambda i: (g[0](n, (i,)), g[1](n, (i,)))


IH = HN.induct(lambda k: k + 1)
small = Sampler({"N": lambda r: r.randrange(0, 5), "M": lambda r: r.randrange(0, 5), "order": lambda r: r.randrange(0, 7)})


def polydyn(c):
    zr = AV("z")
    z = lambda i: sel(zr, (), [lift(i)])
    r = c.run("poly_dyn[real]", "poly_dyn", lambda w: [w.cell(mkseq(N, z))])
    if r:
        r.returns(T, sampler=small)
        p = poly(z, N, False)
        r.equal("coefficients", "v", mkseq(N + 1, p), hints=(IH,), sampler=small)
    z = roots("z", N)
    r = c.run("poly_dyn[complex]", "poly_dyn", lambda w: [w.cell(mkseq(N, lambda i: Cx(*z(i))))], tyenv={"F": CT})
    if r:
        r.returns(T, sampler=small)
        p = poly(z, N, True)
        v = r.value
        part = lambda q: mkseq(seqlen(v), lambda i: seqget(v, i).kids[q])
        r.equal("real parts", part(0), mkseq(N + 1, lambda i: p(i)[0]), hints=(IH,), sampler=small)
        # conjugate-closed roots have real coefficients: the imaginary part may be dropped then
        # (undecided: needs that a multiset closed under conjugation has a real polynomial)
        r.equal("imaginary parts", part(1), mkseq(N + 1, lambda i: p(i)[1]), hints=(IH,), sampler=small)
    for n in (1, 2):
        z = [Cx(real("z%d.re" % i), real("z%d.im" % i)) for i in range(n)]
        r = c.run("poly_dyn[%d roots]" % n, "poly_dyn", lambda w: [w.cell(Arr(z))], tyenv={"F": CT})
        if r:
            r.returns(T)
            q = [Cx(1, 0)]
            for v in z:
                q = [csub(a, cxmul(b, v)) for a, b in zip(q + [Cx(0, 0)], [Cx(0, 0)] + q)]
            r.equal("coefficients", "v", Arr(q))


def zpk2tf(c):
    z, p = roots("z", N), roots("p", M)
    r = c.run("zpk2tf_dyn", "zpk2tf_dyn", lambda w: [O, w.cell(mkseq(N, lambda i: Cx(*z(i)))), w.cell(mkseq(M, lambda i: Cx(*p(i)))), K], tyenv={"C": CT})
    if r:
        r.returns(T, sampler=small)
        pz, pp = poly(z, N, True), poly(p, M, True)
        r.equal("numerator", r.value.kids[0], mkseq(O + 1, lambda i: ite(ge(N - i), K * pz(i)[0], ZERO)), hints=(IH,), sampler=small)
        r.equal("denominator", r.value.kids[1], mkseq(O + 1, lambda i: ite(ge(M - i), pp(i)[0], ZERO)), hints=(IH,), sampler=small)


PROPS = {"C17": [polydyn, zpk2tf]}
