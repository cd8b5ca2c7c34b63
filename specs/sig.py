"""Convolution, correlation, resampling, square wave (C11, C12, C24)."""
import math
from spec import *
from models import PI
from terms import *

N, M = nat("N"), nat("M")
X, Y = AV("x"), AV("y")
x = lambda i: sel(X, (), [lift(i)])
y = lambda i: sel(Y, (), [lift(i)])
MODES = ("Full", "Valid", "Same")
small = Sampler({"N": lambda r: r.randrange(1, 8), "M": lambda r: r.randrange(1, 8)})


def conv(yy):
    def full(e):
        j = fresh("#s")
        i = e - lift(j)
        return mk_sum(N, j, x(j) * ite(band(ge(i), ge(M - 1 - i)), yy(i), ZERO))
    return full


def convolution(c):
    for fn, yy in (("fftconvolve", y), ("convolve::convolve", y), ("correlate", lambda i: y(M - 1 - i))):
        full = conv(yy)
        for mode in MODES:
            v = c.variant("ConvolveMode", mode)
            r = c.run("%s[%s]" % (fn.split("::")[-1], mode), fn, lambda w: [w.cell(mkseq(N, x)), w.cell(mkseq(M, y)), enumv("ConvolveMode", v)],
                      assume=[ge(N - 1), ge(M - 1)])
            if not r:
                continue
            r.returns(T, sampler=small)
            if mode == "Full":
                n, off = N + M - 1, ZERO
            elif mode == "Valid":
                n, off = ite(le(M, N), N - M + 1, M - N + 1), ite(le(M, N), M - 1, N - 1)
            else:
                n, off = N, TM.tdiv(M - 1, lift(2))
            r.equal("output", "v", mkseq(n, lambda i: full(i + off)), hints=(HN.dftconv(N, M),), sampler=small)


def resample(c):
    K = nat("n")
    r = c.run("resample", "resample::resample", lambda w: [w.cell(mkseq(N, x)), K], assume=[ge(N - 1), ge(K - 1)])
    if r:
        r.returns(T)
        h = TM.tdiv(ite(le(N, K), N, K), lift(2))
        k, t = fresh("#k"), fresh("#t")
        spec = Lam(N, k, (x(k), ZERO))
        X = lambda cmp, i: A("fft", (-1, cmp, spec, i), "r")
        bin = lambda cmp: ite(lt(lift(t), h), X(cmp, lift(t)), ite(ge(lift(t) - K + h), X(cmp, N - K + lift(t)), ZERO))
        lam = Lam(K, t, (bin(0), bin(1)))
        r.equal("output", "v", mkseq(K, lambda i: A("fft", (1, 0, lam, i), "r") / N),
                sampler=Sampler({"N": lambda r: r.randrange(1, 9), "n": lambda r: r.randrange(1, 9)}))


def square(c):
    d = real("d")
    r = c.run("square", "wave::square", lambda w: [w.cell(mkseq(N, x)), d])
    if r:
        s = Sampler({"d": lambda r: r.choice([0.0, 1.0, r.random(), r.uniform(-1, 2)])}, {"x": lambda r, p, i: 2 * math.pi * r.choice((-4, -2, -1, 0, 1, 2)) if r.random() < 0.3 else r.uniform(-40, 40)})
        r.returns(band(ge(d), ge(1 - d)), sampler=s)
        ph = lambda i: uf("fmod", x(i), 2 * PI)
        f = lambda i: ph(i) + ite(ge(ph(i)), ZERO, 2 * PI)
        r.equal("output", "v", mkseq(N, lambda i: ite(lt(f(i), 2 * PI * d), ONE, lift(-1))), sampler=s)


PROPS = {"C11": convolution, "C12": resample, "C24": square}
