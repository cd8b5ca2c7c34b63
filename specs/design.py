"""Analog prototypes, frequency transformations, bilinear transform (C15, C16)."""
from spec import *
from loops import system
from models import cxmul, cxdiv, cx_un, scalar_un, PI

Z, PN = nat("nz"), nat("np")
zc = lambda i: Cx(sel(AV_Z[0], (), [lift(i)]), sel(AV_Z[1], (), [lift(i)]))
pc = lambda i: Cx(sel(AV_P[0], (), [lift(i)]), sel(AV_P[1], (), [lift(i)]))
AV_Z = AV("z.re"), AV("z.im")
AV_P = AV("p.re"), AV("p.im")
K, WO, BW, FS = real("k"), real("wo"), real("bw"), real("fs")
cadd = lambda a, b: Cx(a.kids[0] + b.kids[0], a.kids[1] + b.kids[1])
csub = lambda a, b: Cx(a.kids[0] - b.kids[0], a.kids[1] - b.kids[1])
cneg = lambda a: Cx(-a.kids[0], -a.kids[1])
cs = lambda a, s: Cx(a.kids[0] * s, a.kids[1] * s)
re = lambda a: a.kids[0]
im = lambda a: a.kids[1]
CR = lambda x: Cx(x, 0)
C0 = Cx(0, 0)


def cprod(n, f):
    """product of f(0..n-1), complex"""
    c = lift(n).const()
    if c is not None:
        r = Cx(1, 0)
        for i in range(int(c)):
            r = cxmul(r, f(lift(i)))
        return r
    t = fresh("#t")
    a, b = fresh("pr", "r"), fresh("pi", "r")
    s = cxmul(Cx(lift(a), lift(b)), f(lift(t)))
    g = system(t, [(a, (), ONE, re(s)), (b, (), ZERO, im(s))])
    return Cx(g[0](lift(n), ()), g[1](lift(n), ()))


def conc(*parts):
    """concatenation of (length, f)"""
    n = sum((lift(l) for l, _ in parts), ZERO)

    def at(i):
        off = n
        r = None
        for l, f in reversed(parts):
            off = off - l
            v = f(i - off)
            r = v if r is None else merge(lt(i, off + l), v, r)
        return r
    return mkseq(n, at)


class Fix:
    """explicit conjugate-symmetric poles (and zeros) of a small order"""

    def __init__(self, nz, np):
        self.nz, self.np = nz, np
        self.z, self.p = conj("zf", nz), conj("pf", np)

    def val(self):
        return zpk(Arr(self.z), Arr(self.p), K)


def conj(name, n):
    out = []
    for j in range(n // 2):
        a, b = real("%s%d.re" % (name, j)), real("%s%d.im" % (name, j))
        out += [Cx(a, b), Cx(a, -b)]
    if n % 2:
        out.append(Cx(real("%sr" % name), 0))
    return out


def opt(v):
    return Enum("Option", 1, {1: (v,)})


NONE = Enum("Option", 0, {})


def symv():
    return zpk(mkseq(Z, zc), mkseq(PN, pc), K)


def nonzero(xs):
    """|x|^2 != 0"""
    return [gt(re(v) * re(v) + im(v) * im(v)) for v in xs]


def zpk_check(r, z, p, k, facts=(), skip=(), sampler=None):
    if r.diverges:
        r.ctx.bad(r.label, r.f["path"], "the call never returns normally")
        return
    v = r.value
    for nm, code, spec in (("zeros", v.kids[0], z), ("poles", v.kids[1], p), ("gain", v.kids[2], k)):
        if nm not in skip:
            r.equal(nm, code, spec, facts=facts, sampler=sampler)


def shift(v, w):
    """the two images of a scaled root: v + sqrt(v^2 - w^2), v - sqrt(v^2 - w^2)"""
    s = cx_un("sqrt", csub(cxmul(v, v), CR(w * w)))
    return cadd(v, s), csub(v, s)


def lowpass(c):
    for tag, o, w in (("", opt(WO), WO), ("[default cutoff]", NONE, ONE)):
        r = c.run("lp2lp_zpk_dyn" + tag, "lp2lp_zpk_dyn", lambda W: [symv(), o])
        if r:
            r.returns(ge(PN - Z))
            zpk_check(r, mkseq(Z, lambda i: cs(zc(i), w)), mkseq(PN, lambda i: cs(pc(i), w)), K * ipow(w, PN - Z))


def ipow(b, n):
    b, n = lift(b), lift(n)
    c = n.const()
    if b is ONE:
        return ONE
    if c is not None and c >= 0:
        r = ONE
        for _ in range(int(c)):
            r = r * b
        return r
    return TM.powk(b, n)


def bandpass(c):
    for tag, a, b, wo, bw in (("", opt(WO), opt(BW), WO, BW), ("[default centre and width]", NONE, NONE, ONE, ONE)):
        r = c.run("lp2bp_zpk_dyn" + tag, "lp2bp_zpk_dyn", lambda W: [symv(), a, b])
        if r:
            r.returns(ge(PN - Z))
            sz = lambda i: shift(cs(zc(i), bw / 2), wo)
            sp = lambda i: shift(cs(pc(i), bw / 2), wo)
            zpk_check(r, conc((Z, lambda i: sz(i)[0]), (Z, lambda i: sz(i)[1]), (PN - Z, lambda i: C0)),
                      conc((PN, lambda i: sp(i)[0]), (PN, lambda i: sp(i)[1])), K * ipow(bw, PN - Z))


def highpass(c):
    for tag, o, w in (("", opt(WO), WO), ("[default cutoff]", NONE, ONE)):
        nz = tuple(nonzero([pc(i) for i in range(0)]))
        r = c.run("lp2hp_zpk_dyn" + tag, "lp2hp_zpk_dyn", lambda W: [symv(), o])
        if r:
            r.returns(ge(PN - Z))
            inv = lambda i: cxdiv(CR(w), pc(i))
            zpk_check(r, None, mkseq(PN, inv), None, skip=("zeros", "gain"))
        # all-pole prototypes, symbolic order
        r = c.run("lp2hp_zpk_dyn[no finite zeros]" + tag, "lp2hp_zpk_dyn", lambda W: [zpk(Arr([]), mkseq(PN, pc), K), o])
        if r:
            r.returns(T)
            pr = cprod(PN, lambda i: cneg(pc(i)))
            zpk_check(r, mkseq(PN, lambda i: C0), mkseq(PN, lambda i: cxdiv(CR(w), pc(i))), K * re(cxdiv(CR(1), pr)))


def prods(f):
    num, den = Cx(1, 0), Cx(1, 0)
    for v in f.z:
        num = cxmul(num, cneg(v))
    for v in f.p:
        den = cxmul(den, cneg(v))
    return num, den


def highpass_zeros(c):
    for nz, np in ((1, 2), (2, 2)):
        f = Fix(nz, np)
        r = c.run("lp2hp_zpk_dyn[%d finite zeros]" % nz, "lp2hp_zpk_dyn", lambda W: [f.val(), opt(WO)])
        if r:
            num, den = prods(f)
            r.equal("poles", r.value.kids[1], Arr([cxdiv(CR(WO), v) for v in f.p]))
            n2 = Cx(1, 0)
            for v in f.z:
                n2 = cxmul(n2, csub(v, CR(1)))
            r.defect("zeros", r.value.kids[0], Arr([cxdiv(CR(WO), v) for v in f.z] + [C0] * (np - nz)),
                     Arr([cxmul(cxdiv(CR(-2 * WO), v), Cx(0, -1)) for v in f.z] + [C0] * (np - nz)))
            r.defect("gain", r.value.kids[2], K * re(cxdiv(num, den)), K * re(cxdiv(n2, den)))


def bandstop(c):
    for tag, a, b, wo, bw in (("", opt(WO), opt(BW), WO, BW), ("[default centre and width]", NONE, NONE, ONE, ONE)):
        r = c.run("lp2bs_zpk_dyn" + tag, "lp2bs_zpk_dyn", lambda W: [symv(), a, b])
        sp = lambda i: shift(cxdiv(CR(bw / 2), pc(i)), wo)
        poles = conc((PN, lambda i: sp(i)[0]), (PN, lambda i: sp(i)[1]))
        if r:
            r.returns(ge(PN - Z))
            zpk_check(r, None, poles, None, skip=("zeros", "gain"))
        r = c.run("lp2bs_zpk_dyn[no finite zeros]" + tag, "lp2bs_zpk_dyn", lambda W: [zpk(Arr([]), mkseq(PN, pc), K), a, b])
        if r:
            r.returns(T)
            zpk_check(r, conc((PN, lambda i: Cx(0, wo)), (PN, lambda i: Cx(0, -wo))), poles, None, skip=("gain",))
        for np in range(0, 7):
            f = Fix(0, np)
            r = c.run("lp2bs_zpk_dyn[%d conjugate-symmetric poles]%s" % (np, tag), "lp2bs_zpk_dyn", lambda W: [f.val(), a, b])
            if r:
                den = Cx(1, 0)
                for v in f.p:
                    den = cxmul(den, cneg(v))
                zpk_check(r, None, None, K * re(cxdiv(CR(1), den)), skip=("zeros", "poles"))


def bandstop_zeros(c):
    for nz, np in ((1, 2), (2, 2)):
        f = Fix(nz, np)
        r = c.run("lp2bs_zpk_dyn[%d finite zeros]" % nz, "lp2bs_zpk_dyn", lambda W: [f.val(), opt(WO), opt(BW)])
        if r:
            num, den = prods(f)
            zs = [shift(cxdiv(CR(BW / 2), v), WO) for v in f.z]
            ps = [shift(cxdiv(CR(BW / 2), v), WO) for v in f.p]
            tail = [Cx(0, WO)] * (np - nz) + [Cx(0, -WO)] * (np - nz)
            r.equal("poles", r.value.kids[1], Arr([q[0] for q in ps] + [q[1] for q in ps]))
            was, n2 = [], ONE
            for v in f.z:
                h = cxmul(cxdiv(CR(-BW), v), Cx(0, -1))
                was.append((re(h), im(cx_un("sqrt", CR(re(h) * re(h) - WO * WO)))))
                n2 = n2 * re(v)
            r.defect("zeros", r.value.kids[0], Arr([q[0] for q in zs] + [q[1] for q in zs] + tail),
                     Arr([Cx(a, b) for a, b in was] + [Cx(a, -b) for a, b in was] + tail))
            r.defect("gain", r.value.kids[2], K * re(cxdiv(num, den)), K * n2 / re(den))


def bilinear(c):
    r = c.run("bilinear_zpk_dyn", "bilinear_zpk_dyn", lambda W: [symv(), FS])
    if r:
        r.returns(ge(PN - Z))
        f2 = CR(2 * FS)
        bl = lambda v: cxdiv(cadd(f2, v), csub(f2, v))
        num, den = cprod(Z, lambda i: csub(f2, zc(i))), cprod(PN, lambda i: csub(f2, pc(i)))
        zpk_check(r, conc((Z, lambda i: bl(zc(i))), (PN - Z, lambda i: Cx(-1, 0))), mkseq(PN, lambda i: bl(pc(i))), K * re(cxdiv(num, den)))


# ---------------------------------------------------------------- prototypes
RP, RS = real("rp"), real("rs")
H = nat("h")
ten = lambda x: uf("powf", lift(10), x)
fn = lambda name, x: scalar_un(name, lift(x))


def angle(i, n):
    """pi m / (2 n), m = 1 - n + 2 i"""
    return PI * (1 - n + 2 * i) / (2 * n)


def sizes():
    """orders: symbolic even and odd, and small explicit ones"""
    yield "even order", 2 * H, [ge(H - 5)]
    yield "odd order", 2 * H + 1, [ge(H - 5)]
    for n in range(0, 10):
        yield "order %d" % n, lift(n), []


def even(n):
    return all(c % 2 == 0 for m, c in n.t)


def cheb1(c):
    for tag, n, asm in sizes():
        r = c.run("cheb1ap_dyn[%s]" % tag, "cheb1ap_dyn", lambda W: [n, RP], assume=asm)
        if not r:
            continue
        r.returns(T)
        if n is ZERO:
            zpk_check(r, Arr([]), Arr([]), ten(-RP / 20))
            continue
        eps = TM.sqrt(ten(RP / 10) - 1)
        mu = fn("asinh", 1 / eps) / n
        p = lambda i: cneg(Cx(fn("sinh", mu) * fn("cos", angle(i, n)), fn("cosh", mu) * fn("sin", angle(i, n))))
        k = re(cprod(n, lambda i: cneg(p(i))))
        if even(n):
            k = k / TM.sqrt(1 + eps * eps)
        zpk_check(r, Arr([]), mkseq(n, p), k)


def cheb2(c):
    for tag, n, asm in sizes():
        r = c.run("cheb2ap_dyn[%s]" % tag, "cheb2ap_dyn", lambda W: [n, RS], assume=asm)
        if not r:
            continue
        r.returns(T)
        if n is ZERO:
            zpk_check(r, Arr([]), Arr([]), ONE)
            continue
        de = 1 / TM.sqrt(ten(RS / 10) - 1)
        mu = fn("asinh", 1 / de) / n
        zr = lambda i: Cx(0, 1 / fn("sin", angle(i, n)))

        def p(i):
            t = angle(i, n)
            return cxdiv(CR(1), Cx(-fn("sinh", mu) * fn("cos", t), -fn("cosh", mu) * fn("sin", t)))
        if even(n):
            nz, z = n, zr
        else:
            nz, hh = n - 1, (n - 1) / 2
            z = lambda i: merge(lt(i, hh), zr(i), zr(i + 1))
        k = re(cxdiv(cprod(n, lambda i: cneg(p(i))), cprod(nz, lambda i: cneg(z(i)))))
        zs = mkseq(n, zr) if even(n) else conc((hh, zr), (hh, lambda i: zr(i + 1 + hh)))
        zpk_check(r, zs, mkseq(n, p), k)


def butter_proto(c):
    """the Butterworth prototype, observed through the analog lowpass design with cutoff w"""
    w = real("w")
    for tag, n, asm in sizes():
        r = c.run("iirfilter_dyn[analog Butterworth lowpass, %s]" % tag, "iirfilter_dyn",
                  lambda W: [n, Arr([w]), NONE, NONE, opt(enumv("FilterBandType", c.variant("FilterBandType", "Lowpass"))), opt(enumv("FilterType", c.variant("FilterType", "Butterworth"))),
                             opt(T), opt(enumv("FilterOutputType", c.variant("FilterOutputType", "Zpk"))), NONE], assume=asm + [gt(w)])
        if not r:
            continue
        r.returns(T)
        if r.diverges:
            continue
        zi = c.variant("DigitalFilter", "Zpk")
        r.equal("kind", r.value.kids[0], lift(zi))
        v = pay(r.value, zi)
        r.equal("zeros", v.kids[0], Arr([]))
        p = lambda i: Cx(-w * fn("cos", angle(i, n)), -w * fn("sin", angle(i, n)))
        r.equal("poles", v.kids[1], mkseq(n, p))
        r.equal("gain", v.kids[2], ipow(w, n))


PROPS = {"C15": [lowpass, bandpass, highpass, highpass_zeros, bandstop, bandstop_zeros, bilinear],
         "C16": [cheb1, cheb2, butter_proto]}
