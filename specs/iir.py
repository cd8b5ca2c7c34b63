"""Whole filter designs: prototype, warping, band transformation, bilinear map (C13); validation and defaults (C14)."""
from spec import *
from loops import system
from models import cxmul, cxdiv, cx_un, scalar_un, PI
import design as D
from design import (cadd, csub, cneg, cs, re, im, CR, C0, cprod, conc, opt, NONE, ipow, shift, ten, fn, angle, even, H, RP, RS)

W1, W2, FS = real("w1"), real("w2"), real("fs")


class L:
    """a list of complex numbers: length and element function, in parts"""

    def __init__(self, *parts):
        self.parts = [(lift(n), f) for n, f in parts if lift(n) is not ZERO]
        self.n = sum((n for n, _ in self.parts), ZERO)

    def map(self, g):
        return L(*[(n, (lambda f: lambda i: g(f(i)))(f)) for n, f in self.parts])

    def __add__(self, o):
        return L(*(self.parts + o.parts))

    def val(self):
        if not self.parts:
            return Arr([])
        if len(self.parts) == 1:
            return mkseq(*self.parts[0])
        return conc(*self.parts)

    def prod(self):
        v = self.val()
        return cprod(self.n, lambda i: seqget(v, i))


def proto(kind, n):
    """zeros, poles, gain of the analog lowpass prototype"""
    if kind == "Butterworth":
        return L(), L((n, lambda i: cneg(Cx(fn("cos", angle(i, n)), fn("sin", angle(i, n)))))), ONE
    if kind == "ChebyshevI":
        if n is ZERO:
            return L(), L(), ten(-RP / 20)
        eps = TM.sqrt(ten(RP / 10) - 1)
        mu = fn("asinh", 1 / eps) / n
        p = L((n, lambda i: cneg(Cx(fn("sinh", mu) * fn("cos", angle(i, n)), fn("cosh", mu) * fn("sin", angle(i, n))))))
        k = re(p.map(cneg).prod())
        return L(), p, k / TM.sqrt(1 + eps * eps) if even(n) else k
    if n is ZERO:
        return L(), L(), ONE
    de = 1 / TM.sqrt(ten(RS / 10) - 1)
    mu = fn("asinh", 1 / de) / n
    zr = lambda i: Cx(0, 1 / fn("sin", angle(i, n)))

    def pole(i):
        t = angle(i, n)
        return cxdiv(CR(1), Cx(-fn("sinh", mu) * fn("cos", t), -fn("cosh", mu) * fn("sin", t)))
    h = (n - 1) / 2
    z = L((n, zr)) if even(n) else L((h, zr), (h, lambda i: zr(i + 1 + h)))
    p = L((n, pole))
    return z, p, re(cxdiv(p.map(cneg).prod(), z.map(cneg).prod()))


def band(kind, z, p, k, w):
    deg = p.n - z.n
    if kind in ("Bandpass", "Bandstop"):
        bw, wo = w[1] - w[0], TM.sqrt(w[0] * w[1])
    if kind == "Lowpass":
        return z.map(lambda v: cs(v, w[0])), p.map(lambda v: cs(v, w[0])), k * ipow(w[0], deg)
    if kind == "Bandpass":
        sp = lambda v: shift(cs(v, bw / 2), wo)
        return z.map(lambda v: sp(v)[0]) + z.map(lambda v: sp(v)[1]) + L((deg, lambda i: C0)), p.map(lambda v: sp(v)[0]) + p.map(lambda v: sp(v)[1]), k * ipow(bw, deg)
    g = k * re(cxdiv(z.map(cneg).prod(), p.map(cneg).prod()))
    if kind == "Highpass":
        return z.map(lambda v: cxdiv(CR(w[0]), v)) + L((deg, lambda i: C0)), p.map(lambda v: cxdiv(CR(w[0]), v)), g
    sp = lambda v: shift(cxdiv(CR(bw / 2), v), wo)
    return z.map(lambda v: sp(v)[0]) + z.map(lambda v: sp(v)[1]) + L((deg, lambda i: Cx(0, wo)), (deg, lambda i: Cx(0, -wo))), p.map(lambda v: sp(v)[0]) + p.map(lambda v: sp(v)[1]), g


def bilin(z, p, k):
    """bilinear map at sampling frequency 2"""
    bl = lambda v: cxdiv(cadd(CR(4), v), csub(CR(4), v))
    g = k * re(cxdiv(z.map(lambda v: csub(CR(4), v)).prod(), p.map(lambda v: csub(CR(4), v)).prod()))
    return z.map(bl) + L((p.n - z.n, lambda i: Cx(-1, 0))), p.map(bl), g


def sizes(tier):
    yield "even order", 2 * H, [ge(H - 5)]
    yield "odd order", 2 * H + 1, [ge(H - 5)]
    for n in range(0, 4 if tier == "quick" else 7):
        yield "order %d" % n, lift(n), []


def designs(ft, bts):
    def go(c):
        ev = lambda a, v: enumv(a, c.variant(a, v))
        for bt in bts:
            for dom, an, fs in (("analog", opt(T), NONE), ("digital", opt(F), NONE), ("digital, sampling rate", opt(F), opt(FS))):
                for tag, n, asm in sizes(c.tier):
                    two = bt in ("Bandpass", "Bandstop")
                    w = [W1, W2] if two else [W1]
                    asm = asm + [gt(W1)] + ([lt(W1, W2)] if two else [])
                    w0 = w          # in units of the Nyquist frequency
                    if an.kids[1].kids[0] is F:
                        asm = asm + [gt(1 - w[-1])]
                    if fs is not NONE:
                        w = [x * FS / 2 for x in w]
                        asm = asm + [gt(FS)]
                    asm = asm + [ge(RP), ge(RS)]
                    r = c.run("iirfilter_dyn[%s %s %s, %s]" % (dom, ft, bt, tag), "iirfilter_dyn",
                              lambda W: [n, Arr(list(w)), opt(RP), opt(RS), opt(ev("FilterBandType", bt)), opt(ev("FilterType", ft)), an, opt(ev("FilterOutputType", "Zpk")), fs], assume=asm)
                    if not r:
                        continue
                    r.returns(T)
                    if r.diverges:
                        continue
                    zi = c.variant("DigitalFilter", "Zpk")
                    r.equal("kind", r.value.kids[0], lift(zi))
                    ww = w0 if dom == "analog" else [4 * fn("tan", PI * x / 2) for x in w0]
                    if ft == "ChebyshevII" and bt in ("Highpass", "Bandstop"):
                        # the transformations' treatment of finite zeros is C15's (a known finding there): here only that
                        # the design is this transformation of this prototype
                        z, p, k = proto(ft, n)
                        fb = "lp2hp_zpk_dyn" if bt == "Highpass" else "lp2bs_zpk_dyn"
                        pz = zpk(z.val(), p.val(), k)
                        q = c.run("%s[%s prototype, %s]" % (fb, ft, tag), fb,
                                  lambda W: [pz, opt(ww[0])] if bt == "Highpass" else [pz, opt(TM.sqrt(ww[0] * ww[1])), opt(ww[1] - ww[0])], assume=asm)
                        if not q or q.diverges:
                            continue
                        z, p = (L((seqlen(x), lambda i, x=x: seqget(x, i))) for x in q.value.kids[:2])
                        k = q.value.kids[2]
                    else:
                        z, p, k = band(bt, *proto(ft, n), ww)
                    if dom != "analog":
                        z, p, k = bilin(z, p, k)
                    v = pay(r.value, zi)
                    r.equal("zeros", v.kids[0], z.val())
                    r.equal("poles", v.kids[1], p.val())
                    if bt == "Bandstop" and n.const() is None:
                        continue        # needs that the product of the poles is real: explicit orders only
                    r.equal("gain", v.kids[2], k, hints=(HN.induct(),))
    return go


def lam(v):
    k = fresh("#l")
    if seqlen(v).const() == 0:
        return Lam(ZERO, k, (ZERO, ZERO))
    e = seqget(v, lift(k))
    return Lam(seqlen(v), k, (re(e), im(e)))


def sos_of(z, p, k, an, minimal):
    """what zpk2sos_dyn returns for these roots: opaque, but a function of the roots, the gain and the flags only"""
    lz, lp = lam(z), lam(p)
    nz, np = seqlen(z), seqlen(p)
    n = TM.tdiv(ite(le(nz, np), np, nz) + 1, lift(2))
    u = lambda q, i: A("uf", ("opaque", "zpk2sos", lift(q), lift(i), lz, lp, k, ite(an, ONE, ZERO), ite(minimal, ONE, ZERO)), "r")
    el = lambda i: Rec("Sos", (Arr([u(q, i) for q in (0, 1, 2)]), Arr([u(q, i) for q in (3, 4, 5)]), ZERO, ZERO))
    return Rec("SosFormatFilter", (mkseq(n, el),))


def summary(c):
    mi = c.variant("ZpkPairing", "Minimal")

    def f(I, st, a):
        order, v, pairing, analog = a
        if v.unk or analog.unk or pairing.unk or len(v.kids) != 3 or not all(isv(x, "arr") or isv(x, "seq") for x in v.kids[:2]):
            return None
        an = TM.band(eq(analog.kids[0], 1), pay(analog, 1)) if 1 in analog.key[1] else F
        mm = ite(eq(pairing.kids[0], 1), ite(eq(pay(pairing, 1).kids[0], mi), ONE, ZERO), ite(an, ONE, ZERO)) if 1 in pairing.key[1] else ite(an, ONE, ZERO)
        return sos_of(v.kids[0], v.kids[1], v.kids[2], an, eq(mm, 1))
    return {"zpk2sos_dyn": f}


def outputs(ft, bts):
    """transfer-function and second-order-section output of digital designs"""
    import tf

    def go(c):
        ev = lambda a, v: enumv(a, c.variant(a, v))
        for bt in bts:
            for out in ("Ba", "Sos"):
                for tag, n, asm in sizes(c.tier):
                    two = bt in ("Bandpass", "Bandstop")
                    w = [W1, W2] if two else [W1]
                    asm = asm + [gt(W1), gt(1 - w[-1]), ge(RP), ge(RS)] + ([lt(W1, W2)] if two else [])
                    args = lambda o: [n, Arr(list(w)), opt(RP), opt(RS), opt(ev("FilterBandType", bt)), opt(ev("FilterType", ft)), opt(F), opt(ev("FilterOutputType", o)), NONE]
                    lab = "iirfilter_dyn[%s of digital %s %s, %s]" % (out, ft, bt, tag)
                    r = c.run(lab, "iirfilter_dyn", lambda W: args(out), assume=asm, summ=summary(c))
                    q = c.run(lab, "iirfilter_dyn", lambda W: args("Zpk"), assume=asm)
                    if not r or not q or q.diverges:
                        continue
                    r.returns(T)
                    if r.diverges:
                        continue
                    zi = c.variant("DigitalFilter", out)
                    r.equal("kind", r.value.kids[0], lift(zi))
                    v, zp = pay(r.value, zi), pay(q.value, c.variant("DigitalFilter", "Zpk"))
                    if out == "Sos":
                        r.equal("sections", v, sos_of(zp.kids[0], zp.kids[1], zp.kids[2], F, F))
                        continue
                    for nm, code, roots, g in (("numerator", v.kids[0], zp.kids[0], zp.kids[2]), ("denominator", v.kids[1], zp.kids[1], ONE)):
                        m = seqlen(roots)
                        zf = lambda i: seqget(roots, i).kids
                        if m.const() is not None:
                            po = [CR(ONE)]
                            for i in range(int(m.const())):
                                v1 = seqget(roots, lift(i))
                                po = [csub(a, cxmul(b, v1)) for a, b in zip(po + [C0], [C0] + po)]
                            po = [g * re(x) for x in po]
                            r.equal(nm, code, Arr(po + [ZERO] * (2 * int(n.const()) + 1 - len(po))))
                            continue
                        po = tf.poly(zf, m, True)
                        r.equal(nm, code, mkseq(2 * n + 1, lambda i: ite(ge(m - i), g * po(i)[0], ZERO)), hints=(tf.IH,))
    return go


BT = ("Lowpass", "Highpass", "Bandpass", "Bandstop")
FT = ("Butterworth", "ChebyshevI", "ChebyshevII")
W3 = real("w3")
pick = lambda *xs: (lambda r: r.choice(xs + (r.uniform(-0.5, 2.0), r.random(), r.random())))
VS = Sampler({"w1": pick(0.0, 1.0, 0.5), "w2": pick(0.0, 1.0, 0.5), "fs": pick(1.0, 2.0, -2.0), "rp": pick(0.0, 1.0, -1.0), "rs": pick(0.0, 1.0, -1.0)})


def validation(ft):
    def go(c):
        ev = lambda a, v: enumv(a, c.variant(a, v))
        for bt in BT:
            need = 2 if bt in ("Bandpass", "Bandstop") else 1
            for an in ("analog", "digital"):
                for fs in (NONE, opt(FS)):
                    for nw in (0, 1, 2, 3):
                        for rp in (NONE, opt(RP)):
                            for rs in (NONE, opt(RS)):
                                if nw != need and not (rp is not NONE and rs is not NONE):
                                    continue
                                w = [W1, W2, W3][:nw]
                                lab = "iirfilter_dyn[%s %s %s, %d frequencies%s%s%s]" % (an, ft, bt, nw, ", fs" if fs is not NONE else "", ", rp" if rp is not NONE else "", ", rs" if rs is not NONE else "")
                                r = c.run(lab, "iirfilter_dyn", lambda W: [lift(2), Arr(list(w)), rp, rs, opt(ev("FilterBandType", bt)), opt(ev("FilterType", ft)),
                                                                           opt(T if an == "analog" else F), opt(ev("FilterOutputType", "Zpk")), fs])
                                if not r:
                                    continue
                                u = [2 * x / FS for x in w] if fs is not NONE else w
                                ok = nw == need and not (an == "analog" and fs is not NONE) and not (ft == "ChebyshevI" and rp is NONE) and not (ft == "ChebyshevII" and rs is NONE)
                                cond = [gt(x) for x in u] + ([gt(1 - x) for x in u] if an == "digital" else []) + ([lt(u[0], u[1])] if nw == 2 else [])
                                cond += ([ge(RP)] if rp is not NONE else []) + ([ge(RS)] if rs is not NONE else [])
                                r.returns(TM.band(*cond) if ok else F, sampler=VS)
    return go


def defaults(which):
    return lambda c: defaults_(c, which)


def defaults_(c, which):
    ev = lambda a, v: enumv(a, c.variant(a, v))
    o = lambda a, v: opt(ev(a, v))

    def pair(lab, fn, args, ref):
        for tag, n, asm in sizes(c.tier):
            if n.const() is None and "odd" in tag:
                continue
            two = ref[3] in ("Bandpass", "Bandstop")
            w = [W1, W2] if two else [W1]
            asm = asm + [gt(W1), ge(RP), ge(RS)] + ([gt(1 - w[-1])] if not ref[5] else []) + ([lt(W1, W2)] if two else [])
            if ref[7] is not NONE:
                asm = asm + [gt(FS)]
                w = [x * FS / 2 for x in w]
            r = c.run("%s[%s, %s]" % (fn, lab, tag), fn, lambda W: args(n, Arr(list(w))), assume=asm, summ=summary(c))
            q = c.run("%s[%s, %s] reference" % (fn, lab, tag), "iirfilter_dyn", lambda W: [n, Arr(list(w)), ref[1], ref[2], o("FilterBandType", ref[3]), o("FilterType", ref[4]), opt(T if ref[5] else F), o("FilterOutputType", ref[6]), ref[7]],
                      assume=asm, summ=summary(c))
            if not r or not q or q.diverges:
                continue
            r.returns(T)
            if r.diverges:
                continue
            i = c.variant("DigitalFilter", ref[6])
            r.equal("kind", r.value.kids[0], lift(i))
            r.equal("filter", pay(r.value, i), pay(q.value, i))
    R1, R2 = opt(RP), opt(RS)
    for nm, fn, pre, rp, rs, ft in (("Butterworth", "butter_dyn", (), NONE, NONE, "Butterworth"), ("Chebyshev I", "cheby1_dyn", (RP,), R1, NONE, "ChebyshevI"), ("Chebyshev II", "cheby2_dyn", (RS,), NONE, R2, "ChebyshevII")):
        if fn != which:
            continue
        mk = lambda bt, an, out, fs: (lambda n, w: [n, *pre, w, bt, an, out, fs])
        pair("all defaults", fn, mk(NONE, NONE, NONE, NONE), (0, rp, rs, "Lowpass", ft, False, "Ba", NONE))
        pair("default band and domain", fn, mk(NONE, NONE, o("FilterOutputType", "Zpk"), opt(FS)), (0, rp, rs, "Lowpass", ft, False, "Zpk", opt(FS)))
        for bt in BT:
            pair("%s, sections" % bt, fn, mk(o("FilterBandType", bt), opt(F), o("FilterOutputType", "Sos"), opt(FS)), (0, rp, rs, bt, ft, False, "Sos", opt(FS)))
            pair("%s, analog" % bt, fn, mk(o("FilterBandType", bt), opt(T), o("FilterOutputType", "Zpk"), NONE), (0, rp, rs, bt, ft, True, "Zpk", NONE))
    fn = "iirfilter_dyn"
    if fn != which:
        return
    pair("all defaults", fn, lambda n, w: [n, w, NONE, NONE, NONE, NONE, NONE, NONE, NONE], (0, NONE, NONE, "Bandpass", "Butterworth", False, "Ba", NONE))
    pair("default band, domain and output", fn, lambda n, w: [n, w, R1, R2, NONE, o("FilterType", "ChebyshevI"), NONE, NONE, opt(FS)], (0, R1, R2, "Bandpass", "ChebyshevI", False, "Ba", opt(FS)))
    pair("default prototype", fn, lambda n, w: [n, w, NONE, NONE, o("FilterBandType", "Lowpass"), NONE, NONE, o("FilterOutputType", "Zpk"), NONE], (0, NONE, NONE, "Lowpass", "Butterworth", False, "Zpk", NONE))


PROPS = {"C13": [designs(f, (b,)) for f in FT for b in BT] + [outputs(f, (b,)) for f in FT for b in BT],
         "C14": [validation(f) for f in FT] + [defaults(f) for f in ("butter_dyn", "cheby1_dyn", "cheby2_dyn", "iirfilter_dyn")]}
