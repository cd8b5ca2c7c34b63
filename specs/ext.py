"""Odd extension and padding (C08), Savitzky-Golay (C25)."""
from spec import *
from design import opt

R, C_, n, p, nt = nat("R"), nat("C"), nat("n"), nat("p"), nat("t")
X = AV("x")
x = lambda i, j: sel(X, (), [lift(i), lift(j)])
xm = lambda: Mat(R, C_, x)


def oddrow(i, j, n, R=R):
    return ite(lt(i, n), 2 * x(ZERO, j) - x(n - i, j), ite(lt(i, n + R), x(i - n, j), 2 * x(R - 1, j) - x(2 * R + n - 2 - i, j)))


def oddcol(i, j, n, C=C_):
    return ite(lt(j, n), 2 * x(i, ZERO) - x(i, n - j), ite(lt(j, n + C), x(i, j - n), 2 * x(i, C - 1) - x(i, 2 * C + n - 2 - j)))


def spec(n, axis):
    return Mat(R + 2 * n, C_, lambda i, j: oddrow(i, j, n)) if axis == 0 else Mat(R, C_ + 2 * n, lambda i, j: oddcol(i, j, n))


def odd(c):
    for axis in (0, 1):
        r = c.run("odd_ext_dyn[axis %d]" % axis, "odd_ext_dyn", lambda w: [xm(), n, lift(axis)])
        if r:
            r.returns(TM.bor(eq(n, 0), lt(n, (R, C_)[axis])))
            r.equal("matrix", "v", spec(n, axis))
    ax = nat("axis")
    r = c.run("odd_ext_dyn[other axis]", "odd_ext_dyn", lambda w: [xm(), n, ax], assume=[ge(ax - 2)])
    if r:
        r.returns(F)


def padding(c):
    V_ = lambda v: enumv("Pad", c.variant("Pad", v))
    for axis in (0, 1):
        D = (R, C_)[axis]
        for what in ("None", "Odd", "Even", "Constant"):
            for given in (True, False):
                r = c.run("pad[%s, axis %d, %s]" % (what, axis, "length given" if given else "default length"), "pad",
                          lambda w: [V_(what), opt(p) if given else NONE, xm(), lift(axis), nt])
                if r:
                    e = ZERO if what == "None" else p if given else 3 * nt
                    ok = lt(e, D)
                    if what in ("Even", "Constant"):
                        ok = TM.band(ok, eq(e, 0))
                    r.returns(ok)
                    if not r.diverges:
                        r.equal("edge", r.value.kids[0], e)
                        r.equal("matrix", r.value.kids[1], spec(e, axis))
    ax = nat("axis")
    for what in ("None", "Odd"):
        r = c.run("pad[%s, other axis]" % what, "pad", lambda w: [V_(what), opt(p), xm(), ax, nt], assume=[ge(ax - 2)])
        if r:
            r.returns(F)


W, PO, DV, N = nat("w"), nat("k"), nat("d"), nat("N")
DEL = real("delta")
Y = AV("y")
y = lambda i: sel(Y, (), [lift(i)])


def fac(n):
    return 1 if n < 2 else n * fac(n - 1)


def coeffs(w, po, dv, delta):
    """weights of the dv-th derivative at the window's centre of the degree-po polynomial fitted by least squares, convolution order"""
    from models import minnorm
    from fractions import Fraction
    if dv > po:
        return [ZERO] * w
    pos = [Fraction(w - 1, 2) - j for j in range(w)]
    A_ = [[p ** i if i else Fraction(1) for p in pos] for i in range(po + 1)]
    return minnorm(A_, [lift(fac(dv)) / delta ** dv if i == dv else ZERO for i in range(po + 1)])


def sgcoef(ws):
    def f(c):
        for w in ws:
            for po in range(0, min(w, 6) + 1):
                for dv in [None] + list(range(0, po + 2)):
                    for dl in (None, DEL):
                        if dl is None and dv not in (None, po):
                            continue
                        r = c.run("savgol_coeffs_dyn[window %d, degree %d, derivative %s%s]" % (w, po, dv, "" if dl is None else ", spacing"), "savgol_coeffs_dyn",
                                  lambda W_: [lift(w), lift(po), NONE if dv is None else opt(lift(dv)), NONE if dl is None else opt(DEL)], assume=[gt(DEL)])
                        if r:
                            r.returns(T if po < w else F)
                            if po < w and not r.diverges:
                                r.equal("weights", "v", Arr(coeffs(w, po, dv or 0, ONE if dl is None else DEL)))
    return f


def sgsym(c):
    """any window, degree and derivative: the least-squares problem that is solved"""
    h = nat("h")
    half = lift(1) / 2
    samp = Sampler({"h": lambda r: r.randrange(1, 5), "k": lambda r: r.randrange(0, 4), "d": lambda r: r.randrange(0, 4)})
    for tag, w in (("odd", 2 * h + 1), ("even", 2 * h)):
        for dl in (None, DEL):
            a = lambda i, j: TM.powk((w - 1) * half - j, i)
            k, k2, f = fresh("#l"), fresh("#l"), fresh("#f")
            la = Lam((PO + 1) * w, k, (a(TM.tdiv(lift(k), w), lift(k) - w * TM.tdiv(lift(k), w)),))
            rhs = TM.mk_prod(DV, f, lift(f) + 1) / (TM.powk(DEL, DV) if dl is not None else ONE)
            ly = Lam(PO + 1, k2, (ite(eq(lift(k2), DV), rhs, ZERO),))
            r = c.run("savgol_coeffs_dyn[%s window%s]" % (tag, "" if dl is None else ", spacing"), "savgol_coeffs_dyn", lambda W_: [w, PO, opt(DV), NONE if dl is None else opt(DEL)], assume=[gt(DEL)])
            if r:
                r.returns(lt(PO, w), sampler=samp)
                r.equal("weights", "v", mkseq(w, lambda i: ite(lt(PO, DV), ZERO, A("uf", ("lstsq", i, w, la, ly), "r"))), sampler=samp)


CO = AV("coef")


def sgfilter(c):
    """structure of the filter for every window, given the weights"""
    rec = []

    def summ(I, st, a):
        rec.append(a)
        w = a[0]
        return mkseq(w, lambda i: sel(CO, (), [i]))
    h = nat("h")
    w = 2 * h + 1
    padded = lambda i: ite(lt(i, h), y(ZERO), ite(lt(i - h, N), y(i - h), y(N - 1)))
    for tag, n in (("samples", N), ("no samples", ZERO)):
        r = c.run("savgol_filter_dyn[odd window, %s]" % tag, "savgol_filter_dyn", lambda W_: [iterof(mkseq(n, y)), w, PO, opt(DV), opt(DEL)],
                  assume=[gt(DEL)] + ([ge(N - 1)] if n is N else []), summ={"savgol_coeffs_dyn": summ})
        if r:
            r.returns(ge(w - PO - 2))
            if n is N:
                def out(i):
                    j = fresh("#s")
                    return mk_sum(w, j, sel(CO, (), [w - 1 - lift(j)]) * padded(i + lift(j)))
                r.equal("output", "v", mkseq(N, out))
                for a in rec:
                    r.equal("request", Arr([a[0], a[1], pay(a[2], 1), pay(a[3], 1)]), Arr([w, PO, DV, DEL]))
            else:
                r.equal("length", seqlen(r.value), ZERO)
    r = c.run("savgol_filter_dyn[even window]", "savgol_filter_dyn", lambda W_: [iterof(mkseq(N, y)), 2 * h, PO, opt(DV), opt(DEL)], assume=[gt(DEL)], summ={"savgol_coeffs_dyn": summ})
    if r:
        r.returns(F)


def sgwhole(w, po, dv, dl):
    def f(c):
        h = w // 2
        r = c.run("savgol_filter_dyn[window %d, degree %d, derivative %s%s]" % (w, po, dv, "" if dl is None else ", spacing"), "savgol_filter_dyn",
                  lambda W_: [iterof(mkseq(N, y)), lift(w), lift(po), NONE if dv is None else opt(lift(dv)), NONE if dl is None else opt(DEL)], assume=[gt(DEL), ge(N - 1)])
        if r:
            r.returns(T)
            co = coeffs(w, po, dv or 0, ONE if dl is None else DEL)
            padded = lambda i: ite(lt(i, h), y(ZERO), ite(lt(i - h, N), y(i - h), y(N - 1)))
            r.equal("output", "v", mkseq(N, lambda i: sum([co[w - 1 - j] * padded(i + j) for j in range(w)], ZERO)))
    return f


PROPS = {"C08": [odd, padding],
         "C25": [sgfilter, sgsym] + [sgcoef([w]) for w in range(0, 14)] + [sgwhole(w, po, dv, dl) for w, po in ((3, 1), (5, 2), (5, 3), (7, 2), (9, 4)) for dv, dl in ((None, None), (1, DEL), (po, DEL), (po + 1, None))]}
