"""Factorials, combinatorics, Bessel functions (C21, C22, C23)."""
from spec import *
from loops import system
import math, random

UT = ("u8", "u16", "u32", "u64", "u128", "usize")
IT = ("i8", "i16", "i32", "i64", "i128", "isize")
BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}
tmax = lambda t: (1 << (BITS[t[1:]] - (t[0] == "i"))) - 1
F_ = lambda t, m: "<%s as special::factorial::Factorial>::%s" % (t, m)
C_ = lambda t, m: "<%s as special::combinatorics::Combinatoric>::%s" % (t, m)


def largest(f, t):
    n = 0
    while f(n + 1) <= tmax(t):
        n += 1
    return n


def fk(n, k):
    r = 1
    while n > 0:
        r *= n
        n -= k
    return r


def var(t, name):
    return nat(name) if t[0] == "u" else V(name)


def pr(n, f):
    j = fresh("#p")
    return mk_prod(n, j, f(lift(j)))


def factorial(c):
    for t in UT + IT:
        top = largest(lambda n: fk(n, 1), t)
        n = var(t, "n")
        s = Sampler({"n": lambda r: r.randrange(0, top + 1)})
        r = c.run("%s factorial" % t, F_(t, "factorial"), lambda w: [n], assume=[le(n, top), ge(n)])
        if r:
            r.returns(T, sampler=s)
            r.equal("value", "v", pr(n, lambda j: 1 + j), hints=(HN.peel,), sampler=s)
        neg(c, t, "factorial", n, [n])


def neg(c, t, m, n, args, mk=F_):
    if t[0] == "i":
        r = c.run("%s %s[negative]" % (t, m), mk(t, m), lambda w: args, assume=[lt(n, 0)])
        if r:
            r.returns(T)
            r.equal("value", "v", ZERO)


def factorial2(c):
    for t in UT + IT:
        top = largest(lambda n: fk(n, 2), t)
        h = nat("h")
        for par in (0, 1):
            hm = (top - par) // 2
            s = Sampler({"h": lambda r: r.randrange(0, hm + 1)})
            r = c.run("%s factorial2[%s]" % (t, "odd" if par else "even"), F_(t, "factorial2"), lambda w: [2 * h + par], assume=[le(h, hm)])
            if r:
                r.returns(T, sampler=s)
                r.equal("value", "v", pr(h + par, lambda j: 2 - par + 2 * j), hints=(HN.peel,), sampler=s)
        n = var(t, "n")
        neg(c, t, "factorial2", n, [n])


def factorialk(c):
    q = nat("q")
    for t in UT + IT:
        n, k = var(t, "n"), var(t, "k")
        top = largest(lambda n: fk(n, 1), t)
        # any step (value), and the refusal of a non-positive step
        s = Sampler({"n": lambda r: r.randrange(0, 14), "k": lambda r: r.randrange(1, 16)})
        r = c.run("%s factorialk" % t, F_(t, "factorialk"), lambda w: [n, k], assume=[ge(n)])
        if r:
            r.returns(ge(k - 1), sampler=Sampler({"n": lambda r: r.randrange(0, 14), "k": lambda r: r.randrange(-2 * (t[0] == "i"), 16)}), facts=(le(n, 33),))
            r.equal("value", "v", pr(TM.cdiv(n, k), lambda j: n - k * j), sampler=s)
        r = c.run("%s factorialk[zero]" % t, F_(t, "factorialk"), lambda w: [ZERO, k], assume=[ge(k - 1)])
        if r:
            r.returns(T)
            r.equal("value", "v", ONE)
        r = c.run("%s factorialk[step at least n]" % t, F_(t, "factorialk"), lambda w: [n, k], assume=[ge(n - 1), ge(k - n)])
        if r:
            r.returns(T, facts=(le(n, tmax(t)), le(k, tmax(t))))
            r.equal("value", "v", n)
        for kk in range(1, 8):
            for rem in range(kk):
                top = (largest(lambda n: fk(n, kk), t) - rem) // kk
                s = Sampler({"q": lambda r: r.randrange(0, top + 1)})
                r = c.run("%s factorialk[step %d, remainder %d]" % (t, kk, rem), F_(t, "factorialk"), lambda w: [kk * q + rem, lift(kk)], assume=[le(q, top)])
                if r:
                    r.returns(T, sampler=s)
                    r.equal("value", "v", pr(q + (1 if rem else 0), lambda j: (rem or kk) + kk * j), hints=(HN.peel,), sampler=s)
        neg(c, t, "factorialk", n, [n, lift(3)])


def overflow(c):
    """no intermediate result leaves the type when the value fits it"""

    def W(w, a):
        w.I.widths = True
        return a
    for t in UT + IT:
        mx = tmax(t)
        # every argument whose value fits, one by one
        for m, d in (("factorial", 1), ("factorial2", 2)):
            top = largest(lambda n: fk(n, d), t)
            for x in range(top + 1):
                r = c.run("%s %s[no overflow, n = %d]" % (t, m, x), F_(t, m), lambda w: W(w, [lift(x)]))
                if r:
                    r.returns(T)
                    r.equal("value", "v", lift(fk(x, d)))
        # a few factors, any step: n = (f-1) k + s with 0 < s < k, and n = f k
        k, s_ = nat("k"), nat("s")

        def draw(full, f):
            def post(rng, vals, arrs):
                for _ in range(40):
                    x = max(1, int(mx ** (1.0 / f) / rng.choice((0.4, 0.9, 1.0, 1.5, 2.5, 3.5))))
                    b = rng.choice((1, 2, rng.randrange(1, x + 1)))
                    a = rng.choice((x, max(1, x - rng.randrange(0, 4)), rng.randrange(1, x + 1), mx // b // rng.choice((1, 2, 3)) - b))
                    if 0 < b < a and (math.prod((b if not full else a) + j * a for j in range(f)) <= mx):
                        break
                else:
                    a, b = 2, 1
                for v in vals:
                    if v.a[0] in ("#k", "#s"):
                        vals[v] = a if v.a[0] == "#k" else b
            return Sampler(post=post)
        for f in (1, 2, 3, 4):
            for full in (False, True):
                sm = draw(full, f)
                fs = [(k if full else s_) + j * k for j in range(f)]
                if math.prod(1 + j for j in range(f)) > mx:
                    continue
                why = [ge(k - 1), le(k, mx)] + ([] if full else [ge(s_ - 1), ge(k - s_ - 1)])
                for a in range(f):
                    for b in range(a + 1, f + 1):
                        v = ONE
                        for x in fs[a:b]:
                            v = v * x
                        why.append(le(v, mx))
                v = ONE
                for x in fs:
                    v = v * x
                r = c.run("%s factorialk[no overflow, %d factors%s]" % (t, f, ", the last the step" if full else ""), F_(t, "factorialk"), lambda w: W(w, [fs[-1], k]), assume=why)
                if r:
                    r.returns(T, sampler=sm)
                    r.equal("value", "v", v, sampler=sm)


def binom_rec(n, k):
    """C(n, i) = C(n, i-1) (n+1-i) div i, exact division"""
    i = fresh("#t")
    a = fresh("c", "i")
    g = system(i, [(a, (), ONE, TM.tdiv(lift(a) * (n - lift(i)), lift(i) + 1))])
    return g[0](k, ())


def binom(n, k):
    return pr(k, lambda j: n - j) / pr(k, lambda j: 1 + j)


def cs(t):
    """random points whose intermediate products fit the type"""
    def valid(v):
        n, k = v.get("n", 0), v.get("k", 0)
        if k > n or n < 0 or k < 0:
            return n + k <= tmax(t)
        m = n + k
        return k <= 60 and math.perm(m, k) <= tmax(t)
    return Sampler({"n": lambda r: r.randrange(0, 9), "k": lambda r: r.randrange(0, 9)}, free=("n", "k"), valid=valid)


def comb(c):
    for t in UT + IT:
        n, k = var(t, "n"), var(t, "k")
        mx = min(tmax(t), (1 << 64) - 1)      # counts that fit a machine word
        fits = [le(n, mx - 1), le(k, mx - 1)]
        r = c.run("%s comb" % t, C_(t, "comb"), lambda w: [n, k], assume=[ge(n), ge(k)] + fits)
        if r:
            r.returns(T, sampler=cs(t))
            kk = ite(le(k, n - k), k, n - k)
            z = lambda v: ite(le(k, n), v, ZERO)
            r.equal("value", "v", z(binom(n, kk)), alts=[lambda: z(binom_rec(n, kk))], sampler=cs(t))
        if t[0] == "i":
            r = c.run("%s comb[negative]" % t, C_(t, "comb"), lambda w: [n, k], assume=[bor(lt(n, 0), lt(k, 0))])
            if r:
                r.returns(T)
                r.equal("value", "v", ZERO)
        r = c.run("%s comb_rep" % t, C_(t, "comb_rep"), lambda w: [n, k], assume=[ge(n), ge(k), ge(n + k - 1), le(n + k, mx)])
        if r:
            r.returns(T, sampler=cs(t))
            kk = ite(le(k, n - 1), k, n - 1)
            z = lambda v: ite(ge(n - 1), v, ZERO)
            m = n + k - 1
            r.equal("value", "v", z(binom(m, kk)), alts=[lambda: z(binom_rec(m, kk))], sampler=cs(t))
        r = c.run("%s perm" % t, C_(t, "perm"), lambda w: [n, k], assume=[ge(n), ge(k), le(n, mx - 1), le(k, mx - 1)])
        if r:
            r.returns(T, sampler=cs(t))
            r.equal("value", "v", ite(le(k, n), pr(k, lambda j: n - k + 1 + j), ZERO), sampler=cs(t))
        if t[0] == "i":
            r = c.run("%s perm[negative]" % t, C_(t, "perm"), lambda w: [n, k], assume=[bor(lt(n, 0), lt(k, 0))])
            if r:
                r.returns(T)
                r.equal("value", "v", ZERO)


def counts_fit(c):
    """no intermediate result leaves the type when k C(n, k) or the number of arrangements fits it"""
    def W(w, a):
        w.I.widths = True
        return a
    m = nat("m")
    for t in UT + IT:
        mx = min(tmax(t), (1 << 64) - 1)

        def draw(f, val, off):
            def post(rng, vals, arrs):
                x = f
                for _ in range(30):
                    x = max(f, int((mx * math.factorial(f)) ** (1.0 / max(f, 1)) * rng.choice((0.2, 0.5, 0.9, 1.0, 1.1)))) - rng.randrange(0, 3)
                    if off <= x < mx and val(x) <= mx:
                        break
                else:
                    x = off
                for v in vals:
                    if v.a[0] == "#m":
                        vals[v] = max(0, x - off)
            return Sampler(post=post)
        for f in range(0, 7):
            n = m + f
            pv = ONE
            why = []
            for j in range(f):
                pv = pv * (n - j)
                why += [le(pv, mx), le(n - j, mx - 1)]
            w2 = ONE
            for j in range(f - 1, -1, -1):
                w2 = w2 * (n - j)
                why.append(le(w2, mx))
            r = None if F in why else c.run("%s perm[no overflow, %d of n]" % (t, f), C_(t, "perm"), lambda w: W(w, [n, lift(f)]), assume=why + [ge(n - f), le(n, mx - 1)])
            if r:
                sm = draw(f, lambda x: math.perm(x, f), f)
                r.returns(T, sampler=sm)
                r.equal("value", "v", pv, sampler=sm)
            n = m + 2 * f
            for end in (False, True):
                sm = draw(f, lambda x: math.comb(x, f) * max(f, 1), 2 * f)
                cond = [ge(n - 2 * f), le(n, mx - 1)]
                b = ONE
                for j in range(f):
                    b = b * (n - j) / (j + 1)
                    cond.append(le(b * (j + 1), mx))
                if F in cond:
                    continue        # nothing fits
                r = c.run("%s comb[no overflow, %s of n]" % (t, "all but %d" % f if end else f), C_(t, "comb"), lambda w: W(w, [n, n - f if end else lift(f)]), assume=cond)
                if r:
                    r.returns(T, sampler=sm)
                    r.equal("value", "v", b, sampler=sm)
            if F not in cond:
                r = c.run("%s comb_rep[no overflow, %d]" % (t, f), C_(t, "comb_rep"), lambda w: W(w, [n - f + 1, lift(f)]), assume=cond)
                if r:
                    r.returns(T, sampler=sm)
                    r.equal("value", "v", b, sampler=sm)


def stirling(c):
    """S(n, n) = 1, S(n, 0) = 0, S(n, k) = 0 for k > n, S(n, k) = k S(n-1, k) + S(n-1, k-1); by induction on n"""
    def sp(n, k, inner):
        return ite(bor(lt(n, 0), lt(k, 0), lt(n, k)), ZERO, ite(eq(n, k), ONE, ite(eq(k, 0), ZERO, inner(n, k))))
    S = lambda n, k: TM.ufn(("stirling2", n, k), "i")
    for t in UT + IT:
        n, k = var(t, "n"), var(t, "k")
        s = Sampler({"n": lambda r: r.randrange(-2 * (t[0] == "i"), 7), "k": lambda r: r.randrange(-2 * (t[0] == "i"), 8)})
        r = c.run("%s stirling2" % t, C_(t, "stirling2"), lambda w: [n, k], recsum=lambda a: sp(a[0], a[1], S), assume=[])
        if r:
            r.returns(T, sampler=s)
            r.equal("value", "v", sp(n, k, S), alts=[lambda: sp(n, k, lambda n, k: k * sp(n - 1, k, S) + sp(n - 1, k - 1, S))], sampler=s)


def S2(n, k):
    return int(n == k) if min(n, k) <= 0 or k >= n else sum((-1) ** (k - j) * math.comb(k, j) * j ** n for j in range(k + 1)) // math.factorial(k)


def stirling_fit(c):
    """no intermediate result leaves the type when the number of partitions fits it: at each number of blocks, the last
    set that fits and the one before it; all small sets.  The recursive calls return what the specification says."""
    def W(w, a):
        w.I.widths = True
        return a
    for t in UT + IT:
        mx = tmax(t)
        ps = {(n, k) for n in range(10) for k in range(n + 2) if S2(n, k) <= mx}
        for k in range(2, 60):
            n = k
            while n < 140 and S2(n + 1, k) <= mx:
                n += 1
            if n > k:
                ps |= {(n, k), (n - 1, k)}
        bad = None
        for n, k in sorted(ps):
            r = c.run("%s stirling2[no overflow, n = %d, k = %d]" % (t, n, k), C_(t, "stirling2"), lambda w: W(w, [lift(n), lift(k)]),
                      recsum=lambda a: ONE * 0 + S2(*[int(x.const()) for x in a]) if all(x.const() is not None for x in a) else TM.ufn(("stirling2", a[0], a[1]), "i"))
            if r:
                r.returns(T)
                r.equal("value", "v", lift(S2(n, k)))


# Chebyshev expansions of exp(-x) I0(x) on [0,8] and of exp(-x) sqrt(x) I0(x) on [8,inf] (Cephes, i0.c)
I0_A = [
    "-4.41534164647933937950E-18", "3.33079451882223809783E-17", "-2.43127984654795469359E-16", "1.71539128555513303061E-15", "-1.16853328779934516808E-14",
    "7.67618549860493561688E-14", "-4.85644678311192946090E-13", "2.95505266312963983461E-12", "-1.72682629144155570723E-11", "9.67580903537323691224E-11",
    "-5.18979560163526290666E-10", "2.65982372468238665035E-9", "-1.30002500998624804212E-8", "6.04699502254191894932E-8", "-2.67079385394061173391E-7",
    "1.11738753912010371815E-6", "-4.41673835845875056359E-6", "1.64484480707288970893E-5", "-5.75419501008210370398E-5", "1.88502885095841655729E-4",
    "-5.76375574538582365885E-4", "1.63947561694133579842E-3", "-4.32430999505057594430E-3", "1.05464603945949983183E-2", "-2.37374148058994688156E-2",
    "4.93052842396707084878E-2", "-9.49010970480476444210E-2", "1.71620901522208775349E-1", "-3.04682672343198398683E-1", "6.76795274409476084995E-1",
]
I0_B = [
    "-7.23318048787475395456E-18", "-4.83050448594418207126E-18", "4.46562142029675999901E-17", "3.46122286769746109310E-17", "-2.82762398051658348494E-16",
    "-3.42548561967721913462E-16", "1.77256013305652638360E-15", "3.81168066935262242075E-15", "-9.55484669882830764870E-15", "-4.15056934728722208663E-14",
    "1.54008621752140982691E-14", "3.85277838274214270114E-13", "7.18012445138366623367E-13", "-1.79417853150680611778E-12", "-1.32158118404477131188E-11",
    "-3.14991652796324136454E-11", "1.18891471078464383424E-11", "4.94060238822496958910E-10", "3.39623202570838634515E-9", "2.26666899049817806459E-8",
    "2.04891858946906374183E-7", "2.89137052083475648297E-6", "6.88975834691682398426E-5", "3.36911647825569408990E-3", "8.04490411014108831608E-1",
]


def chebyshev(y, coef):
    """half the zeroth coefficient, plus sum of c_m T_m(y/2), coefficients from the highest order down; written with
    the polynomials T_m themselves rather than with Clenshaw's recurrence"""
    cs = coef[::-1]
    u = y / 2
    t0, t1 = ONE, u
    acc = cs[0] / 2
    for cm in cs[1:]:
        acc = acc + cm * t1
        t0, t1 = t1, 2 * u * t1 - t0
    return acc


def bessel(c):
    import struct
    from fractions import Fraction
    f32 = lambda s: struct.unpack("f", struct.pack("f", float(s)))[0]
    x = real("x")
    ax = ite(ge(x), x, -x)
    for t, rd, tol in (("f64", float, 1e-9), ("f32", f32, 1e-5)):
        A_, B_ = [[lift(Fraction(rd(s))) for s in tb] for tb in (I0_A, I0_B)]
        for m, sc in (("i0", lambda v: uf("exp", ax) * v), ("i0e", lambda v: v)):
            for nm, cond, val, lo, hi in (("|x| <= 8", ge(8 - ax), lambda: chebyshev(ax / 2 - 2, A_), 0, 8),
                                          ("|x| > 8", gt(ax - 8), lambda: chebyshev(32 / ax - 2, B_) / sqrt(ax), 8.001, 30)):
                s = Sampler({"x": lambda r: r.choice((-1, 1)) * r.choice((r.uniform(lo, hi), lo, hi))}, tol=tol)
                r = c.run("%s %s[%s]" % (t, m, nm), "special::xsf::i0::<impl special::bessel::Bessel for %s>::%s" % (t, m), lambda w: [w.cell(x)], assume=[cond])
                if r:
                    r.returns(T, sampler=s)
                    r.equal("value", "v", sc(val()), sampler=s)
    N = nat("N")
    for m in ("i0", "i0e"):
        for lab, fn in (("Vec", "<std::vec::Vec<T> as special::bessel::Bessel>::"), ("ArrayD", "<ndarray::ArrayBase<ndarray::OwnedRepr<T>, ndarray::Dim<ndarray::IxDynImpl>> as special::bessel::Bessel>::")):
            xs = rseq("x", N)
            r = c.run("%s %s" % (lab, m), fn + m, lambda w: [w.cell(xs)])
            if r:
                r.returns(T)
                r.equal("value", "v", mkseq(N, lambda i: uf("bessel_" + m, seqget(xs, i))))


PROPS = {"C23": [bessel], "C21": [factorial, factorial2, factorialk, overflow], "C22": [comb, counts_fit, stirling, stirling_fit]}
