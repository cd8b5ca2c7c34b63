from fractions import Fraction
from spec import *
from interp import Giveup
import models as MD

N = nat("N")
X = AV("x")
x = lambda i: sel(X, (), [lift(i)])
xs = lambda: iterof(mkseq(N, x))


def S(n, f):
    j = fresh("#s")
    return mk_sum(n, j, f(lift(j)))


def avg():
    return S(N, x) / N


def var():
    m = avg()
    return S(N, lambda i: (x(i) - m) * (x(i) - m)) / N


NE = ge(N - 1)


def orzero(v):
    return ite(NE, v, ZERO)


def moments(c):
    r = c.run("mean", "stats::mean", lambda w: [xs()])
    if r:
        r.returns(T)
        r.equal("result", "v", Tup(orzero(avg()), N))
    r = c.run("variance", "stats::variance", lambda w: [xs()])
    if r:
        r.returns(T)
        r.equal("result", "v", Tup(orzero(var()), N))
    r = c.run("stdev", "stats::stdev", lambda w: [xs()])
    if r:
        r.returns(T)
        r.equal("result", "v", Tup(orzero(sqrt(var())), N))
    r = c.run("zscore", "stats::zscore", lambda w: [xs()])
    if r:
        r.returns(T)
        r.equal("result", "v", mkseq(N, lambda i: (x(i) - avg()) / sqrt(var())), facts=(NE,))
    lag = nat("lag")
    r = c.run("autocorr", "stats::autocorr", lambda w: [xs(), lag])
    if r:
        n2 = ite(le(lag, N), N - lag, ZERO)
        m = avg()
        r.returns(T)
        r.equal("result", "v", S(n2, lambda i: (x(i) - m) * (x(i + lag) - m)) / N / var(), facts=(NE,))
    r = c.run("lag_diff", "stats::lag_diff", lambda w: [xs()])
    if r:
        r.returns(T)
        r.equal("result", "v", mkseq(ite(NE, N - 1, ZERO), lambda i: x(i + 1) - x(i)))
    r = c.run("rmssd", "stats::rmssd", lambda w: [xs()])
    if r:
        r.returns(T)
        d = lambda i: x(i + 1) - x(i)
        r.equal("result", "v", sqrt(S(N - 1, lambda i: d(i) * d(i)) / (N - 1)), facts=(ge(N - 2),))


def fast32(c):
    r = c.run("rms_fast32", "stats::rms_fast32", lambda w: [w.cell(mkseq(N, x))])
    if r:
        r.returns(T)
        r.equal("result", "v", sqrt(S(N, lambda i: x(i) * x(i)) / N), facts=(NE,), hints=(HN.tile,))
    M, SK = nat("M"), nat("SKIP")
    O = AV("o")
    o = lambda i: sel(O, (), [lift(i)])

    def b(w):
        w.y, w.x = w.cell(mkseq(N, x)), w.cell(mkseq(M, o))
        return [w.y, w.x]
    r = c.run("autocorr_fast32", "stats::autocorr_fast32", b)
    if r:
        r.returns(ge(N - M - SK))
        r.equal("variance", "v", var(), facts=(NE,))
        m = avg()
        r.equal("centred input", r.w.get(r.w.y), mkseq(N, lambda i: x(i) - m), facts=(NE,))
        lagn = lambda j: N - SK - j
        r.equal("lags", r.w.get(r.w.x), mkseq(M, lambda j: S(lagn(j), lambda i: (x(i) - m) * (x(i + SK + j) - m))), facts=(NE,), hints=(HN.tile,))


# ---------------------------------------------------------------- order statistics (C19)
def weak_orders(n):
    """rank of each element, for every way n elements can compare"""
    out = []

    def go(i, ranks):
        if i == n:
            if set(ranks) == set(range(max(ranks) + 1)):
                out.append(tuple(ranks))
            return
        for r in range(n):
            go(i + 1, ranks + [r])
    go(0, [])
    return out


def orders(n, part, of):
    def f(c):
        for ranks in weak_orders(n)[part::of]:
            m = max(ranks) + 1
            d = [real("v")] + [real("d%d" % i) for i in range(1, m)]
            v = [sum(d[1:i + 1], d[0]) for i in range(m)]
            ys = [v[r] for r in ranks]
            st = sorted(ranks)
            med = v[st[n // 2]] if n % 2 else (v[st[n // 2 - 1]] + v[st[n // 2]]) / 2
            r = c.run("median[%s]" % ",".join(map(str, ranks)), "stats::median", lambda w: [iterof(Arr(ys))], assume=[gt(x) for x in d[1:]])
            if r:
                s = Sampler({"d%d" % i: (lambda r: r.uniform(0.1, 2)) for i in range(1, m)})
                r.returns(T, sampler=s)
                r.equal("result", "v", Tup(med, lift(n)), sampler=s)
    return f


def lam(n, f):
    j = fresh("#q")
    return TM.Lam(n, j, (f(lift(j)),))


def kth(n, f, k):
    return TM.A("kth", (lam(n, f), lift(k)), "r")


def recurse(I, st, args):
    """a recursive call with a list and a position: the element at that position of the sorted list"""
    if len(args) != 2 or not isinstance(args[1], P):
        return None
    l = I.deref(st, args[0])
    if not (isv(l, "arr") or isv(l, "seq")):
        return None
    n = seqlen(l)

    def el(i):
        v = I.deref(st, seqget(l, i))
        if not isinstance(v, P):
            raise Giveup("recursive call on a list of something else")
        return v
    I.recursive = I.called
    MD.require(st, band(ge(args[1]), lt(args[1], n)))
    return kth(n, el, args[1])


def selection(n, k, p):
    """the element at position k, found with any element p of the list: among the smaller ones, p itself, or among the larger ones"""
    lo, hi = S(n, lambda i: ite(lt(x(i), p), ONE, ZERO)), S(n, lambda i: ite(lt(p, x(i)), ONE, ZERO))
    sub = lambda cond: (lambda j: x(TM.A("fidx", (lam(n, lambda i: ite(cond(i), ONE, ZERO)), lift(j)), "i")))
    return ite(eq(n, 1), x(0), ite(lt(k, lo), kth(lo, sub(lambda i: lt(x(i), p)), k), ite(lt(k, n - hi), p, kth(hi, sub(lambda i: lt(p, x(i))), k - (n - hi)))))


def selects(c, uid):
    """does the recursive function select by rank at all (decided for lists of up to three elements, recursion followed)?"""
    g = Ctx(c.pid, c.data, c.tier)
    g.deadline = c.deadline
    for n in (1, 2, 3):
        for ranks in weak_orders(n):
            d = [real("v")] + [real("d%d" % i) for i in range(1, max(ranks) + 1)]
            v = [sum(d[1:i + 1], d[0]) for i in range(max(ranks) + 1)]
            for k in range(n):
                r = g.run("select", lambda w: w.I.fns[uid], lambda w: [w.cell(Arr([v[q] for q in ranks])), lift(k)], assume=[gt(y) for y in d[1:]])
                if not r or r.diverges or not isinstance(r.value, P) or not same(r.value, v[sorted(ranks)[k]]):
                    return False
    return True


def median(c):
    h = nat("h")
    for par in (0, 1):
        n = 2 * h + par
        lab = "median[%s length]" % ("odd" if par else "even")

        def b(w):
            w.I.recurse = recurse
            return [iterof(mkseq(n, x))]
        s = Sampler({"h": lambda r: r.randrange(1 - par, 7)}, {"x": lambda r, p, i: r.choice((-1.0, 0.0, 1.0, r.uniform(-2, 2)))})
        r = c.run(lab, "stats::median", b, assume=[] if par else [ge(h - 1)])
        if not r:
            continue
        uid = getattr(r.w.I, "recursive", None)
        if uid and not selects(c, uid):
            c.und(lab, r.f["path"], "the recursive function is not a selection by rank")
            continue
        spec = lambda sel_: Tup(sel_(h) if par else (sel_(h - 1) + sel_(h)) / 2, n)
        piv = [x(h), x(0), x(n - 1)] + ([] if par else [x(h - 1)])
        # an element is neither smaller nor larger than itself
        cnt = []
        for p in piv:
            lo, hi = S(n, lambda i: ite(lt(x(i), p), ONE, ZERO)), S(n, lambda i: ite(lt(p, x(i)), ONE, ZERO))
            cnt += [ge(lo), ge(hi), le(lo + hi, n - 1)]
        r.returns(T, sampler=s, facts=cnt)
        r.equal("result", "v", spec(lambda k: kth(n, x, k)), alts=[(lambda p=p: spec(lambda k: selection(n, k, p))) for p in piv], sampler=s, facts=cnt)
    r = c.run("median[empty]", "stats::median", lambda w: [iterof(Arr([]))])
    if r:
        r.returns(T)
        r.equal("result", "v", Tup(ZERO, ZERO))


def med_of(I, st, args):
    it = args[0]
    try:
        l = MD.collect(I, st, MD.toit(I, st, it))
    except Exception:
        return None
    if not (isv(l, "arr") or isv(l, "seq")):
        return None
    n = seqlen(l)
    j = fresh("#q")
    v = I.deref(st, seqget(l, lift(j)))
    if not isinstance(v, P):
        return None
    return Tup(mid(n, lambda i: subst(v, {j: i})), n)


def mid(n, f):
    return uf("medianof", lam(n, f))


def deviations(c):
    sm = {"stats::median": med_of}
    ab = lambda v: ite(ge(v), v, -v)
    m = mid(N, x)
    dev = lambda i: ab(x(i) - m)
    r = c.run("median_abs_deviation", "stats::median_abs_deviation", lambda w: [xs()], summ=sm)
    if r:
        r.returns(T)
        r.equal("result", "v", Tup(mid(N, dev), N))
    r = c.run("mod_zscore", "stats::mod_zscore", lambda w: [xs()], summ=sm)
    if r:
        r.returns(T)
        q = lift(Fraction(0.6745))
        r.equal("result", "v", mkseq(N, lambda i: (x(i) - m) * q / mid(N, dev)), facts=(NE,))


PROPS = {"C18": moments, "C20": fast32, "C19": [median, deviations] + [orders(n, 0, 1) for n in (1, 2, 3, 4)] + [orders(5, i, 8) for i in range(8)]}
