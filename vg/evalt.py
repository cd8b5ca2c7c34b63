"""Random interpretation of value-graph terms over the reals: used only to confirm that two graphs
whose normal forms differ really denote different functions (it never executes the program)."""
from terms import *
import math, cmath, random


class EvalError(Exception):
    pass


class LoopRef:
    __slots__ = ("ev", "g", "k", "bound", "memo")

    def __init__(self, ev, g, k, bound):
        self.ev, self.g, self.k, self.bound, self.memo = ev, g, k, bound, {}

    def get(self, ci, idxs):
        key = (ci, idxs)
        if key in self.memo:
            return self.memo[key]
        ph, iv, init, step = self.g.comps[ci]
        b = dict(self.bound)
        for v, x in zip(iv, idxs):
            b[v] = x
        if self.k <= 0:
            r = self.ev.go(init, b)
        else:
            prev = self.ev.loopref(self.g, self.k - 1, self.bound)
            b[self.g.kvar] = self.k - 1
            for j, (p2, _, _, _) in enumerate(self.g.comps):
                b[p2] = (prev, j)
            r = self.ev.go(step, b)
        self.memo[key] = r
        return r


class Ev:
    def __init__(self, vars, arrays, seed=0, budget=400000, exact=False):
        self.vars, self.arrays, self.memo, self.seed = vars, arrays, {}, seed
        self.exact = exact      # rational arithmetic where possible; a comparison of an inexact value near zero has no answer
        self.lr = {}
        self.budget = budget
        self.ufs = {}

    def loopref(self, g, k, bound):
        b = {v: bound[v] for v in g.fv if v in bound}
        key = (g.id, k, tuple(sorted((v.id, hk(x)) for v, x in b.items())))
        r = self.lr.get(key)
        if r is None:
            r = self.lr[key] = LoopRef(self, g, k, b)
            # materialise previous steps iteratively to keep recursion shallow
            if k > 0:
                self.loopref(g, k - 1, bound)
        return r

    def key(self, x, bound):
        if not bound:
            return x.id
        f = x.fv
        t = tuple(sorted((v.id, hk(bound[v])) for v in f if v in bound))
        return (x.id, t) if t else x.id

    def index(self, i, bound):
        v = self.go(i, bound)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise EvalError("fractional index")
            v = round(v)
        return v

    def recip(self, y):
        if self.exact and isinstance(y, (int, Fraction)):
            return Fraction(1) / y
        return 1.0 / float(y)

    def go(self, x, bound):
        self.budget -= 1
        if self.budget < 0:
            raise EvalError("budget")
        if isinstance(x, P):
            c = x.const()
            if c is not None:
                return int(c) if c.denominator == 1 else c if self.exact else float(c)
            k = self.key(x, bound)
            if k in self.memo:
                return self.memo[k]
            s = 0
            for m, c in x.t:
                v = int(c) if c.denominator == 1 else c
                for a, e in m:
                    y = self.go(a, bound)
                    if e == 1:
                        pass
                    elif e > 0:
                        y = y ** e
                    else:
                        if y == 0:
                            raise EvalError("div0")
                        y = self.recip(y ** (-e))
                    if isinstance(v, Fraction) and isinstance(y, float):
                        v = float(v)
                    v = v * y
                if isinstance(v, Fraction):
                    if isinstance(s, float):
                        v = float(v)
                s = s + v
            if isinstance(s, Fraction):
                s = int(s) if s.denominator == 1 else s
            if isinstance(s, float) and (math.isnan(s) or math.isinf(s)):
                raise EvalError("nan")
            self.memo[k] = s
            return s
        if isinstance(x, B):
            k = self.key(x, bound)
            if k in self.memo:
                return self.memo[k]
            r = self.gob(x, bound)
            self.memo[k] = r
            return r
        if isinstance(x, Atom):
            k = self.key(x, bound)
            if k in self.memo:
                return self.memo[k]
            r = self.goa(x, bound)
            if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
                raise EvalError("nan")
            self.memo[k] = r
            return r
        raise EvalError("eval %r" % (x,))

    def gob(self, b, bound):
        k = b.k
        if k == "T":
            return True
        if k == "F":
            return False
        if k in ("ge", "gt", "eq"):
            v = self.go(b.a[0], bound)
            if self.exact and isinstance(v, float) and abs(v) < 1e-7:
                raise EvalError("inexact comparison")
            if k == "ge":
                return v >= 0
            if k == "gt":
                return v > 0
            return v == 0 or (isinstance(v, float) and abs(v) < 1e-12)
        if k == "not":
            return not self.go(b.a[0], bound)
        if k == "and":
            # evaluate cheap conjuncts first; errors in one conjunct are masked by another false
            return self.conj(b.a, bound)
        if k == "or":
            return not self.conj([bnot(x) for x in b.a], bound)
        if k == "all":
            n = int(self.go(b.a[0], bound))
            for i in range(n):
                bb = dict(bound)
                bb[b.a[1]] = i
                if not self.go(b.a[2], bb):
                    return False
            return True
        if k == "buf":
            return self.uf(b.a[0], [self.arg(y, bound) for y in b.a[1:]]) > 1.0
        raise EvalError("bool " + k)

    def conj(self, xs, bound):
        err = None
        for x in xs:
            try:
                if not self.go(x, bound):
                    return False
            except EvalError as e:
                err = e
        if err:
            raise err
        return True

    def arg(self, y, bound):
        if isinstance(y, (P, B, Atom)):
            return self.go(y, bound)
        if isinstance(y, Lam):
            n = int(self.go(y.n, bound))
            out = []
            for i in range(n):
                bb = dict(bound)
                bb[y.var] = i
                out.append(tuple(self.go(z, bb) for z in y.body))
            return out
        if isinstance(y, tuple):
            return tuple(self.arg(z, bound) for z in y)
        return y

    def uf(self, name, args):
        """smooth pseudo-random function"""
        acc = 0.0
        def feed(z, w):
            nonlocal acc
            if isinstance(z, (list, tuple)):
                acc += math.sin(H(name, "len", w) % 1000 + len(z))
                for i, q in enumerate(z):
                    feed(q, (w, i))
            elif isinstance(z, (int, float, Fraction)):
                h = H(name, w)
                acc += math.sin((1 + (h % 997) / 500.0) * float(z) + (h // 997 % 1009) / 100.0)
            else:
                acc += (H(name, w, str(z)) % 1000) / 500.0
        for i, z in enumerate(args):
            feed(z, i)
        return 1.0 + 0.4 * math.sin(3 * acc + (H(name) % 100))

    def goa(self, a, bound):
        k = a.k
        if k == "var":
            if a in bound:
                v = bound[a]
                if isinstance(v, tuple) and isinstance(v[0], LoopRef):
                    return v[0].get(v[1], ())
                return v
            if a in self.vars:
                return self.vars[a]
            if a.a[0] in self.vars:
                return self.vars[a.a[0]]
            raise EvalError("unbound " + a.a[0])
        if k == "sel":
            ix = tuple(self.index(i, bound) for i in a.a[2])
            av = a.a[0]
            if av in bound:
                v = bound[av]
                return v[0].get(v[1], ix)
            f = self.arrays.get(av) or self.arrays.get(av.name)
            if f is None:
                raise EvalError("unbound array " + av.name)
            return f(a.a[1], ix)
        if k == "ite":
            return self.go(a.a[1] if self.go(a.a[0], bound) else a.a[2], bound)
        if k == "let":
            return self.go(a.a[0], bound)
        if k == "inv":
            v = self.go(a.a[0], bound)
            if v == 0:
                raise EvalError("div0")
            return self.recip(v)
        if k == "tdiv":
            x, y = self.go(a.a[0], bound), self.go(a.a[1], bound)
            x, y = int(x), int(y)
            if y == 0:
                raise EvalError("div0")
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if k in ("sum", "prod"):
            n = int(self.go(a.a[0], bound))
            r = 0 if k == "sum" else 1
            for i in range(n):
                bb = dict(bound)
                bb[a.a[1]] = i
                v = self.go(a.a[2], bb)
                r = r + v if k == "sum" else r * v
            return r
        if k == "pow":
            b, n = self.go(a.a[0], bound), self.go(a.a[1], bound)
            if b == 0 and n < 0:
                raise EvalError("div0")
            if abs(n) > 4000:
                raise EvalError("pow")
            return b ** n
        if k == "loop":
            g, ci, kk, ix = a.a
            n = int(self.go(kk, bound))
            if n > 3000:
                raise EvalError("long loop")
            return self.loopref(g, n, bound).get(ci, tuple(self.go(i, bound) for i in ix))
        if k == "firstk":
            for i in range(3000):
                bb = dict(bound)
                bb[a.a[1]] = i
                if self.go(a.a[2], bb):
                    return i
            raise EvalError("firstk")
        if k == "npow2":
            n = int(self.go(a.a[0], bound))
            r = 1
            while r < n:
                r *= 2
            return r
        if k == "fidx":     # (n, Lam pred as 0/1, j): index of the j-th hit
            lam, j = a.a
            n = int(self.go(lam.n, bound))
            j = int(self.go(j, bound))
            for i in range(n):
                bb = dict(bound)
                bb[lam.var] = i
                if self.go(lam.body[0], bb) == 1:
                    if j == 0:
                        return i
                    j -= 1
            raise EvalError("fidx")
        if k in ("amin", "sortidx"):
            # (Lam, (avars, bvars, cmp), j|mode)
            lam, (av, bv, cmp), j = a.a
            els = self.arg(lam, bound)
            def c(x, y):
                bb = dict(bound)
                for v, z in zip(av, x):
                    bb[v] = z
                for v, z in zip(bv, y):
                    bb[v] = z
                return self.go(cmp, bb)
            if k == "amin":
                if not els:
                    raise EvalError("amin")
                best = 0
                for i in range(1, len(els)):
                    r = c(els[best], els[i])
                    if r > 0 or (j == "last" and r == 0):
                        best = i
                return best
            import functools
            order = sorted(range(len(els)), key=functools.cmp_to_key(lambda x, y: c(els[x], els[y])))
            j = int(self.go(j, bound))
            if not 0 <= j < len(order):
                raise EvalError("sortidx")
            return order[j]
        if k == "kth":
            els = sorted(e[0] for e in self.arg(a.a[0], bound))
            j = int(self.go(a.a[1], bound))
            if not 0 <= j < len(els):
                raise EvalError("kth")
            return els[j]
        if k == "fft":      # (dir, comp, Lam(re,im), idx)
            d, comp, lam, idx = a.a
            ck = ("fft", d, self.key(lam, bound))
            r = self.memo.get(ck)
            if r is None:
                els = self.arg(lam, bound)
                n = len(els)
                r = []
                for q in range(n):
                    s = 0
                    for t, (re, im) in enumerate(els):
                        s += complex(re, im) * cmath.exp(d * 2j * math.pi * q * t / n)
                    r.append(s)
                self.memo[ck] = r
            i = int(self.go(idx, bound))
            if not 0 <= i < len(r):
                raise EvalError("fft index")
            return r[i].real if comp == 0 else r[i].imag
        if k == "rec":      # (Fn object, comp, args)
            return a.a[0].eval(self, a.a[1], tuple(self.arg(y, bound) for y in a.a[2]), bound)
        if k == "uf":
            name = a.a[0]
            args = [self.arg(y, bound) for y in a.a[1:]]
            if name == "eps" and self.exact:
                return Fraction(1, 1 << 52)
            f = UF.get(name)
            if f:
                try:
                    return f(*args)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise EvalError("domain " + name)
            return self.uf(name, args)
        if k in ("inv0", "div0"):
            raise EvalError("div0")
        raise EvalError("atom " + k)


def hk(x):
    if isinstance(x, tuple) and x and isinstance(x[0], LoopRef):
        return (id(x[0]), x[1])
    return x


def _fmod(a, b):
    return math.fmod(a, b)


UF = {
    "sqrt": lambda x: math.sqrt(x), "tan": math.tan, "sin": math.sin, "cos": math.cos, "exp": math.exp,
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "ln": math.log, "log10": math.log10,
    "log2": math.log2, "atan2": math.atan2, "atan": math.atan, "asin": math.asin, "acos": math.acos,
    "powf": lambda a, b: float(a) ** float(b), "pi": lambda: math.pi, "eps": lambda: 2.0 ** -52,
    "trunc": lambda x: math.trunc(x), "floor": math.floor, "ceil": math.ceil, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
    "scratchlen": lambda n, d: (int(n) * 5 + int(d) + 3) % 7, "fmod": _fmod, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "hypot": math.hypot, "nan": lambda: float("nan"),
    "csqrt_re": lambda a, b: cmath.sqrt(complex(a, b)).real, "csqrt_im": lambda a, b: cmath.sqrt(complex(a, b)).imag,
}


def _stirling2(n, k):
    n, k = int(n), int(k)
    if n < 0 or k < 0 or n > 60:
        raise ValueError
    row = [1]
    for _ in range(n):
        row = [(j * row[j] if j < len(row) else 0) + (row[j - 1] if j else 0) for j in range(len(row) + 1)]
    return row[k] if k < len(row) else 0


UF["stirling2"] = _stirling2


def _i0(x):
    t = k = 1.0
    r = 1.0
    while abs(t) > 1e-18 * r and k < 400:
        t *= (x / 2) ** 2 / (k * k)
        r += t
        k += 1
    return r


UF["bessel_i0"] = _i0
UF["bessel_i0e"] = lambda x: _i0(x) * math.exp(-abs(x))


def _opaque(name, comp, i, *args):
    """value of a summarised function: a smooth function of its arguments that does not depend on the order of lists"""
    acc = 0.37 * comp + 0.11 * i
    w = 1.0
    for a in args:
        w *= 1.31
        if isinstance(a, list):
            for e in a:
                acc += w * math.cos(sum((1 + 0.7 * q) * float(x) for q, x in enumerate(e))) / (1 + sum(abs(float(x)) for x in e))
        else:
            acc += w * float(a)
    return math.sin(acc)


UF["opaque"] = _opaque


def _lstsq(i, n, la, ly):
    """element i of the minimum-norm solution of a full-row-rank system"""
    n, m = int(n), len(ly)
    a = [[float(la[r * n + k][0]) for k in range(n)] for r in range(m)]
    y = [float(v[0]) for v in ly]
    g = [[sum(p * q for p, q in zip(a[r], a[s])) for s in range(m)] + [y[r]] for r in range(m)]
    for c in range(m):
        p = max(range(c, m), key=lambda r: abs(g[r][c]))
        if abs(g[p][c]) < 1e-9:
            raise EvalError("rank")
        g[c], g[p] = g[p], g[c]
        for r in range(m):
            if r != c:
                f = g[r][c] / g[c][c]
                g[r] = [u - f * v for u, v in zip(g[r], g[c])]
    return sum(a[r][int(i)] * g[r][m] / g[r][r] for r in range(m))


UF["lstsq"] = _lstsq


def _medianof(l):
    v = sorted(e[0] for e in l)
    n = len(v)
    return (v[(n - 1) // 2] + v[n // 2]) / 2 if n else 0


UF["medianof"] = _medianof
