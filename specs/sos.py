"""Second-order sections from zeros, poles and gain (C28): an inductive invariant of the pairing loop.

State of the loop: the lists of zeros and poles still to be placed, in which a number with nonzero imaginary part
stands for itself and its conjugate.  Invariant: each iteration takes poles and zeros out of the lists and appends
a section whose denominator and numerator are exactly the products of their factors."""
import random, time
from fractions import Fraction as Q
from spec import *
from design import *
from evalt import Ev, EvalError
from prove import conds, assume_cond, prove_eq, Budget
from facts import decide, simp, inconsistent
import prove as PV
import hints as HN

NZL, NPL = nat("nz"), nat("np")


class Give(Exception):
    pass


class Split:
    """summary of splitting a list into one of each conjugate pair and the real elements: any list"""

    def __init__(self):
        self.args = []

    def __call__(self, I, st, a):
        if not all(isv(a[0], k) for k in ()) and not (isv(a[0], "seq") or isv(a[0], "arr")):
            return None
        t = len(self.args)
        if t >= 2:
            return None
        self.args.append(a[0])
        n = nat("len%d" % t)
        l = mkseq(n, lambda i: Cx(uf("re%d" % t, i), uf("im%d" % t, i)))
        return Tup(l, Arr([]))


def tf_sum(I, st, a):
    """coefficients of the transfer function of explicitly listed roots (C17 decides zpk2tf_dyn itself)"""
    order, z, p, k = a
    z, p = I.deref(st, z), I.deref(st, p)
    n = order.const() if isinstance(order, P) else None
    if n is None or not isv(z, "arr") or not isv(p, "arr") or max(len(z.kids), len(p.kids)) > n:
        return None
    n = int(n)

    def poly(rs):
        c = [Cx(1, 0)]
        for x in rs:
            m = c + [Cx(0, 0)]
            for i, y in enumerate(c):
                m[i + 1] = csub(m[i + 1], cxmul(y, x))
            c = m
        return c
    f = lambda c, g: Arr([g * re(x) for x in c] + [ZERO] * (n + 1 - len(c)))
    return Rec("BaFormatFilter", (f(poly(z.kids), k), f(poly(p.kids), ONE)))


def loops_in(x, out, seen):
    if isinstance(x, P):
        for a in x.atoms():
            loops_in(a, out, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return
        seen.add(x)
        if x.k == "loop":
            out.append(x)
        loops_in(x.a, out, seen)
    elif isinstance(x, B):
        if x not in seen:
            seen.add(x)
            loops_in(x.a, out, seen)
    elif isinstance(x, Lam):
        loops_in(x.n, out, seen)
        loops_in(x.body, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            loops_in(y, out, seen)


class Pairing:
    """the pairing loop of one run, in terms of an arbitrary state"""

    def __init__(self, r, sp, facts, digital, swap=False):
        self.r, self.sp, self.digital, self.swap = r, sp, digital, swap
        self.facts = facts
        v = r.value.kids[0]
        self.n = simp(seqlen(v), facts)
        self.k = fresh("#k")
        k = lift(self.k)
        self.fk = facts + (ge(k), lt(k, self.n))
        e = self.n - 1 - k                 # the sections are in reverse order of their construction
        s = seqget(v, e)
        self.b, self.a, self.z = s.kids[0], s.kids[1], s.kids[2:]
        self.raw_b = [simp(x, self.fk + (ge(e - 1),)) for x in self.b.kids]
        s0 = seqget(v, ZERO)
        self.raw_b0 = [simp(x, facts) for x in s0.kids[0].kids]
        self.raw_a = [simp(x, self.fk) for x in self.a.kids]
        ls = []
        loops_in(tuple(self.raw_b + self.raw_a), ls, set())
        gs = {x.a[0] for x in ls}
        if len(gs) != 1:
            raise Give("%d recurrences in the sections" % len(gs))
        self.g = gs.pop()
        self.comp = {}
        for ci, (ph, bs, init, step) in enumerate(self.g.comps):
            for t in (0, 1):
                if not bs and same(init, nat("len%d" % t)):
                    self.comp[("n", 1 - t if swap else t)] = ci
                for nm in ("re", "im"):
                    if len(bs) == 1 and same(init, uf(nm + str(t), lift(bs[0]))):
                        self.comp[(nm, 1 - t if swap else t)] = ci
        if len(self.comp) != 6 or len(self.g.comps) != 6:
            raise Give("the loop carries %d values, %d recognised" % (len(self.g.comps), len(self.comp)))
        self.abs, self.absfacts = {}, {}
        self.e = fresh("#e")

    def loops(self, x):
        ls = []
        loops_in(x, ls, set())
        return any(y.a[0] is self.g for y in ls)

    # ---- state symbols
    def ph(self, nm, t):
        return self.g.comps[self.comp[(nm, t)]][0]

    def ln(self, t):
        return lift(self.ph("n", t))

    def el(self, nm, t, i):
        return sel(self.ph(nm, t), (), [i])

    def step(self, nm, t):
        ph, bs, init, st = self.g.comps[self.comp[(nm, t)]]
        return subst(st, {self.g.kvar: lift(self.k), **({bs[0]: lift(self.e)} if bs else {})})

    def state(self, x, k=None):
        """loop values at iteration k -> state symbols; extrema and filter positions -> fresh indices"""
        own = {self.k} | {c[0] for c in self.g.comps}

        def f(a):
            if a.k == "loop" and a.a[0] is self.g:
                if not same(simp(a.a[2], self.facts if k is not None else self.fk), lift(self.k) if k is None else k):
                    raise Give("loop value of another iteration")
                ph = self.g.comps[a.a[1]][0]
                ix = tuple(HN.rewrite(y, f) for y in a.a[3])
                return sel(ph, (), list(ix)) if ix else lift(ph)
            if a.k in ("fidx", "amin"):
                key = PV.norm(HN.rewrite(lift(0) + sum([], ZERO), f), ()) if False else a
                v = self.abs.get(key)
                if v is None:
                    lam = a.a[0]
                    n = HN.rewrite(lam.n, f)
                    for w, (kind, n2, l2, k2) in self.absfacts.items():
                        if kind == a.k and self.same_order(a, f, n, n2, l2, k2):
                            self.abs[key] = w
                            return lift(w)
                    v = self.abs[key] = fresh("#i")
                    body = tuple(HN.rewrite(y, f) for y in lam.body)
                    rest = HN.rewrite(a.a[1], f) if a.k == "fidx" else a.a[1]
                    self.absfacts[v] = (a.k, n, (lam.var, body), rest)
                return lift(v)
            return None
        return HN.rewrite(x, f)

    def same_order(self, a, f, n, n2, l2, rest):
        lam = a.a[0]
        if not same(n, n2) or len(lam.body) != len(l2[1]):
            return False
        body = tuple(subst(HN.rewrite(y, f), {lam.var: lift(l2[0])}) for y in lam.body)
        if not all(same(x, y) for x, y in zip(body, l2[1])):
            return False
        if a.k == "fidx":
            return same(HN.rewrite(a.a[1], f), rest)
        return a.a[1] == rest

    def order_facts(self, facts):
        """positions found by a search lie in the list, and satisfy the filter: where something was found"""
        out = []
        for v, (kind, n, (var, body), rest) in self.absfacts.items():
            if kind == "amin":
                m = simp(self.count(n, facts), facts)
                if decide(gt(m), facts) is True:
                    out.append(lt(lift(v), m))
            else:
                cnt = simp(self.count(mk_sum(n, var, body[0]), facts), facts)
                if decide(gt(cnt - rest), facts) is True:
                    out += [lt(lift(v), n), eq(subst(body[0], {var: lift(v)}), 1)]
        return tuple(out)

    def reals(self, t):
        f = fresh("#f")
        return mk_sum(self.ln(t), f, b2i(eq(self.el("im", t, lift(f)), 0)))

    def count(self, x, facts):
        """counts of real (or of other) elements in a list without some of its elements"""
        if not hasattr(self, "R"):
            self.R = [lift(fresh("#R%d_" % t)) * (2 if self.digital else 1) for t in (0, 1)]
            self.cc = {}

        def f(a):
            if a.k != "sum" or {self.ph("n", 0), self.ph("n", 1)} & a.a[0].fv == set():
                return None
            if a in self.cc:
                return self.cc[a]
            n, w, body = a.a
            for t in (0, 1):
                d = self.ln(t) - n
                dc = d.const()
                if dc is None or not 0 <= dc <= 1:
                    continue
                cand = [()] if dc == 0 else [(i,) for i in self.indices(body, t, w)]
                for rm in cand:
                    wl = lift(w)
                    src = wl if not rm else ite(ge(wl - rm[0]), wl + 1, wl)
                    rl = b2i(eq(self.el("im", t, src), 0))
                    fs = (ge(wl), lt(wl, n)) + tuple(ge(i) for i in rm)
                    tot, wt = self.R[t] - sum((b2i(eq(self.el("im", t, i), 0)) for i in rm), ZERO), None
                    if self.eqv(body, rl, fs):
                        wt = tot
                    elif self.eqv(body, 1 - rl, fs):
                        wt = n - tot
                    if wt is not None:
                        self.cc[a] = wt
                        return wt
            return None
        return HN.rewrite(x, f)

    def eqv(self, a, b, facts):
        try:
            return not prove_eq(a, b, tuple(facts), [800])
        except Budget:
            return False

    def indices(self, x, t, bound):
        """index terms at which elements of list t are used"""
        out = []

        def go(y, seen):
            if isinstance(y, P):
                for a in y.atoms():
                    go(a, seen)
            elif isinstance(y, (Atom, B)):
                if y in seen:
                    return
                seen.add(y)
                if isinstance(y, Atom) and y.k == "sel" and y.a[0] in (self.ph("re", t), self.ph("im", t)):
                    out.append(y.a[2][0])
                go(tuple(y.a), seen)
            elif isinstance(y, Lam):
                go(y.body, seen)
            elif isinstance(y, tuple):
                for q in y:
                    go(q, seen)
        go(x, set())
        vs = []
        for i, (kind, n, lam, rest) in self.absfacts.items():
            if self.ph("n", t) in n.fv:
                vs.append(lift(i))
        for i in out:
            if bound not in i.fv and self.e not in i.fv and not any(i is j for j in vs):
                vs.append(i)
        return vs


def factor(v, real):
    """coefficients, highest power first, of the factor an element stands for"""
    x, y = v
    return [ONE, -x] if real else [ONE, -2 * x, x * x + y * y]


def pmul(p, q):
    r = [ZERO] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] = r[i + j] + x * y
    return r


class Check:
    """proves the invariant of a Pairing: leaves of the case distinctions of one iteration"""

    def __init__(self, pr, mode):
        """mode: what is known of the degrees still to be placed in the sections to come. digital: two for each, zeros
        and poles; even, odd (no zeros): as many poles as fill the sections, one less; analog: nothing"""
        self.p, self.mode = pr, mode
        self.digital = mode == "digital"
        self.strict = mode != "analog"
        self.leaves = 0
        self.fail = None

    def run(self, asserts):
        p = self.p
        b, a = [p.state(x) for x in p.raw_b], [p.state(x) for x in p.raw_a]
        ns = [p.state(p.step("n", t)) for t in (0, 1)]
        els = [[p.state(p.step(nm, t)) for nm in ("re", "im")] for t in (0, 1)]
        self.asserts = [p.state(subst(x.a[2], {x.a[1]: lift(p.k)})) for x in asserts if x.k == "all" and self.every(x)]
        k = lift(p.k)
        p.count(ZERO, ())
        if self.mode in ("even", "odd"):
            h = lift(fresh("#h"))
            p.R, p.cc = [ZERO, 2 * h + (1 if self.mode == "odd" else 0)], {}
        R = [lift(x) for x in p.R]
        F0 = [ge(k), lt(k, p.n)]
        for t in (0, 1):
            F0 += [ge(p.ln(t)), ge(R[t]), ge(p.ln(t) - R[t])]
        if self.digital:
            # the degrees still to be placed: two for each section to come (so an even number of real elements)
            F0 += [eq(p.ln(t), p.n - k + R[t] * Q(1, 2)) for t in (0, 1)]
        if self.mode in ("even", "odd"):
            F0 += [eq(p.ln(0), 0), ge(h), eq(p.ln(1), p.n - k + h)]
        c = lambda x: p.count(x, ())
        X = [c(x) for x in b] + [c(x) for x in a] + [c(x) for x in ns] + [c(x) for l in els for x in l]
        A_ = [c(x) for x in self.asserts]
        self.state0 = (X, F0)
        return self.split(X, A_, tuple(F0), 0)

    def consumed(self, asserts):
        """the assertions after the loop imply that every zero and pole was placed"""
        p = self.p
        fs = tuple(l for x in asserts for l in (lambda y: y.a if y.k == "and" else (y,))(p.state(x, p.n)))
        if all(decide(eq(p.ln(t), 0), fs) is True for t in (0, 1)):
            return True
        self.fail = "zeros or poles may be left out"
        return False

    def every(self, x):
        if not same(simp(x.a[0], self.p.facts), self.p.n):
            raise Give("assertion over other ranges")
        return True

    def final(self, asserts):
        """what is asserted after the loop"""
        p = self.p
        fs = tuple(ge(p.ln(t)) for t in (0, 1)) + tuple(x for t in (0, 1) for x in (ge(p.R[t]), ge(p.ln(t) - p.R[t])))
        # (one less than no poles cannot be)
        fs += tuple(eq(p.ln(t), p.R[t] * Q(1, 2)) for t in (0, 1)) if self.digital else (eq(p.ln(0), 0), eq(2 * p.ln(1), p.R[1]))
        for x in asserts:
            y = p.state(x, p.n)
            if decide(simp(y, fs), fs + p.facts) is not True:
                self.fail = "may panic after the loop: %s" % str(x)[:200]
                return False
        return True

    def classes(self, facts, used):
        """counting facts about the elements taken out"""
        p = self.p
        out = []
        for t in (0, 1):
            nr = sum((b2i(eq(p.el("im", t, i), 0)) for i in used[t]), ZERO)
            out += [ge(p.R[t] - nr), ge(p.ln(t) - p.R[t] - len(used[t]) + nr)]
        return out

    def facts(self, facts, X):
        """consequences of the facts so far: positions found, and that a counted element exists"""
        p = self.p
        for _ in range(3):
            add = tuple(f for f in p.order_facts(facts) if f is not T and not any(f is g for g in facts))
            more = []
            for v in p.absfacts:
                for t in (0, 1):
                    i = lift(v)
                    if any(i is j for j in self.used(X, t)) and decide(lt(i, p.ln(t)), facts + add) is True:
                        d = decide(eq(p.el("im", t, i), 0), facts + add)
                        if d is True:
                            more.append(ge(p.R[t] - 1))
                        elif d is False:
                            more.append(ge(p.ln(t) - p.R[t] - 1))
            more = tuple(f for f in more if f is not T and not any(f is g for g in facts))
            if not add and not more:
                break
            facts = facts + add + more
        return facts

    def used(self, X, t):
        return [i for i in self.p.indices(tuple(X), t, None)]

    def split(self, X, A_, facts, depth):
        p = self.p
        if time.time() > self.until:
            raise Give("time")
        facts = self.facts(facts, X)
        facts = self.resolve(facts)
        if F in facts or inconsistent(facts) or self.parity(facts):
            return True
        X = [simp(x, facts) for x in X]
        A2 = [simp(x, facts) for x in A_]
        if not self.strict:
            # what the section is where the conversion does not panic
            for x in A2:
                for l in (x.a if x.k == "and" else (x,)):
                    in_ = []
                    conds((l,), frozenset(), in_, set())
                    if l is F:
                        return True
                    if l is not T and not any(q is not l and bnot(q) is not l for q in in_) and not any(l is f for f in facts):
                        facts = facts + (l,)
            facts = self.resolve(self.facts(facts, X))
            if F in facts or inconsistent(facts):
                return True
            X = [simp(x, facts) for x in X]
        cs = []
        conds(tuple(X[:8]), frozenset((p.e,)), cs, set())
        conds(tuple(X[8:]), frozenset((p.e,)), cs, set())
        if not cs:
            return self.leaf(X, A2, facts, depth)
        # conditions on lengths and counts first
        key = lambda c: (bool(c.fv & set(p.absfacts)), PV.size(c))
        c = min(cs, key=key)
        if depth > 24:
            raise Give("depth")
        ok = True
        for val in (True, False):
            f = facts + (c if val else bnot(c),)
            if inconsistent(f):
                continue
            ok = self.split([assume_cond(x, c, val) for x in X], [assume_cond(x, c, val) for x in A2], f, depth + 1) and ok
            if not ok:
                return False
        return ok

    def resolve(self, facts):
        """the choices that the facts make inside each other"""
        out = list(facts)
        for i, f in enumerate(out):
            cs = []
            conds((f,), frozenset(), cs, set())
            cs = [c for c in cs if c is not f and bnot(c) is not f]
            for c in cs:
                d = decide(c, tuple(g for g in out if g is not out[i]))
                if d is not None:
                    f = assume_cond(f, c, d)
            out[i] = f
        return tuple(f for f in out if f is not T)

    def parity(self, facts):
        """an equation that has no integral solution once the values known are put in"""
        eqs = [f for f in facts if f.k == "eq" and f.a[0].isint]
        mp = {}
        for f in eqs:
            if len(f.a[0].fv) == 1:
                for v, x in TM.eqsols(f):
                    if lift(x).const() is not None:
                        mp[v] = lift(x)
        return any(subst(f, mp) is F for f in eqs) if mp else False

    def leaf(self, X, A_, facts, depth):
        p = self.p
        b, a, ns, els = X[:3], X[3:6], X[6:8], (X[8:10], X[10:12])
        taken = []
        for t in (0, 1):
            d = next((q for q in range(3) if decide(eq(p.ln(t) - ns[t], q), facts) is True), None)
            if d is None or not 0 <= d <= 2:
                return self.no("list %d changes its length by %s" % (t, p.ln(t) - ns[t]), facts)
            rm = self.removed(t, int(d), els[t], ns[t], X, facts)
            if rm is None:
                return self.no("list %d does not lose %d elements" % (t, d), facts)
            taken.append(rm)
        # the class of each element taken
        for t in (0, 1):
            for i in taken[t]:
                c = eq(p.el("im", t, i), 0)
                if decide(c, facts) is None:
                    ok = True
                    for val in (True, False):
                        ok = ok and self.split([assume_cond(x, c, val) for x in X], [assume_cond(x, c, val) for x in A_], facts + (c if val else bnot(c),), depth + 1)
                    return ok
        if self.strict:
            for x in A_:
                for l in (x.a if x.k == "and" else (x,)):
                    facts = self.facts(facts, X)
                    if decide(simp(l, facts), facts) is not True:
                        return self.no("may panic: %s" % str(simp(l, facts))[:200], facts)
                    facts = facts + (l,)
            for t in (0, 1):
                if not all(decide(lt(i, p.ln(t)), facts) is True for i in taken[t]):
                    return self.no("takes elements outside list %d" % t, facts)
        facts = facts + tuple(x for x in self.classes(facts, taken) if x is not T)
        if inconsistent(facts):
            return True
        fac = []
        for t in (0, 1):
            q = [ONE]
            for i in taken[t]:
                q = pmul(q, factor((p.el("re", t, i), p.el("im", t, i)), decide(eq(p.el("im", t, i), 0), facts) is True))
            fac.append(q)
        if any(len(q) > 3 for q in fac):
            return self.no("more than two roots in a section: %s %s" % ([[str(i) for i in t] for t in taken], [len(q) for q in fac]), facts)
        if self.digital and any(len(q) != 3 for q in fac):
            return self.no("fewer than two roots in a section", facts)
        if self.mode == "even" and len(fac[1]) != 3 or self.mode == "odd" and len(fac[1]) < 2:
            return self.no("too few poles in a section", facts)
        # the quotient is exact: the numerator and the denominator may share a power of x
        for sh in range(0, 4 - max(len(q) for q in fac)):
            want = [[ZERO] * (3 - len(q) - sh) + q + [ZERO] * sh for q in fac]
            if all(self.p.eqv(x, y, facts) for x, y in zip(b + a, want[0] + want[1])):
                break
        else:
            return self.no("the section %s / %s has not the factors %s" % ([str(x) for x in b], [str(x) for x in a], [[str(y) for y in q] for q in fac]), facts)
        self.leaves += 1
        return True

    def no(self, why, facts):
        self.fail = why + " under " + "; ".join(str(f)[:160] for f in facts[8:])
        return False

    def removed(self, t, d, els, n, X, facts):
        p = self.p
        e = lift(p.e)
        fe = facts + (ge(e), lt(e, n))
        cand = [i for i in self.used(X[:6], t)] if d else [None]
        sets = [()] if d == 0 else [(i,) for i in cand] if d == 1 else [(i, j) for i in cand for j in cand if decide(lt(i, j), facts) is True]
        for s in sets:
            src = e
            if len(s) == 1:
                src = ite(ge(e - s[0]), e + 1, e)
            elif len(s) == 2:
                src = ite(ge(e - (s[1] - 1)), e + 2, ite(ge(e - s[0]), e + 1, e))
            if all(p.eqv(els[q], p.el(nm, t, src), fe) for q, nm in ((1, "im"), (0, "re"))):
                return s
        return None


class Tables(Ev):
    """evaluation with given lists of zeros and poles"""

    def uf(self, name, args):
        t = self.tab.get(name)
        if t is None:
            return Ev.uf(self, name, args)
        i = int(args[0])
        if not 0 <= i < len(t):
            raise EvalError("element %d" % i)
        return t[i]


def draw(rng, digital, zmore, allpole):
    """lists closed under conjugation; -> vars, tables, the roots"""
    def lst(n, nr):
        c = [complex(round(rng.uniform(-0.95, 0.95), 3), round(rng.uniform(0.05, 0.95), 3)) for _ in range((n - nr) // 2)]
        r = sorted(round(rng.uniform(-0.95, 0.95), 3) for _ in range(nr))
        return sorted(c, key=lambda v: (v.real, v.imag)), r
    if digital:
        big = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
        n = 2 * ((big + 1) // 2)
        less = rng.randrange(0, big + 1)
        z, p = (big, less) if zmore else (less, big)
        out = []
        for d in (z, p):
            pad = n - d
            nr = rng.choice([q for q in range(d % 2, d + 1, 2)])
            c, r = lst(d, nr)
            out.append((c, sorted(r + [0.0] * pad)))
    else:
        p = rng.choice((1, 2, 3, 4, 5, 6, 7))
        z = 0 if allpole else rng.randrange(0, p + 1)
        out = [lst(d, rng.choice([q for q in range(d % 2, d + 1, 2)])) for d in (z, p)]
    return z, p, out


def terms(v, e):
    """(numerator, denominator) coefficients of section e"""
    s = seqget(v, lift(e))
    return s.kids[0].kids, s.kids[1].kids


def at(cs, x):
    r = 0
    for c in cs:
        r = r * x + c
    return r


class Lists:
    def __init__(self, r, swap, digital, zmore, allpole):
        self.r, self.swap, self.digital, self.zmore, self.allpole = r, swap, digital, zmore, allpole

    def witness(self, asserts, tries=800, until=None):
        """lists of zeros and poles for which the sections are not those of the filter, or the conversion panics"""
        v = self.r.value.kids[0]
        rng = random.Random(7)
        for _ in range(tries):
            if until and time.time() > until:
                return None
            z, p, ls = draw(rng, self.digital, self.zmore, self.allpole)
            tab = {}
            for t in (0, 1):
                c, q = ls[1 - t if self.swap else t]
                tab["re%d" % t] = [x.real for x in c] + list(q)
                tab["im%d" % t] = [x.imag for x in c] + [0] * len(q)
            k = rng.choice((1.0, 2.0, 0.5, -3.0))
            vs = {}
            for x, y in ((Z, z), (PN, p), (K, k), (nat("len0"), len(tab["re0"])), (nat("len1"), len(tab["re1"])), (nat("order"), max(z, p))):
                vs[next(iter(x.fv))] = y
            ev = Tables(vs, {}, budget=3000000)
            ev.tab = tab
            say = "zeros %s, poles %s, gain %s" % (tuple([x.conjugate() for x in l[0]] + list(l[0]) + l[1] for l in ls) + (k,))
            try:
                bad = None
                for a in asserts:
                    if not ev.go(a, {}):
                        bad = a
                        break
                if bad is not None:
                    if self.digital or self.allpole:
                        return "the conversion panics: %s: %s" % (say, str(bad)[:300])
                    continue
                n = int(ev.go(seqlen(v), {}))
                num = den = 1
                x = 1.7 - 0.6j
                for e in range(n):
                    b, a = terms(v, e)
                    num *= at([ev.go(y, {}) for y in b], x)
                    den *= at([ev.go(y, {}) for y in a], x)
            except (EvalError, OverflowError, ZeroDivisionError, RecursionError):
                continue
            want = k
            for i, l in enumerate(ls):
                for q in list(l[0]) + [q.conjugate() for q in l[0]] + list(l[1]):
                    want = want * (x - q) if i == 0 else want / (x - q)
            got = num / den if den else float("inf")
            if not abs(got - want) < 1e-6 * (1 + abs(want)):
                return "%s: the sections have the gain %s at %s, the filter %s" % (say, got, x, want)
        return None


def multiset(r, arg, want, facts):
    """sampled sizes for which two lists differ as multisets"""
    rng = random.Random(3)
    for _ in range(40):
        z, p = rng.randrange(0, 6), rng.randrange(0, 6)
        vs = {next(iter(Z.fv)): z, next(iter(PN.fv)): p}
        ev = Ev(vs, {}, seed=rng.random())
        try:
            if not all(ev.go(f, {}) for f in facts):
                continue
            ls = []
            for l in (arg, want):
                n = int(ev.go(seqlen(l), {}))
                ls.append(sorted((round(float(ev.go(re(seqget(l, lift(i))), {})), 9), round(float(ev.go(im(seqget(l, lift(i))), {})), 9)) for i in range(n)))
        except EvalError:
            continue
        if ls[0] != ls[1]:
            return "%d zeros and %d poles: %s instead of %s" % (z, p, ls[0], ls[1])
    return None


def pairing(c, tag, asm, analog, zmore=False, allpole=False):
    sp = Split()
    digital = analog is not T
    lab = "zpk2sos_dyn[%s]" % tag
    r = c.run(lab, "zpk2sos_dyn", lambda W: [nat("order"), zpk(Arr([]) if allpole else mkseq(Z, zc), mkseq(PN, pc), K), NONE, opt(analog) if analog is not None else NONE],
              assume=asm, summ={"cplxreal_dyn": sp, "zpk2tf_dyn": tf_sum}, timeout=240)
    if not r:
        return
    if r.diverges:
        return c.bad(lab, r.f["path"], "the conversion never returns normally")
    if r.w.st.taint:
        return c.und(lab, r.f["path"], "state not fully tracked: %s" % r.w.st.taint)
    if len(sp.args) != 2:
        return c.und(lab, r.f["path"], "the lists are not split by cplxreal_dyn")
    facts = tuple(asm)
    c_put = lambda name, v, d="": c.obs.append({"id": lab + "/" + name, "verdict": v, "function": r.f["path"], "at": r.f["span"], "detail": d})
    nsec = TM.tdiv((Z if zmore else PN) + 1, 2)
    # what is split: the zeros and the poles, with zeros appended up to two for each section
    want = []
    for n, g in ((ZERO if allpole else Z, zc), (PN, pc)):
        m = simp(2 * nsec, facts) if digital else n
        want.append(mkseq(m, lambda i, n=n, g=g: Cx(ite(lt(i, n), re(g(i)), ZERO), ite(lt(i, n), im(g(i)), ZERO))))
    ok, swap, names = None, False, ("zeros", "poles")

    def samelist(x, y):
        cases = [{}]
        if digital:
            m, big = nat("half"), next(iter((Z if zmore else PN).fv))
            cases = [{big: 2 * m}, {big: 2 * m - 1}]
        return all(same_(x, y, mp) for mp in cases)

    def same_(x, y, mp):
        i = lift(fresh("#i"))
        g = lambda t: subst(t, mp)
        f = tuple(g(q) for q in facts) + ((ge(nat("half") - 1),) if mp else ())
        fi = f + (ge(i), lt(i, simp(g(seqlen(y)), f)))
        try:
            if 0 in (seqlen(x).const(), seqlen(y).const()):
                return same(seqlen(x), seqlen(y))
            return not prove_eq(g(seqlen(x)), g(seqlen(y)), f, [2000]) and all(not prove_eq(g(h(seqget(x, i))), g(h(seqget(y, i))), fi, [2000]) for h in (re, im))
        except Budget:
            return False
    for o in ((0, 1), (1, 0)):
        res = [samelist(sp.args[t], want[o[t]]) for t in (0, 1)]
        if all(res):
            ok, swap = True, o == (1, 0)
            break
    if ok:
        for t in (0, 1):
            c_put("the %s split into pairs are those of the filter%s" % (names[t], ", padded to two for each section" if digital else ""), "PROVED")
    else:
        ws = [[multiset(r, sp.args[t], want[o[t]], facts) for t in (0, 1)] for o in ((0, 1), (1, 0))]
        swap = sum(map(bool, ws[1])) < sum(map(bool, ws[0]))
        w = [x for x in ws[swap] if x]
        c_put("the zeros and poles split into pairs are those of the filter", "VIOLATION" if w else "UNDECIDED", w[0] if w else "lists not recognised")
    asserts = [x for kk, b in r.w.st.pc[r.npc:] if kk == "A" for x in (b.a if b.k == "and" else (b,))]
    until = time.time() + max(10, c.left(200))
    wit = Lists(r, swap, digital, zmore, allpole)

    def settle(name, good, why):
        if good:
            return c_put(name, "PROVED", why)
        w = wit.witness(asserts, until=time.time() + max(5, c.left(40)))
        c_put(name, "VIOLATION" if w else "UNDECIDED", w or why)
    v = r.value.kids[0] if isv(r.value, "adt") or r.value.kids else r.value
    name = "each section is made of the zeros and poles it takes out of the lists"
    try:
        p = Pairing(r, sp, facts, digital, swap)
        ch = Check(p, "digital" if digital else "even" if allpole else "analog")
        ch.until = until
        good, cases = ch.run(asserts), ch.leaves
        last = [x for x in asserts if x.k != "all"]
        end = good and ch.final(last) if digital or allpole else good and ch.consumed([x for x in last if p.loops(x)])
        if allpole and end:
            ch = Check(p, "odd")
            ch.until = until
            end = good = ch.run(asserts)
            cases += ch.leaves
        settle(name, good, "%d cases" % cases if good else ch.fail)
        settle("no panic for any lists of zeros and poles" if digital else "no panic without zeros" if allpole else "every zero and pole is placed", end, "" if end else ch.fail)
        settle("one section for each two of them", not prove_eq(p.n, nsec, facts, [2000]), "number of sections")
        last = tuple(facts) + (ge(p.n - 1),)
        end = [subst(x, {p.k: p.n - 1}) for x in p.raw_b]
        settle("the gain is in the first section", all(not prove_eq(x, K * y, last, [2000]) for x, y in zip(p.raw_b0, end)), "gain")
        zi = all(same(simp(x, p.fk), ZERO) for x in p.z)
        settle("delay lines start at rest", zi, "delay lines")
    except (Give, Budget, Timeout, Shape, AttributeError, IndexError, KeyError) as e:
        if c.trace:
            import traceback
            traceback.print_exc()
        settle(name, False, "%s: %s" % (type(e).__name__, e))


def empty(c):
    lab = "zpk2sos_dyn[no zeros, no poles]"
    r = c.run(lab, "zpk2sos_dyn", lambda W: [nat("order"), zpk(Arr([]), Arr([]), K), NONE, NONE])
    if r and not r.diverges:
        v = r.value.kids[0]
        r.equal("one section", seqlen(v), ONE)
        s = seqget(v, ZERO)
        r.equal("the gain", s.kids[0], Arr([K, ZERO, ZERO]))
        r.equal("the denominator", s.kids[1], Arr([ONE, ZERO, ZERO]))


def split_lists(c):
    """splitting into conjugate pairs and real elements: lists up to four elements, in every arrangement of interest"""
    a, b, d, t, x, y, n = (real(q) for q in ("a", "b", "d", "t", "x", "y", "n"))
    eps = uf("eps")
    csq = lambda u, v: uf("csqrt_re", u * u - v * v, 2 * u * v)
    tol = lambda v: 100 * eps * v
    ab = lambda u, v: TM.sqrt(u * u + v * v)
    cx = lambda u, v: [gt(v), gt(v - tol(csq(u, v))), gt(v - tol(csq(u, -v)))]
    e = a + eps * t
    near = lambda *vs: [ge(tol(ab(u, v)) - eps * t) for u in (a, e) for v in vs]
    cases = [
        ("one real", [Cx(x, ZERO)], [], [], [x]),
        ("a real with rounding error", [Cx(x, n)], [gt(n), ge(tol(csq(x, n)) - n)], [], [x]),
        ("two reals", [Cx(y, ZERO), Cx(x, ZERO)], [gt(y - x)], [], [x, y]),
        ("a pair", [Cx(a, b), Cx(a, -b)], cx(a, b), [(a, b)], []),
        ("a pair, negative half first", [Cx(a, -b), Cx(a, b)], cx(a, b), [(a, b)], []),
        ("a pair about a real", [Cx(a, b), Cx(x, ZERO), Cx(a, -b)], cx(a, b) + [gt(x - a)], [(a, b)], [x]),
        ("a pair and a smaller real", [Cx(x, ZERO), Cx(a, b), Cx(a, -b)], cx(a, b) + [gt(a - x)], [(a, b)], [x]),
        ("two pairs", [Cx(a, b), Cx(x, d), Cx(x, -d), Cx(a, -b)], cx(a, b) + cx(x, d) + [gt(x - a - tol(ab(a, b)))], [(a, b), (x, d)], []),
        ("two pairs over one real part", [Cx(a, b), Cx(a, d), Cx(a, -d), Cx(a, -b)], cx(a, b) + cx(a, d) + [gt(d - b)], [(a, b), (a, d)], []),
        ("two pairs over nearly one real part, whose halves come in opposite orders", [Cx(a, b), Cx(e, d), Cx(a, -d), Cx(e, -b)],
         cx(a, b) + cx(e, d) + cx(a, d) + cx(e, b) + [gt(b - d), gt(t), gt(eps * t), eq(TM.sqrt(t * t * eps * eps), t * eps)] + near(b, d), [(a + eps * t / 2, d), (a + eps * t / 2, b)], []),
    ]
    rg = lambda l, h: lambda rng: rng.uniform(l, h)
    sm = Sampler(ranges={"b": rg(0.5, 0.9), "d": rg(0.1, 0.4), "t": rg(0.2, 0.9), "n": lambda rng: rng.uniform(1e-17, 1e-16), "a": rg(-0.9, 0.1), "x": rg(0.2, 0.9), "y": rg(0.92, 2)}, tol=1e-9)
    sm2 = Sampler(ranges=dict(sm.ranges, d=rg(0.92, 1.5), x=rg(-2, -0.95)), tol=1e-9)
    for name, l, asm, pairs, reals in cases:
        lab = "cplxreal_dyn[%s]" % name
        try:
            World(c.data).find("cplxreal_dyn", True)
        except Missing:
            return c.und(lab, "cplxreal_dyn", "the splitting is not a function of its own")
        r = c.run(lab, lambda W: W.find("cplxreal_dyn", True), lambda W: [Arr(l), NONE], assume=asm)
        if not r:
            continue
        s_ = Sampler(ranges=sm.ranges, tol=1e-19) if name == "a real with rounding error" else sm2 if name in ("two pairs over one real part", "a pair and a smaller real") else sm
        r.returns(T, s_)
        if not r.diverges:
            if len(pairs) + len(reals):
                r.equal("pairs", r.value.kids[0], Arr([Cx(u, v) for u, v in pairs]), sampler=s_)
                r.equal("reals", r.value.kids[1], Arr([Cx(u, ZERO) for u in reals]), sampler=s_)


PROPS = {"C28": [
    lambda c: pairing(c, "digital, no more zeros than poles", [ge(Z + PN - 1), ge(PN - Z)], None),
    lambda c: pairing(c, "digital, more zeros than poles", [ge(Z - PN - 1)], None, True),
    lambda c: pairing(c, "analog", [ge(PN - Z), ge(PN - 1)], T),
    lambda c: pairing(c, "analog without zeros", [ge(PN - 1)], T, allpole=True),
    empty,
    split_lists]}
