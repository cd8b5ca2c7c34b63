"""Rewrites of finite sums and products used when comparing value graphs (all are identities)."""
from terms import *
import terms as TM
from facts import decide
from prove import norm


def collect(x, kinds, out, seen, under=False):
    if isinstance(x, P):
        for a in x.atoms():
            collect(a, kinds, out, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return
        seen.add(x)
        if x.k in kinds:
            out.append(x)
        collect(x.a, kinds, out, seen)
    elif isinstance(x, B):
        collect(x.a, kinds, out, seen)
    elif isinstance(x, Lam):
        collect(x.n, kinds, out, seen)
        collect(x.body, kinds, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            collect(y, kinds, out, seen)


def rewrite(x, f):
    """bottom-up rewriting of atoms: f(atom) -> P or None"""
    memo = {}

    def go(x):
        if isinstance(x, P):
            r = memo.get(x)
            if r is None:
                mp = {}
                for a in x.atoms():
                    y = goa(a)
                    if y is not None:
                        mp[a] = y
                r = memo[x] = TM.replace_atoms(x, mp) if mp else x
            return r
        if isinstance(x, B):
            if x.k == "ge":
                return ge(go(x.a[0]))
            if x.k == "gt":
                return gt(go(x.a[0]))
            if x.k == "eq":
                return eq0(go(x.a[0]))
            if x.k == "not":
                return bnot(go(x.a[0]))
            if x.k == "and":
                return band(*[go(y) for y in x.a])
            if x.k == "or":
                return bor(*[go(y) for y in x.a])
            return x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Lam):
            return Lam(go(x.n), x.var, tuple(go(y) for y in x.body))
        return x

    def goa(a):
        if a in memo:
            return memo[a]
        r = f(a)
        if r is None:
            if a.k == "ite":
                c, u, v = go(a.a[0]), go(a.a[1]), go(a.a[2])
                if c is not a.a[0] or u is not a.a[1] or v is not a.a[2]:
                    r = ite(c, u, v)
            elif a.k == "inv":
                u = go(a.a[0])
                if u is not a.a[0]:
                    r = u.inv()
            elif a.k == "let":
                u = go(a.a[0])
                if u is not a.a[0]:
                    r = let(u)
            elif a.k in ("sum", "prod"):
                n, b = go(a.a[0]), go(a.a[2])
                if n is not a.a[0] or b is not a.a[2]:
                    r = (mk_sum if a.k == "sum" else mk_prod)(n, a.a[1], b)
            elif a.k == "uf":
                t = tuple(go(y) if isinstance(y, (P, B, tuple, Lam)) else y for y in a.a)
                if any(u is not v for u, v in zip(t, a.a)):
                    r = sqrt(t[1]) if a.a[0] == "sqrt" else ufn(t, a.sort)
            elif a.k == "tdiv":
                u, v = go(a.a[0]), go(a.a[1])
                if u is not a.a[0] or v is not a.a[1]:
                    r = tdiv(u, v)
            elif a.k == "sel":
                t = tuple(go(y) for y in a.a[2])
                if any(u is not v for u, v in zip(t, a.a[2])):
                    r = sel(a.a[0], a.a[1], t)
        memo[a] = r
        return r
    return go(x)


def peel(a, b, facts):
    """make lengths of sums/products that differ by a constant equal by peeling leading terms"""
    L = []
    collect(a, ("sum", "prod"), L, set())
    collect(b, ("sum", "prod"), L, set())
    mp = {}
    for kind in ("sum", "prod"):
        xs = [x for x in L if x.k == kind]
        for x in xs:
            best = None
            for y in xs:
                d = (x.a[0] - y.a[0]).const()
                if d is not None and 0 < d <= 64 and (best is None or d > best):
                    best = d
            if best and decide(ge(x.a[0] - best), facts) is True:
                n, v, body = x.a
                r = ZERO if kind == "sum" else ONE
                for i in range(int(best)):
                    t = subst(body, {v: lift(i)})
                    r = r + t if kind == "sum" else r * t
                j = fresh("#j")
                rest = subst(body, {v: lift(j) + int(best)})
                tail = (mk_sum if kind == "sum" else mk_prod)(n - best, j, rest)
                mp[x] = r + tail if kind == "sum" else r * tail
    if not mp:
        return None
    f = lambda at: mp.get(at)
    return rewrite(a, f), rewrite(b, f)


def tile(a, b, facts):
    """sum over n = sum over full tiles of size c + remainder, for tile sizes c appearing as n div c"""
    L, D = [], []
    for x in (a, b):
        collect(x, ("sum",), L, set())
        collect(x, ("tdiv",), D, set())
    mp = {}
    for x in L:
        n, v, body = x.a
        for d in D:
            c = d.a[1].const()
            if c is None or c < 2 or c > 32 or not same(d.a[0], n):
                continue
            c = int(c)
            q = lift(d)
            j, k = fresh("#j"), fresh("#k")
            r = mk_sum(n - c * q, k, subst(body, {v: c * q + lift(k)}))
            for i in range(c):
                r = r + mk_sum(q, j, subst(body, {v: c * lift(j) + i}))
            mp[x] = r
            break
    if not mp:
        return None
    f = lambda at: mp.get(at)
    return rewrite(a, f), rewrite(b, f)


def dftconv(*sup):
    """convolution theorem: the inverse transform of the product of the transforms of two real sequences of length n is
    n times their circular convolution; with supports s1 + s2 - 1 <= n that is the linear convolution"""
    def h(a, b, facts):
        L = []
        collect(a, ("fft",), L, set())
        mp = {}
        for x in L:
            d, comp, lam, e = x.a
            if d != 1:
                continue
            R, I = (norm(y, facts) for y in lam.body)
            k = lam.var
            inner = []
            collect(R, ("fft",), inner, set())
            lams = {}
            for y in inner:
                if y.a[0] == -1 and y.a[3] is lift(k) and same(y.a[2].n, lam.n):
                    lams.setdefault(fp(y.a[2]), y.a[2])
            ls = list(lams.values())
            if len(ls) == 1:
                ls = ls * 2
            if len(ls) != 2:
                continue
            f = lambda q, c: A("fft", (-1, c, ls[q], lift(k)), "r")
            if not (same(R, f(0, 0) * f(1, 0) - f(0, 1) * f(1, 1)) and same(I, f(0, 0) * f(1, 1) + f(0, 1) * f(1, 0))):
                continue
            if any(norm(q.body[1], facts) is not ZERO for q in ls):
                continue
            if comp == 1:
                mp[x] = ZERO
                continue
            g = lambda q, i, fs: norm(subst(q.body[0], {q.var: i}), facts + tuple(fs))
            for s0, s1 in ((sup[0], sup[1]), (sup[1], sup[0])):
                i = lift(fresh("#i"))
                if g(ls[0], i, [ge(i - s0)]) is not ZERO or g(ls[1], i, [ge(i - s1)]) is not ZERO:
                    continue
                if decide(ge(lam.n - s0 - s1 + 1), facts) is not True or decide(ge(e), facts) is not True or decide(ge(s0 + s1 - 2 - e), facts) is not True:
                    continue
                if not same(s0, sup[0]):     # the sum runs over the first operand
                    ls, s0, s1 = [ls[1], ls[0]], s1, s0
                j = fresh("#j")
                jj = lift(j)
                u = g(ls[0], jj, [ge(s0 - 1 - jj)])
                v = g(ls[1], e - jj, [ge(e - jj), ge(s1 - 1 - e + jj)])
                mp[x] = lam.n * mk_sum(s0, j, u * ite(band(ge(e - jj), ge(s1 - 1 - e + jj)), v, ZERO))
                break
        if not mp:
            return None
        f = lambda at: mp.get(at)
        return rewrite(a, f), b
    h.early = True
    return h


def induct(rng=None, nest=0):
    """equality of two loop recurrences by induction on the iteration number.  rng(k): number of meaningful elements of
    the carried arrays after k iterations (reads and comparisons are confined to it); None: no arrays, or all of them"""
    def h(a, b, facts):
        from prove import prove_eq, Budget
        la = [x for x in a.atoms() if x.k == "loop"] if isinstance(a, P) else []
        lb = [x for x in b.atoms() if x.k == "loop"] if isinstance(b, P) else []
        mp = {}
        for x in la:
            for y in lb:
                if x is y or len(x.a[3]) != len(y.a[3]):
                    continue
                if not all(same(p, q) or not prove_eq(p, q, facts, [200]) for p, q in zip((x.a[2],) + x.a[3], (y.a[2],) + y.a[3])):
                    continue
                if rng and not all(decide(ge(i), facts) is True and decide(ge(rng(x.a[2]) - 1 - i), facts) is True for i in x.a[3]):
                    continue
                try:
                    if groups_equal(x.a[0], x.a[1], y.a[0], y.a[1], x.a[2], facts, rng, (induct(rng, nest - 1),) if nest else ()):
                        mp[x] = lift(y)
                        break
                except Budget:
                    pass
        if not mp:
            return None
        return TM.replace_atoms(a, mp), b
    return h


_ge = {}


def groups_equal(g, ci, g2, ci2, K, facts, rng, hints=()):
    """component ci of g equals component ci2 of g2, up to iteration K, by simultaneous induction"""
    key = (g, ci, g2, ci2)
    if rng is None:
        fs = frozenset(facts)
        for K0, f0, h0, ok in _ge.get(key, ()):
            if ok and K0 is K and f0 <= fs:
                return True
            if not ok and K0 is K and f0 == fs and h0 >= len(hints):
                return False
    ok = groups_equal_(g, ci, g2, ci2, K, facts, rng, hints)
    if rng is None:
        _ge.setdefault(key, []).append((K, fs, len(hints), ok))
    return ok


def groups_equal_(g, ci, g2, ci2, K, facts, rng, hints=()):
    from prove import prove_eq
    import itertools
    if len(g.comps) != len(g2.comps) or (len(g.comps) > 4 and ci != ci2):
        return False
    k = fresh("#n")
    kf = facts + (ge(lift(k)), lt(lift(k), K))

    class Out(Exception):
        pass
    rest2 = [i for i in range(len(g2.comps)) if i != ci2]
    for perm in (itertools.permutations(rest2) if len(g.comps) <= 4 else [rest2]):
        m = {}
        it = iter(perm)
        for i in range(len(g.comps)):
            m[i] = ci2 if i == ci else next(it)
        if any(len(g.comps[i][1]) != len(g2.comps[m[i]][1]) for i in m):
            continue
        com = {}
        ok = True
        mp1, mp2 = {g.kvar: lift(k)}, {g2.kvar: lift(k)}
        for i in m:
            p1, p2 = g.comps[i][0], g2.comps[m[i]][0]
            if isinstance(p1, TM.AV):
                com[i] = TM.AV("ih%d" % i, p1.sort)

                def rd(path, idx, av=com[i]):
                    return sel(av, (), idx)
                mp1[p1] = mp2[p2] = rd
            else:
                v = lift(fresh("ih", p1.sort))
                mp1[p1] = mp2[p2] = v
        for i in m:
            (p1, b1, i1, s1), (p2, b2, i2, s2) = g.comps[i], g2.comps[m[i]]
            es = [fresh("#e") for _ in b1]
            m1, m2 = dict(zip(b1, map(lift, es))), dict(zip(b2, map(lift, es)))
            f0 = facts + tuple(ge(lift(e)) for e in es)
            f1 = kf + tuple(ge(lift(e)) for e in es)
            if rng:
                f0 += tuple(lt(lift(e), rng(lift(0))) for e in es)
                f1 += tuple(lt(lift(e), rng(lift(k) + 1)) for e in es)
            if prove_eq(subst(i1, m1), subst(i2, m2), f0, [400], hints):
                ok = False
                break
            x1, x2 = subst(subst(s1, m1), mp1), subst(subst(s2, m2), mp2)
            bad = prove_eq(x1, x2, f1, [3000], hints)
            if bad:
                ok = False
                break
            if rng and not (in_range(x1, com.values(), f1, rng(lift(k))) and in_range(x2, com.values(), f1, rng(lift(k)))):
                ok = False
                break
        if ok:
            return True
    return False


def in_range(x, avs, facts, n):
    """every read of the carried arrays, under the conditions guarding it, lies below n"""
    avs = set(avs)
    from prove import conds, inconsistent

    def go(x, f):
        if isinstance(x, P):
            return all(goa(a, f) for a in x.atoms())
        if isinstance(x, B):
            return all(go(y, f) for y in x.a)
        if isinstance(x, tuple):
            return all(go(y, f) for y in x)
        if isinstance(x, Atom):
            return goa(x, f)
        if isinstance(x, (Lam, TM.Group)):
            return not (frozenset(avs) & x.fv)
        return True

    def goa(a, f):
        if not (frozenset(avs) & a.fv):
            return True
        if a.k == "ite":
            c, u, v = a.a
            nc = bnot(c)
            d = decide(c, f)
            return go(c, f) and (d is False or go(u, f + (c.a if c.k == "and" else (c,)))) and (d is True or go(v, f + (nc.a if nc.k == "and" else (nc,))))
        if a.k in ("sum", "prod"):
            n0 = norm(a.a[0], f)
            cs = []
            conds(n0, frozenset(), cs, set())
            cs = [c for c in cs if decide(c, f) is None]
            if cs:
                c = cs[0]
                return all(inconsistent(f + (l,)) or goa(a, f + (l,)) for l in (c, bnot(c)))
            if n0 is not a.a[0]:
                x = TM.atom(a.k, (n0,) + a.a[1:], a.sort)
                return goa(x, f)
            return go(a.a[0], f) and go(a.a[2], f + (ge(lift(a.a[1])), lt(lift(a.a[1]), a.a[0])))
        if a.k == "sel" and a.a[0] in avs:
            return all(decide(ge(i), f) is True and decide(lt(i, n), f) is True for i in a.a[2]) and go(a.a[2], f)
        return go(a.a, f)
    return go(x, tuple(facts))
