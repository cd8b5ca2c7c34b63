"""Loop summarisation: find the loop-carried leaves by a fixpoint with placeholders, close the
recurrences (induction variables, sums, products, last values, pointwise stores), and leave the rest
as a simultaneous recurrence (Group)."""
from terms import *
import terms as TM
from facts import decide, simp
from values import *


TRACE = [False]


class Phi:
    __slots__ = ("ph", "bs", "init", "step", "isb", "cell", "leaf", "sort")


def summarize(I, st0, body, fr=None, h=None):
    from interp import Giveup, Diverge, merge_states
    un = unroll(st0, body, merge_states)
    if un is not None:
        return un
    kv = fresh("#k")
    k = lift(kv)
    U = {}        # cell -> skeleton value
    mod = {}      # cell -> {leaf index: Phi}
    realsort = set()
    for rnd in range(14):
        s = st0.copy()
        phs = []
        for cell, u in U.items():
            ls = leaves(u)
            init = conform(st0.mem[cell], u)
            if init is None:
                raise Giveup("loop skeleton")
            new = []
            for i, (bs, t) in enumerate(ls):
                if i in mod[cell]:
                    p = Phi()
                    p.cell, p.leaf, p.bs, p.init = cell, i, bs, init[i]
                    p.isb = isinstance(t, B)
                    isint = p.isb or (isinstance(init[i], P) and (init[i].isint or init[i] is BOTP))
                    p.sort = "i" if isint and (cell, i) not in realsort else "r"
                    if bs:
                        p.ph = AV("ph%d.%d#%d" % (cell, i, TM.nid()), p.sort)
                        v = sel(p.ph, (), [lift(b) for b in bs])
                    else:
                        p.ph = fresh("ph", p.sort)
                        v = lift(p.ph)
                    if p.isb:
                        v = eq(v, 1)
                        p.init = b2i(p.init)
                    new.append(v)
                    phs.append(p)
                else:
                    new.append(init[i])
            s.mem[cell] = rebuild(u, iter(new))
        npc = len(s.pc)
        entry = dict(s.mem)
        backs, exits = body(s)
        if not backs:
            if not U:
                return exits
            # the back edge disappeared with placeholders installed: exits of the first iteration
            s = st0.copy()
            backs, exits = body(s)
            if not backs:
                return exits
            raise Giveup("unstable loop")
        back = merge_states(backs)
        bf = back.facts()
        changed = False
        for cell in list(st0.mem):
            old = entry.get(cell)
            nv = back.mem.get(cell)
            if nv is None or nv is old:
                continue
            if cell in U:
                ls = conform(nv, U[cell])
                if ls is None:
                    u2 = union(U[cell], nv)
                    if u2 is None or conform(st0.mem[cell], u2) is None or conform(nv, u2) is None:
                        I.note("loop-carried value without a common shape in %s" % (fr.uid if fr else "iterator"))
                        st1 = st0.copy()
                        st1.mem[cell] = Unk
                        if st0.mem[cell] is Unk:
                            raise Giveup("unk loop")
                        return summarize(I, st1, body, fr, h)
                    U[cell] = u2
                    mod[cell] = {i: None for i in range(len(leaves(u2)))}
                    changed = True
                    continue
                ol = conform(old, U[cell])
                for i, (a, b) in enumerate(zip(ol, ls)):
                    if i in mod[cell]:
                        if isinstance(b, P) and not b.isint and not simp(b, bf).isint:
                            ph = [p for p in phs if p.cell == cell and p.leaf == i][0]
                            if ph.sort == "i":
                                realsort.add((cell, i))
                                changed = True
                        continue
                    if not same(a, b) and not same(simp(a, bf), simp(b, bf)):
                        mod[cell][i] = None
                        changed = True
            else:
                if same_val(old, nv):
                    continue
                u = st0.mem[cell]
                ls = conform(nv, u)
                if ls is None:
                    u = union(st0.mem[cell], nv)
                    if u is not None:
                        ls = conform(nv, u)
                    if u is None or ls is None or conform(st0.mem[cell], u) is None:
                        if st0.mem[cell] is Unk or nv is Unk:
                            if st0.mem[cell] is not Unk:
                                st1 = st0.copy()
                                st1.mem[cell] = Unk
                                return summarize(I, st1, body, fr, h)
                            continue
                        # dead temporaries are assigned before use: model as Bot
                        if st0.mem[cell] is not Bot:
                            st1 = st0.copy()
                            I.note("loop-carried value without a common shape in %s" % (fr.uid if fr else "iterator"))
                            st1.mem[cell] = Unk
                            return summarize(I, st1, body, fr, h)
                        continue
                    U[cell] = u
                    mod[cell] = {i: None for i in range(len(leaves(u)))}
                    changed = True
                    continue
                ol = conform(old, u)
                d = {i: None for i, (a, b) in enumerate(zip(ol, ls)) if not same(a, b) and not same(simp(a, bf), simp(b, bf))}
                if d:
                    U[cell] = u
                    mod[cell] = d
                    changed = True
        if not changed:
            break
    else:
        raise Giveup("loop fixpoint")
    # ---- recurrences
    stay = band(*[b for kk, b in back.pc[npc:] if kk == "G"])
    asrt = band(*[b for kk, b in back.pc[npc:] if kk == "A"])
    for p in phs:
        nv = conform(back.mem[p.cell], U[p.cell])[p.leaf]
        rf = rangefacts(U[p.cell], back.mem[p.cell], p.bs)
        if p.isb:
            nv = b2i(simp(nv, bf + rf))
        p.step = simp(nv, bf + rf)
        if rf:
            p.init = simp(p.init, st0.facts() + rf)
    closed = close(phs, kv, st0.facts())

    def at(x, kk):
        return simp(sub_closed(x, closed, kv, kk), ())
    stay_k = simp(sub_closed(stay, closed, kv, k), st0.facts())
    N = trip(stay_k, kv, st0.facts())
    asrt_k = sub_closed(asrt, closed, kv, k)
    inside = st0.facts() + (lt(k, N), stay_k)
    asrt_k = simp(asrt_k, inside)
    # second chance: the assertion may follow from the iteration facts literal by literal
    if asrt_k.k == "and":
        asrt_k = band(*[x for x in asrt_k.a if decide(x, inside) is not True])
    # ---- exit
    s = st0.copy()
    s.add("P", ge(N))
    s.add("A", forall(N, kv, asrt_k))
    fin = subst(bnot(stay_k), {kv: N})
    if fin is not F:
        s.add("P", fin)
    for cell, u in U.items():
        ls = leaves(u)
        init = conform(st0.mem[cell], u)
        new = []
        byleaf = {p.leaf: p for p in phs if p.cell == cell}
        for i, (bs, t) in enumerate(ls):
            if i in byleaf:
                p = byleaf[i]
                v = closed[p.ph](N, tuple(lift(b) for b in bs))
                v = simp(v, s.facts())
                if p.isb:
                    v = eq(v, 1)
                new.append(v)
            else:
                new.append(init[i])
        s.mem[cell] = rebuild(u, iter(new))
    backs, exits = body(s)
    if not exits:
        raise Diverge()
    return exits


UNROLL = 24


def unroll(st0, body, merge_states):
    """a loop whose exit test is decided in every iteration is unrolled"""
    s = st0.copy()
    for it in range(UNROLL + 1):
        backs, exits = body(s)
        if not backs:
            return exits if it > 0 or exits else None
        if exits:
            return None
        s = merge_states(backs)
    return None


def rangefacts(u, now, bs):
    """0 <= index < length for the binders of an array leaf whose length is loop-invariant"""
    if not bs:
        return ()
    bl = binder_lens(u)
    nl = conform(now, u)
    out = []
    n0 = {}
    # the length leaf of each binder: unchanged by the loop body
    ul = leaves(u)
    for b in bs:
        n = bl.get(b)
        if n is None:
            continue
        idx = [i for i, (bb, t) in enumerate(ul) if t is n]
        if idx and all(nl[i] is n for i in idx):
            out += [ge(lift(b)), lt(lift(b), n)]
    return tuple(out)


def system(kv, comps, facts=()):
    """closed forms of a simultaneous recurrence given as [(ph, bs, init, step)] (used by
    specifications): list of functions (k, idx) -> term"""
    phs = []
    for ph, bs, init, step in comps:
        p = Phi()
        p.ph, p.bs, p.init, p.step = ph, tuple(bs), lift(init), lift(step)
        p.isb, p.cell, p.leaf, p.sort = False, None, None, ph.sort
        phs.append(p)
    c = close(phs, kv, tuple(facts))
    return [c[ph] for ph, _, _, _ in comps]


def union(a, b):
    """skeleton able to hold both"""
    u = merge(B.mk("buf", ("union!",)), a, b)
    if has_cond(u):
        return None
    return u


def has_cond(v):
    if isinstance(v, (P, B)):
        return False
    return v.kind in ("cond", "unk") or any(has_cond(k) for k in v.kids)


def sub_closed(x, closed, kv, k):
    mp = {}
    for ph, f in closed.items():
        if isinstance(ph, AV):
            mp[ph] = (lambda f: (lambda path, idx: f(k, idx)))(f)
        else:
            if ph in x.fv:
                mp[ph] = f(k, ())
    if k is not lift(kv):
        x = subst(x, {kv: lift(k)})   # closed forms are given at k already
        # (terms in mp may contain kv only through k)
    return subst(x, mp)


def mkclosed(kv, bs, term):
    def f(k, idx):
        mp = {kv: lift(k)}
        for b, i in zip(bs, idx):
            mp[b] = lift(i)
        return subst(term, mp)
    return f


def close(phs, kv, facts):
    closed = {}
    todo = list(phs)
    k = lift(kv)
    kf = facts + (ge(k),)
    allph = {p.ph for p in phs}

    done = {}

    def cur(p):
        if not (p.step.fv & frozenset(closed)) and done.get(p.ph) is p.step:
            return p.step
        p.step = simp(sub_closed(p.step, closed, kv, k), kf)
        done[p.ph] = p.step
        return p.step
    while todo:
        prog = False
        for p in list(todo):
            tp = frozenset(q.ph for q in todo)
            if (p.step.fv & tp) - {p.ph}:
                continue
            stp = cur(p)
            others = stp.fv & tp
            t = try_close(p, stp, others, kv, kf)
            if t is None and p.bs and others == {p.ph}:
                s2 = localize(p, stp, kv, kf)
                if s2 is not stp:
                    t = try_close(p, s2, s2.fv & tp, kv, kf)
                if t is None:
                    s2 = hoist(p, stp, kv, kf)
                    if s2 is not stp:
                        t = try_close(p, s2, s2.fv & tp, kv, kf)
            if t is not None:
                closed[p.ph] = mkclosed(kv, p.bs, t)
                todo.remove(p)
                prog = True
        if prog:
            continue
        # substituting the closed forms may remove dependencies
        tp = frozenset(q.ph for q in todo)
        for p in todo:
            old = p.step.fv & tp
            if (cur(p).fv & tp) != old:
                prog = True
        if prog:
            continue
        # arrays each of whose elements is stored in one iteration only: reads of elements not yet
        # stored see the initial value
        if unstored(todo, cur, closed, kv, kf):
            continue
        # strongly connected source component
        dep = {p.ph: set(p.step.fv & frozenset(q.ph for q in todo)) for p in todo}

        def reach(x):
            seen = set()
            w = [x]
            while w:
                y = w.pop()
                for z in dep[y]:
                    if z not in seen:
                        seen.add(z)
                        w.append(z)
            return seen
        R = {p.ph: reach(p.ph) for p in todo}
        best = min(todo, key=lambda p: len(R[p.ph] | {p.ph}))
        comp = [p for p in todo if p.ph in R[best.ph] or p is best]
        comp_ph = frozenset(p.ph for p in comp)
        g = mk_group(kv, [(p.ph, p.bs, p.init, cur(p)) for p in comp])
        for ci, p in enumerate(comp):
            def f(kk, idx, g=g, ci=ci):
                return mk_loop(g, ci, kk, tuple(lift(x) for x in idx))
            closed[p.ph] = f
            todo.remove(p)
    return closed


def unstored(todo, cur, closed, kv, kf):
    prog = False
    if not any(p.bs for p in todo):
        return False
    for p in todo:
        if not p.bs:
            continue
        x = sel(p.ph, (), [lift(b) for b in p.bs])
        st = stores(cur(p), x, p.ph)
        if not st:
            continue
        ks = None
        for cond, val in st:
            sk = solve_k(cond, p.bs, kv)
            if sk is None or (ks is not None and not same(ks, sk[0])):
                ks = None
                break
            ks = sk[0]
        if ks is None:
            continue
        hit = [False]
        facts = kf

        def rd(path, idx):
            mp = dict(zip(p.bs, idx))
            if all(same(i, lift(b)) for i, b in zip(idx, p.bs)):
                return sel(p.ph, (), idx)
            if decide(ge(subst(ks, mp) - lift(kv)), facts) is True:
                hit[0] = True
                return subst(p.init, mp)
            return sel(p.ph, (), idx)
        for q in todo:
            t = cur(q)
            if p.ph in t.fv:
                q.step = subst(t, {p.ph: rd})
        prog = prog or hit[0]
    return prog


def delta(p, x):
    """p - x with the subtraction pushed through ites"""
    d = p - x
    at = p.single()
    if at is not None and at.k == "ite":
        return ite(at.a[0], delta(at.a[1], x), delta(at.a[2], x))
    return d


def localize(p, stp, kv, facts):
    """make the dependence of an array recurrence on its own element explicit: split on the equations between the
    index and the iteration number, and recognise reads of the element's own index under such an equation"""
    from prove import conds, assume_cond
    cs = []
    conds(stp, frozenset(), cs, set())
    bs = frozenset(p.bs)
    eqs = [c for c in dict.fromkeys(cs) if c.k == "eq" and kv in c.fv and c.fv & bs]
    if len(eqs) > 3:
        return stp
    for c in eqs:
        a, b = simp(assume_cond(stp, c, True), facts + (c,)), simp(assume_cond(stp, c, False), facts + (bnot(c),))
        stp = ite(c, a, b)
    x = sel(p.ph, (), [lift(b) for b in p.bs])

    def go(t, f):
        if not mentions(t, p.ph):
            return t
        at = t.single()
        if at is not None and at.k == "ite":
            c, a, b = at.a
            nc = bnot(c)
            return ite(c, go(a, f + (c.a if c.k == "and" else (c,))), go(b, f + (nc.a if nc.k == "and" else (nc,))))

        def rd(path, idx):
            if all(same(i, lift(b)) or decide(eq(i, lift(b)), f) is True for i, b in zip(idx, p.bs)):
                return x
            return sel(p.ph, (), idx)
        return subst(t, {p.ph: rd})
    return go(stp, facts)


def hoist(p, stp, kv, facts):
    """bring case distinctions on the iteration number alone, hidden inside index equations, to the top"""
    from prove import conds, assume_cond
    cs = []
    conds(stp, frozenset(), cs, set())
    bs = frozenset(p.bs)
    hs = [c for c in dict.fromkeys(cs) if c.k == "ge" and kv in c.fv and not (c.fv & bs) and p.ph not in c.fv]
    if not hs or len(hs) > 2:
        return stp
    for c in hs:
        a, b = simp(assume_cond(stp, c, True), facts + (c,)), simp(assume_cond(stp, c, False), facts + (bnot(c),))
        stp = ite(c, a, b)
    return stp


def mentions(x, ph):
    return ph in x.fv


def try_close(p, stp, others, kv, facts):
    k = lift(kv)
    x = sel(p.ph, (), [lift(b) for b in p.bs]) if p.bs else lift(p.ph)
    if stp is x or same(stp, x):
        return p.init
    if not others:
        prev = subst(stp, {kv: k - 1})
        if same(prev, p.init):
            return p.init
        return ite(eq(k, 0), p.init, prev)
    if others != {p.ph}:
        return None
    d = delta(stp, x)
    if not mentions(d, p.ph):
        j = fresh("#j")
        return p.init + mk_sum(k, j, subst(d, {kv: lift(j)}))
    # x * c
    if not p.bs:
        q = stp / x if len(stp.t) == 1 else None
        if q is None:
            # factor x out of each monomial
            a = p.ph
            if all(any(y is a and e == 1 for y, e in m) for m, c in stp.t):
                q = P.mk({tuple((y, e) for y, e in m if y is not a): c for m, c in stp.t})
        if q is not None and not mentions(q, p.ph):
            j = fresh("#j")
            return p.init * mk_prod(k, j, subst(q, {kv: lift(j)}))
        return None
    # pointwise store into an array
    st = stores(stp, x, p.ph)
    if st is None:
        return None
    return st_close(p, st, x, kv, facts)


def stores(t, x, ph):
    """t = ite-tree with leaves either x (unchanged) or values -> [(cond, value)]"""
    out = []

    def go(t, cond):
        if t is x:
            return True
        at = t.single()
        if at is not None and at.k == "ite" and mentions(t, ph):
            c, a, b = at.a
            return go(a, cond + (c,)) and go(b, cond + (bnot(c),))
        out.append((cond, t))
        return True
    if not go(t, ()):
        return None
    return out


def solve_k(cond, bs, kv):
    """an equation in cond determining kv from the index variables: (k as P, extra condition)"""
    lits = []
    for c in cond:
        lits.extend(c.a if c.k == "and" else (c,))
    for l in lits:
        if l.k == "eq" and kv in l.fv:
            p = l.a[0]
            a = None
            ok = True
            for m, co in p.t:
                if any(kv in y.fv for y, e in m):
                    if m == ((kv, 1),):
                        a = co
                    else:
                        ok = False
            if ok and a:
                rest = p - lift(kv) * a
                if not (rest.fv & frozenset(bs)):
                    continue
                sol = -rest / a
                if sol.isint:
                    return sol, T
                num = -rest * (1 if a > 0 else -1)
                den = abs(a)
                # integral coefficients
                L = den.denominator
                for m, co in num.t:
                    L = L * co.denominator // TM.math.gcd(L, co.denominator)
                num, den = num * L, den * L
                c0 = -dict(num.t).get((), 0)
                e0 = num + c0
                if den > 1 and c0 >= 0 and TM._sgn_easy(e0) in ("pos", "nonneg"):
                    # e0 = den*k + c0 with 0 <= e0: k = e0 div den - c0 div den when the residues agree
                    q0 = tdiv(e0, lift(den))
                    return q0 - c0 // den, eq(e0 - q0 * den, c0 % den)
                q = tdiv(num, lift(den))
                return q, eq(num - q * den, 0)
    # window: 0 <= b - a k - c < w <= a
    los, his = [], []
    for l in lits:
        neg = l.k == "not"
        b = l.a[0] if neg else l
        if b.k == "ge" and kv in b.fv:
            p = -b.a[0] - 1 if neg else b.a[0]      # p >= 0
            co = dict(p.t).get(((kv, 1),))
            if co is None or any(kv in y.fv for m, c in p.t for y, e in m if m != ((kv, 1),)):
                continue
            (los if co < 0 else his).append((p, co))
    for p, a in los:
        for q, b in his:
            if a == -b and b > 1:
                w = (p + q)            # = window width - 1
                wc = w.const()
                if wc is not None and wc + 1 <= b:
                    rest = p + lift(kv) * b
                    return tdiv(rest, lift(b)), T
    return None


def st_close(p, st, x, kv, facts):
    k = lift(kv)
    r = p.init
    conds = []
    for cond, val in st:
        c = band(*cond)
        # self references only at the stored element
        if mentions(c, p.ph):
            return None
        if mentions(val, p.ph):
            v2 = subst(val, {p.ph: lambda path, idx: x if all(same(i, lift(b)) for i, b in zip(idx, p.bs)) else A("uf", ("self!",), "r")})
            if has_self(v2):
                # under the condition, index expressions may equal the binder: substitute binder by its solution
                return None
            val = v2
        sk = solve_k(cond, p.bs, kv)
        if sk is None:
            return None
        ks, extra = sk
        conds.append((c, val, ks, extra))
    if len(conds) > 8:
        return None
    # several stores must not hit the same element in different iterations (unless same k)
    if len(conds) > 1:
        k0 = conds[0][2]
        if any(not same(k0, y[2]) for y in conds[1:]):
            # several iterations may store the element: the last one wins
            if len(conds) > 3 or any(mentions(y[1], p.ph) for y in conds):
                return None
            last = lift(-1)
            for c, val, ks, extra in conds:
                hit = simp(band(extra, ge(ks), lt(ks, k), subst(c, {kv: ks})), ())
                take = band(hit, ge(ks - last))
                r = ite(take, subst(val, {kv: ks}), r)
                last = ite(take, ks, last)
            return r
    for c, val, ks, extra in reversed(conds):
        hit = band(extra, ge(ks), lt(ks, k), subst(c, {kv: ks}))
        hit = simp(hit, ())
        v = subst(val, {kv: ks})
        if mentions(v, p.ph):
            v = subst(v, {p.ph: lambda path, idx: p.init})
        r = ite(hit, v, r)
    return r


def has_self(t):
    seen = set()

    def go(x):
        if isinstance(x, (P,)):
            return any(go(a) for a in x.atoms())
        if isinstance(x, Atom):
            if x in seen:
                return False
            seen.add(x)
            if x.k == "uf" and x.a and x.a[0] == "self!":
                return True
            return go(x.a)
        if isinstance(x, B):
            return any(go(y) for y in x.a)
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return False
    return go(t)


def trip(stay, kv, facts):
    """number of iterations: least k with not stay(k)"""
    if stay is F:
        return ZERO
    if stay is T:
        return unknown("infinite", "i")
    lits = stay.a if stay.k == "and" else (stay,)
    N = None
    ok = True
    for l in lits:
        n = trip1(l, kv, facts)
        if n is None:
            ok = False
            break
        N = n if N is None else simp(pmin(N, n), facts)
    if ok and N is not None:
        return N
    return firstk(kv, bnot(stay))


def trip1(l, kv, facts):
    neg = l.k == "not"
    b = l.a[0] if neg else l
    if b.k in ("ge", "gt") and kv in b.fv:
        p = b.a[0]
        strict = b.k == "gt"
        if neg:
            p = -p
            if b.k == "ge":
                if p.isint:
                    p = p - 1
                else:
                    strict = True
            else:
                strict = False
        # p >= 0 (or > 0) with p = r - a k
        a = None
        for m, co in p.t:
            if any(kv in y.fv for y, e in m):
                if m == ((kv, 1),):
                    a = co
                else:
                    return None
        if a is None or a >= 0:
            return None
        r = p - lift(kv) * a
        if strict or not p.isint:
            return None
        a = -a
        if a == 1:
            n = r + 1
        else:
            n = tdiv(r + a, lift(a))
            return simp(ite(ge(r), n, ZERO), facts)
        return simp(pmax(n, ZERO), facts)
    if b.k == "eq" and neg and kv in b.fv:
        # loop while e(k) != 0, e affine with unit coefficient, reached from the right side
        p = b.a[0]
        a = None
        for m, co in p.t:
            if any(kv in y.fv for y, e in m):
                if m == ((kv, 1),):
                    a = co
                else:
                    return None
        if a is None or abs(a) != 1:
            return None
        n = -(p - lift(kv) * a) / a
        if n.isint and decide(ge(n), facts) is True:
            return n
        return None
    if b.k == "eq" and not neg:
        return None
    if kv not in l.fv:
        # constant condition: 0 iterations or unbounded by it
        d = decide(l, facts)
        if d is False:
            return ZERO
        return None
    return None
