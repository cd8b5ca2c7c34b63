"""Deciding sign conditions from a conjunction of facts: Fourier-Motzkin elimination over the
monomials (linear arithmetic; products are opaque columns)."""
from fractions import Fraction
from terms import *
import terms as TM

LIMIT = 160


def lits(b, out, pos=True):
    k = b.k
    if k == "not":
        return lits(b.a[0], out, not pos)
    if (k == "and" and pos) or (k == "or" and not pos):
        for y in b.a:
            lits(y, out, pos)
        return
    out.append((b, pos))


def constraints(b, pos):
    """list of (poly, strict) meaning poly >= 0 / > 0 ; [] if not linear"""
    k = b.k
    if k == "ge":
        p = b.a[0]
        if pos:
            return [(p, False)]
        return [(-p - 1, False)] if p.isint else [(-p, True)]
    if k == "gt":
        p = b.a[0]
        return [(p, True)] if pos else [(-p, False)]
    if k == "eq" and pos:
        p = b.a[0]
        return [(p, False), (-p, False)]
    return []


_nest = [0]


def implicit(a, seen, facts=()):
    """facts about an atom"""
    out = []
    if a.sort == "i" and nonneg_atom(a):
        out.append((lift(a), False))
    if a.k == "tdiv":
        x, c = a.a
        cc = c.const()
        s = TM._sgn_easy(x)
        if s not in ("pos", "nonneg") and x not in seen and facts and _nest[0] < 2:
            _nest[0] += 1
            try:
                if decide(ge(x), facts) is True:
                    s = "nonneg"
            finally:
                _nest[0] -= 1
        if cc is not None and cc > 0 and (s in ("pos", "nonneg") or x in seen):
            q = lift(a)
            out.append((x - c * q, False))
            out.append((c * q + (cc - 1) - x, False))
            out.append((q, False))
        elif cc is not None and cc > 0:
            q = lift(a)
            out.append((x - c * q + (cc - 1), False))
            out.append((c * q + (cc - 1) - x, False))
        elif cc is None and s in ("pos", "nonneg") and len(c.t) == 1:
            q = lift(a)
            out.append((x - c * q, False))
            out.append((c * q + c - 1 - x, False))
            out.append((q, False))
    if a.k == "npow2":
        out.append((lift(a) - a.a[0], False))
        out.append((lift(a) - 1, False))
    if a.k == "uf" and a.a[0] in ("sqrt", "cosh", "exp"):
        out.append((lift(a), a.a[0] != "sqrt"))
    if a.k in ("fidx", "amin"):
        out.append((lift(a), False))
    if a.k == "uf" and a.a[0] == "scratchlen":
        out.append((lift(a), False))
    if a.k == "uf" and a.a[0] == "fmod" and posmono(a.a[2]):
        # the remainder lies strictly between -m and m
        out.append((a.a[2] - lift(a), True))
        out.append((a.a[2] + lift(a), True))
    if a.k == "uf" and a.a[0] in POSUF:
        out.append((lift(a), True))
    return out


POSUF = {"pi", "eps"}


def posmono(p):
    return len(p.t) == 1 and p.t[0][1] > 0 and all(x.k == "uf" and x.a[0] in POSUF for x in p.atoms())


def infeasible(cs):
    """cs: list of (dict mono->coef, strict)"""
    cs = [(dict(p.t) if isinstance(p, P) else p, s) for p, s in cs]
    while True:
        # trivial check
        vs = {}
        nxt = []
        for d, s in cs:
            ks = [m for m in d if m != ()]
            if not ks:
                c = d.get((), 0)
                if c < 0 or (c == 0 and s):
                    return True
                continue
            nxt.append((d, s))
            for m in ks:
                e = vs.setdefault(m, [0, 0])
                if d[m] > 0:
                    e[0] += 1
                else:
                    e[1] += 1
        cs = nxt
        if not cs:
            return False
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1])
        if vs[m][0] * vs[m][1] > LIMIT:
            return False
        pos = [(d, s) for d, s in cs if d.get(m, 0) > 0]
        neg = [(d, s) for d, s in cs if d.get(m, 0) < 0]
        rest = [(d, s) for d, s in cs if d.get(m, 0) == 0]
        seen = set()
        for d1, s1 in pos:
            for d2, s2 in neg:
                c1, c2 = d1[m], -d2[m]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * c2
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * c1
                d = {k: v for k, v in d.items() if v != 0 and k != m}
                st = s1 or s2
                # normalise
                mx = None
                for k in sorted((k for k in d if k != ()), key=TM.mkey):
                    mx = abs(d[k])
                    break
                if mx:
                    d = {k: v / mx for k, v in d.items()}
                key = (frozenset(d.items()), st)
                if key in seen:
                    continue
                seen.add(key)
                rest.append((d, st))
        if len(rest) > LIMIT:
            return False
        cs = rest


def monos(p):
    return [m for m, c in p.t if m != ()]


def mono_facts(m, facts=()):
    """nonneg facts of a product monomial"""
    ok = True
    if len(m) == 1 and m[0][1] == 1:
        return []
    for a, e in m:
        if e % 2 == 0:
            continue
        if (a.sort == "i" and nonneg_atom(a)) or (a.k == "uf" and a.a[0] in ("sqrt", "cosh", "exp", "pi", "eps")):
            continue
        if a.sort == "i" and facts and _nest[0] < 1:
            _nest[0] += 1
            try:
                if decide(ge(lift(a)), facts) is True:
                    continue
                if a.k == "tdiv" and decide(ge(a.a[0]), facts) is True and decide(ge(a.a[1]), facts) is True:
                    continue
            finally:
                _nest[0] -= 1
        ok = False
        break
    if ok and (len(m) > 1 or m[0][1] != 1):
        return [(P.mk({m: Fraction(1)}), False)]
    return []


def gather(goals, facts):
    """relevant constraint closure"""
    allc = []
    for f in facts:
        ls = []
        lits(f, ls)
        for b, pos in ls:
            for c in constraints(b, pos):
                allc.append(c)
    seenp = set(p for p, s in allc if not s)
    cs = list(goals)
    front = set()
    for p, s in goals:
        front.update(monos(p))
    done = set()
    used = set()
    doneatoms = set()
    while front:
        ms = front
        front = set()
        done |= ms
        for m in list(ms):
            for c in mono_facts(m, facts):
                cs.append(c)
            for a, e in m:
                if a in doneatoms:
                    continue
                doneatoms.add(a)
                for c in implicit(a, seenp, facts):
                    cs.append(c)
                    front.update(x for x in monos(c[0]) if x not in done)
        for i, (p, s) in enumerate(allc):
            if i in used:
                continue
            if any(x in ms for x in monos(p)):
                used.add(i)
                cs.append((p, s))
                front.update(x for x in monos(p) if x not in done)
        if len(cs) > 60:
            break
    return cs


_tc = {}


def tighten(facts):
    """integer disequalities at the end of an interval move the end: lo <= n, n != lo  ==>  lo+1 <= n"""
    if not any(f.k == "not" and f.a[0].k == "eq" for f in facts):
        return facts
    r = _tc.get(facts)
    if r is not None:
        return r
    lo, hi, ex, base = {}, {}, {}, {}

    def norm(p):
        c0 = Fraction(0)
        rest = []
        for m, c in p.t:
            if m == ():
                c0 = c
            else:
                rest.append((m, c))
        if not rest:
            return None
        rest.sort(key=lambda x: TM.mkey(x[0]))
        s = rest[0][1]
        if abs(s) != 1 or any(c.denominator != 1 for m, c in rest):
            return None
        key = tuple((m, c * s) for m, c in rest)
        base.setdefault(key, (p - c0) * s)
        return key, s, c0
    for f in facts:
        ls = []
        lits(f, ls)
        for b, pos in ls:
            if b.k == "eq" and not pos and b.a[0].isint:
                z = norm(b.a[0])
                if z:
                    ex.setdefault(z[0], set()).add(-z[2] * z[1])
            else:
                for p, st in constraints(b, pos):
                    if not p.isint:
                        continue
                    z = norm(p)
                    if not z:
                        continue
                    key, s, c0 = z
                    if s == 1:
                        v = -c0 + (1 if st else 0)
                        lo[key] = max(lo.get(key, v), v)
                    else:
                        v = c0 - (1 if st else 0)
                        hi[key] = min(hi.get(key, v), v)
    out = []
    for key, es in ex.items():
        q = base[key]
        if key not in lo and len(q.t) == 1 and len(q.atoms()) == 1 and q.t[0][1] == 1 and TM._sgn_easy(q) in ("pos", "nonneg"):
            lo[key] = Fraction(0)
        if key in lo:
            v = lo[key]
            while v in es:
                v += 1
            if v != lo[key]:
                out.append(B("ge", (q - v,)) if False else ge(q - v))
                lo[key] = v
        if key in hi:
            v = hi[key]
            while v in es:
                v -= 1
            if v != hi[key]:
                out.append(ge(v - q))
    r = facts + tuple(x for x in out if x is not T)
    _tc[facts] = r
    return r


_dc = {}


def decide(b, facts):
    """True / False / None"""
    if b is T:
        return True
    if b is F:
        return False
    k = b.k
    if k == "not":
        r = decide(b.a[0], facts)
        return None if r is None else not r
    if k == "and":
        rs = [decide(x, facts) for x in b.a]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if k == "or":
        rs = [decide(x, facts) for x in b.a]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    facts = facts if isinstance(facts, tuple) else tuple(facts)
    key = (b, facts)
    if key in _dc:
        return _dc[key]
    facts = tighten(facts)
    r = _decide(b, facts)
    if r is None and k in ("ge", "gt", "eq"):
        # use a disjunctive fact by cases (one level)
        for f in facts:
            if f.k == "or" and len(f.a) <= 3 and f.fv & b.fv:
                rest = tuple(x for x in facts if x is not f)
                rs = []
                for d in f.a:
                    dd = tuple(rest) + ((d,) if d.k != "and" else d.a)
                    if inconsistent(dd):
                        continue
                    rs.append(_decide(b, dd))
                    if rs[-1] is None:
                        break
                if rs and all(x is True for x in rs):
                    r = True
                elif rs and all(x is False for x in rs):
                    r = False
                if r is not None:
                    break
    _dc[key] = r
    return r


def inconsistent(facts):
    facts = tighten(tuple(facts))
    goals = []
    for f in facts:
        ls = []
        lits(f, ls)
        for b, pos in ls:
            goals += constraints(b, pos)
    if not goals:
        return False
    return infeasible(gather(goals[-4:], facts))


def _decide(b, facts):
    k = b.k
    for f in facts:
        if f is b:
            return True
        if f.k == "not" and f.a[0] is b:
            return False
        if f.k == "and":
            if b in f.a:
                return True
            if bnot(b) in f.a:
                return False
    bf = None
    if k in ("all", "buf", "bvar", "eq") or b.bh:
        bf = fp(b)
        for f in facts:
            if f.k == k and fp(f) == bf:
                return True
            if f.k == "not" and f.a[0].k == k and fp(f.a[0]) == bf:
                return False
    if k not in ("ge", "gt", "eq"):
        return None
    p = b.a[0]
    # ite inside: split
    ites = [a for a in p.atoms() if a.k == "ite"]
    if ites and len(ites) <= 3:
        a = ites[0]
        mkb = {"ge": ge, "gt": gt, "eq": eq0}[k]
        r1 = decide(a.a[0], facts)
        if r1 is not None:
            return decide(mkb(TM.replace_atoms(p, {a: a.a[1] if r1 else a.a[2]})), facts)
        x = decide(mkb(TM.replace_atoms(p, {a: a.a[1]})), facts + (a.a[0],))
        if x is None:
            return None
        y = decide(mkb(TM.replace_atoms(p, {a: a.a[2]})), facts + (bnot(a.a[0]),))
        return x if x == y else None
    if k == "eq":
        # false if either strict side impossible
        neg1 = [(p, False)] if p.isint else [(p, False)]
        cs = gather([(p, False), (-p, False)], facts)
        if infeasible(cs):
            return False
        up = [(p - 1, False)] if p.isint else [(p, True)]
        dn = [(-p - 1, False)] if p.isint else [(-p, True)]
        if infeasible(gather(up, facts)) and infeasible(gather(dn, facts)):
            return True
        for f in facts:
            pass
        return None
    pos = constraints(b, True)
    neg = constraints(b, False)
    if infeasible(gather(neg, facts)):
        return True
    if infeasible(gather(pos, facts)):
        return False
    # integer disequalities:  p >= 0 and p != 0 -> p >= 1
    if p.isint:
        diseq = [f.a[0].a[0] for f in facts if f.k == "not" and f.a[0].k == "eq" and f.a[0].a[0].isint]
        for q in diseq[:4]:
            # q > 0 or q < 0
            a1 = decide2(b, facts, q)
            if a1 is not None:
                return a1
    return None


def decide2(b, facts, q):
    rest = tuple(f for f in facts if not (f.k == "not" and f.a[0].k == "eq" and f.a[0].a[0] is q))
    rs = []
    for extra in (ge(q - 1), ge(-q - 1)):
        if extra is F:
            continue
        d = _decide0(extra, rest)
        if d is False:
            continue
        rs.append(_decide0(b, rest + (extra,)))
    if rs and all(x is True for x in rs):
        return True
    if rs and all(x is False for x in rs):
        return False
    return None


def _decide0(b, facts):
    k = b.k
    if k == "not":
        r = _decide0(b.a[0], facts)
        return None if r is None else not r
    if k not in ("ge", "gt"):
        return None if b not in (T, F) else b is T
    pos = constraints(b, True)
    neg = constraints(b, False)
    if infeasible(gather(neg, facts)):
        return True
    if infeasible(gather(pos, facts)):
        return False
    return None


# ---------------------------------------------------------------- simplification under facts
_sc = {}


def simp(x, facts):
    """resolve ite atoms whose condition the facts decide"""
    facts = facts if isinstance(facts, tuple) else tuple(facts)
    if isinstance(x, B):
        return simpb(x, facts)
    if not has_ite(x):
        return x
    key = (x, facts)
    r = _sc.get(key)
    if r is not None:
        return r
    mp = {}
    for a in x.atoms():
        if a.k == "ite":
            c, u, v = a.a
            d = decide(c, facts)
            if d is True:
                mp[a] = simp(u, facts)
            elif d is False:
                mp[a] = simp(v, facts)
            else:
                u2 = simp(u, facts + (c,))
                v2 = simp(v, facts + (bnot(c),))
                if u2 is not u or v2 is not v:
                    mp[a] = ite(c, u2, v2)
        elif a.k in ("sel", "uf", "tdiv", "inv", "let", "pow", "loop", "fidx", "npow2") and has_ite_atom(a):
            na = simp_atom(a, facts)
            if na is not None:
                mp[a] = na
    r = TM.replace_atoms(x, mp) if mp else x
    if mp and r is not x and has_ite(r):
        r = simp(r, facts)
    _sc[key] = r
    return r


def divide(x, c, facts):
    """x div c under facts"""
    if c.const() is None and decide(ge(x), facts) is True and decide(ge(c - x - 1), facts) is True:
        return lift(0)
    if len(c.t) == 1 and c.t[0][1] == 1 and len(c.t[0][0]) == 1:
        # (w*c + r) div c = w for w >= 0 and 0 <= r < c
        w, r = [], []
        for m, q in x.t:
            (w if any(v is c.t[0][0][0][0] and e >= 1 for v, e in m) else r).append((m, q))
        if w and r:
            w, r = P.mk(dict(w)) / c, P.mk(dict(r))
            if decide(ge(r), facts) is True and decide(ge(c - r - 1), facts) is True and decide(ge(w), facts) is True:
                return w
    return tdiv(x, c)


def simp_atom(a, facts):
    if a.k == "sel":
        ix = tuple(simp(i, facts) for i in a.a[2])
        return sel(a.a[0], a.a[1], ix)
    if a.k == "inv":
        return simp(a.a[0], facts).inv()
    if a.k == "let":
        return let(simp(a.a[0], facts))
    if a.k == "tdiv":
        x, c = simp(a.a[0], facts), simp(a.a[1], facts)
        return divide(x, c, facts)
    if a.k == "pow":
        return powk(simp(a.a[0], facts), simp(a.a[1], facts))
    if a.k == "npow2":
        return npow2(simp(a.a[0], facts))
    if a.k == "loop":
        return TM.mk_loop(a.a[0], a.a[1], simp(a.a[2], facts), tuple(simp(i, facts) for i in a.a[3]))
    if a.k == "uf":
        args = tuple(simp(y, facts) if isinstance(y, (P, B)) else y for y in a.a[1:])
        if a.a[0] == "sqrt":
            return sqrt(args[0])
        return ufn((a.a[0],) + args, a.sort)
    if a.k == "fidx":
        return A("fidx", tuple(simp(y, facts) if isinstance(y, (P, B)) else y for y in a.a), a.sort)
    return None


def simpb(b, facts):
    d = decide(b, facts)
    if d is not None:
        return T if d else F
    if b.k == "not":
        return bnot(simpb(b.a[0], facts))
    if b.k == "and":
        return band(*[simpb(x, facts) for x in b.a])
    if b.k == "or":
        return bor(*[simpb(x, facts) for x in b.a])
    if b.k in ("ge", "gt", "eq") and has_ite(b.a[0]):
        return {"ge": ge, "gt": gt, "eq": eq0}[b.k](simp(b.a[0], facts))
    return b


_hi = {}


def has_ite(x):
    if isinstance(x, P):
        r = _hi.get(x)
        if r is None:
            r = _hi[x] = any(has_ite_atom(a) for a in x.atoms())
        return r
    if isinstance(x, tuple):
        return any(has_ite(y) for y in x)
    if isinstance(x, B):
        return any(has_ite(y) for y in x.a)
    return False


def has_ite_atom(a):
    r = _hi.get(a)
    if r is None:
        if a.k == "ite" or (a.k == "tdiv" and a.a[1].const() is None):
            r = True
        elif a.k in ("sum", "prod", "firstk"):
            r = False
        else:
            r = has_ite(a.a)
        _hi[a] = r
    return r


_hd = {}


def has_div(x):
    """a division by a non-constant occurs"""
    if isinstance(x, tuple):
        return any(has_div(y) for y in x)
    if not isinstance(x, (P, B, TM.Atom)):
        return False
    r = _hd.get(x)
    if r is None:
        if isinstance(x, P):
            r = any(has_div(a) for a in x.atoms())
        elif isinstance(x, B):
            r = has_div(x.a)
        else:
            r = (x.k == "tdiv" and x.a[1].const() is None) or (x.k not in ("sum", "prod", "firstk") and has_div(x.a))
        _hd[x] = r
    return r


def divs(x, out):
    if isinstance(x, tuple):
        for y in x:
            divs(y, out)
    elif isinstance(x, (P, B)) and has_div(x):
        for y in (x.atoms() if isinstance(x, P) else x.a):
            if isinstance(y, TM.Atom):
                if has_div(y):
                    if y.k == "tdiv" and y.a[1].const() is None:
                        out.add(y)
                    divs(y.a, out)
            else:
                divs(y, out)
    return out
