"""Comparison of value graphs: the code's graph against the specification's graph, under facts.

PROVED    the normal forms coincide in every case of the (finite) case split on gating conditions
REFUTED   the normal forms differ and a random interpretation of the two graphs satisfying the facts
          tells them apart (so the difference is not an artefact of normalisation)
UNDECIDED otherwise"""
import os
import itertools, math, random, time
from terms import *
import terms as TM
from facts import decide, simp, inconsistent, has_ite
import facts as FX
from values import *
from evalt import Ev, EvalError


# ---------------------------------------------------------------- deep normalisation
_needs = {}

SHOW = int(os.environ.get('VG_SHOW', '300'))


def needs(x):
    """does x contain something a fact could simplify (an ite, anywhere)?"""
    if isinstance(x, (P, B, Atom, Lam, Group)):
        r = _needs.get(x)
        if r is not None:
            return r
        if isinstance(x, P):
            r = any(needs(a) for a in x.atoms())
        elif isinstance(x, Atom):
            r = x.k == "ite" or (x.k == "tdiv" and x.a[1].const() is None) or needs(x.a)
        elif isinstance(x, B):
            r = x.k not in ("T", "F")
        elif isinstance(x, Lam):
            r = needs(x.n) or needs(x.body)
        else:
            r = any(needs(c[2]) or needs(c[3]) for c in x.comps)
        _needs[x] = r
        return r
    if isinstance(x, tuple):
        return any(needs(y) for y in x)
    return False


_nc = {}


def norm(x, facts):
    if not needs(x):
        return x
    key = (x, facts)
    r = _nc.get(key)
    if r is None:
        r = _nc[key] = _norm(x, facts)
    return r


def inrange(v, n):
    return (ge(lift(v)), lt(lift(v), n))


def _norm(x, facts):
    if isinstance(x, P):
        mp = {}
        for a in x.atoms():
            if needs(a):
                na = norm_atom(a, facts)
                if not (len(na.t) == 1 and na.single() is a):
                    mp[a] = na
        if not mp:
            return x
        return TM.replace_atoms(x, mp)
    if isinstance(x, B):
        d = decide(x, facts)
        if d is not None:
            return T if d else F
        k = x.k
        if k == "not":
            return bnot(norm(x.a[0], facts))
        if k == "and":
            return band(*[norm(y, facts) for y in x.a])
        if k == "or":
            return bor(*[norm(y, facts) for y in x.a])
        if k in ("ge", "gt", "eq"):
            p = norm(x.a[0], facts)
            if p is x.a[0]:
                return x
            return norm({"ge": ge, "gt": gt, "eq": eq0}[k](p), facts)
        if k == "all":
            n = norm(x.a[0], facts)
            body = norm(x.a[2], facts + inrange(x.a[1], n))
            if decide(ge(n - 1), facts) is True and norm(subst(body, {x.a[1]: ZERO}), facts) is F:
                return F
            return forall(n, x.a[1], body)
        return B.mk(k, tuple(norm(y, facts) if isinstance(y, (P, B, tuple, Lam)) else y for y in x.a))
    if isinstance(x, tuple):
        return tuple(norm(y, facts) if isinstance(y, (P, B, tuple, Lam, Group)) else y for y in x)
    if isinstance(x, Lam):
        n = norm(x.n, facts)
        return Lam(n, x.var, tuple(norm(y, facts + inrange(x.var, n)) for y in x.body))
    if isinstance(x, Group):
        return TM.mk_group(x.kvar, [(ph, iv, norm(i, facts), norm(s, facts + (ge(lift(x.kvar)),))) for ph, iv, i, s in x.comps])
    return x


def norm_atom(a, facts):
    k = a.k
    if k == "ite":
        c = norm(a.a[0], facts)
        if c is T:
            return norm(a.a[1], facts)
        if c is F:
            return norm(a.a[2], facts)
        cs = c.a if c.k == "and" else (c,)
        nc = bnot(c)
        ncs = nc.a if nc.k == "and" else (nc,)
        return ite(c, norm(a.a[1], facts + tuple(cs)), norm(a.a[2], facts + tuple(ncs)))
    if k in ("sum", "prod"):
        n = norm(a.a[0], facts)
        body = norm(a.a[2], facts + inrange(a.a[1], n))
        return split_sum(k, n, a.a[1], body, facts)
    if k == "firstk":
        c = norm(a.a[2], facts + (ge(lift(a.a[1])),))
        return TM.firstk_at(a.a[1], c, lambda q: norm(q, facts))
    if k == "inv":
        return norm(a.a[0], facts).inv()
    if k == "let":
        return let(norm(a.a[0], facts))
    if k == "tdiv":
        x, c = norm(a.a[0], facts), norm(a.a[1], facts)
        return FX.divide(x, c, facts)
    if k == "pow":
        return powk(norm(a.a[0], facts), norm(a.a[1], facts))
    if k == "npow2":
        return npow2(norm(a.a[0], facts))
    if k == "sel":
        return sel(a.a[0], a.a[1], tuple(norm(i, facts) for i in a.a[2]))
    if k == "loop":
        return TM.mk_loop(norm(a.a[0], facts), a.a[1], norm(a.a[2], facts), tuple(norm(i, facts) for i in a.a[3]))
    if k == "uf" and a.a[0] == "sqrt":
        return sqrt(norm(a.a[1], facts))
    if k == "uf":
        return ufn(tuple(norm(y, facts) if isinstance(y, (P, B, tuple, Lam, Group)) else y for y in a.a), a.sort)
    return A(k, tuple(norm(y, facts) if isinstance(y, (P, B, tuple, Lam, Group)) else y for y in a.a), a.sort)


def split_sum(k, n, var, body, facts):
    """sum over a range of a body with a threshold ite in the bound variable: split the range"""
    mk = mk_sum if k == "sum" else mk_prod
    if k == "sum":
        for at in body.atoms():
            if at.k == "ite" and var in at.a[0].fv:
                c = at.a[0]
                thr = threshold(c, var)
                if thr is None:
                    continue
                t, above = thr       # c <=> var >= t   (above) or var < t
                t = norm(t, facts)
                lo = ite(le(t, 0), ZERO, ite(ge(t - n), n, t))
                lo = norm(lo, facts)
                hi_body = TM.replace_atoms(body, {at: at.a[1] if above else at.a[2]})
                lo_body = TM.replace_atoms(body, {at: at.a[2] if above else at.a[1]})
                j = fresh("#j")
                r1 = mk_sum(lo, var, lo_body)
                r2 = mk_sum(n - lo, j, subst(hi_body, {var: lift(j) + lo}))
                return norm(r1, facts) + norm(r2, facts)
    return mk(n, var, body)


def threshold(c, var):
    """c <=> var >= t (True) / var < t (False), t free of var, integers"""
    neg = c.k == "not"
    b = c.a[0] if neg else c
    if b.k != "ge" or not b.a[0].isint:
        return None
    p = b.a[0]
    co = None
    for m, x in p.t:
        if any(var in y.fv for y, e in m):
            if m == ((var, 1),):
                co = x
            else:
                return None
    if co not in (1, -1):
        return None
    rest = p - lift(var) * co
    if co == 1:          # var + rest >= 0  <=> var >= -rest
        return (-rest, not neg)
    return (rest + 1, neg)     # rest - var >= 0 <=> var < rest+1


# ---------------------------------------------------------------- obligations
class Ob:
    __slots__ = ("where", "facts", "a", "b", "verdict", "detail", "hints")

    def __init__(self, where, facts, a, b, hints=()):
        self.where, self.facts, self.a, self.b, self.hints = where, tuple(facts), a, b, hints
        self.verdict, self.detail = None, None


class Shape(Exception):
    pass


def expand(where, facts, code, spec, out, hints=()):
    """code and spec values -> scalar obligations; raises Shape when they cannot be compared"""
    if isinstance(code, Val) and code.kind == "cond":
        c = code.kids[0]
        expand(where, facts + (c,), code.kids[1], spec, out, hints)
        expand(where, facts + (bnot(c),), code.kids[2], spec, out, hints)
        return
    if isinstance(spec, Val) and spec.kind == "cond":
        c = spec.kids[0]
        expand(where, facts + (c,), code, spec.kids[1], out, hints)
        expand(where, facts + (bnot(c),), code, spec.kids[2], out, hints)
        return
    if isinstance(spec, (P, B)):
        if isinstance(code, Val):
            if code.kind == "unk":
                raise Shape("%s: value not tracked" % where)
            if code.kind == "bot":
                out.append(Ob(where, facts, F, T, hints) if False else Ob(where, facts, unknown("bot"), spec, hints))
                return
            raise Shape("%s: %s instead of a scalar" % (where, code.kind))
        if isinstance(code, B) != isinstance(spec, B):
            code = b2i(code) if isinstance(code, B) else code
            spec = b2i(spec) if isinstance(spec, B) else spec
        out.append(Ob(where, facts, code, spec, hints))
        return
    if isinstance(code, (P, B)):
        raise Shape("%s: scalar instead of %s" % (where, spec.kind))
    if code.kind == "unk":
        raise Shape("%s: value not tracked" % where)
    if spec.kind == "any":
        return
    if spec.kind in ("seq", "arr"):
        if code.kind not in ("seq", "arr", "iseq"):
            raise Shape("%s: %s instead of a sequence" % (where, code.kind))
        if code.kind == "iseq":
            code = Seq(code.kids[0] - code.kids[1], code.bv[0], subst_val(code.kids[3], {code.bv[0]: lift(code.bv[0]) + code.kids[1]}))
        ln, ls = seqlen(code), seqlen(spec)
        out.append(Ob(where + ".len", facts, ln, ls, hints))
        if spec.kind == "arr" and len(spec.kids) <= 16 and (code.kind == "arr" or code.kind == "seq"):
            for i, y in enumerate(spec.kids):
                if code.kind == "arr" and i >= len(code.kids):
                    break
                expand("%s[%d]" % (where, i), facts + (gt(ln - i),), seqget(code, i), y, out, hints)
            return
        e = fresh("#e")
        f2 = facts + (ge(lift(e)), lt(lift(e), ls), lt(lift(e), ln))
        expand(where + "[*]", f2, seqget(code, lift(e)), seqget(spec, lift(e)), out, hints)
        return
    if spec.kind == "mat":
        if code.kind != "mat":
            raise Shape("%s: %s instead of a matrix" % (where, code.kind))
        out.append(Ob(where + ".rows", facts, code.kids[0], spec.kids[0], hints))
        out.append(Ob(where + ".cols", facts, code.kids[1], spec.kids[1], hints))
        i, j = fresh("#i"), fresh("#j")
        f2 = facts + (lt(lift(i), spec.kids[0]), lt(lift(j), spec.kids[1]), lt(lift(i), code.kids[0]), lt(lift(j), code.kids[1]))
        expand(where + "[*,*]", f2, mget(code, lift(i), lift(j)), mget(spec, lift(i), lift(j)), out, hints)
        return
    if spec.kind == "enum":
        if code.kind != "enum":
            raise Shape("%s: %s instead of an enum" % (where, code.kind))
        out.append(Ob(where + ".variant", facts, code.kids[0], spec.kids[0], hints))
        for i, v in enumerate(spec.key[1]):
            p = pay(code, v)
            c = eq(spec.kids[0], v)
            if c is F:
                continue
            f2 = facts + (c, eq(code.kids[0], v))
            if p is None:
                if not inconsistent(f2):
                    raise Shape("%s: variant %s without payload" % (where, v))
                continue
            for q, (x, y) in enumerate(zip(p.kids, spec.kids[1 + i].kids)):
                expand("%s.%s" % (where, v), f2, x, y, out, hints)
        return
    if spec.kind == "rec":
        if code.kind != "rec" or len(code.kids) < len(spec.kids):
            raise Shape("%s: %s instead of %s" % (where, code.kind, spec.key))
        for i, (x, y) in enumerate(zip(code.kids, spec.kids)):
            expand("%s.%d" % (where, i), facts, x, y, out, hints)
        return
    raise Shape("%s: cannot compare %s" % (where, spec.kind))


Any = Val("any", None, ())


# ---------------------------------------------------------------- equality
def conds(x, bound, out, seen):
    if isinstance(x, P):
        for a in x.atoms():
            conds(a, bound, out, seen)
    elif isinstance(x, Atom):
        if x in seen or not needs(x):
            return
        seen.add(x)
        if x.k == "ite" and not (x.a[0].fv & bound):
            lits_of(x.a[0], out)
        if x.k in ("sum", "prod", "firstk"):
            conds(x.a[0], bound, out, seen)
            conds(x.a[2], bound | {x.a[1]}, out, seen)
        elif x.k in ("sortidx", "amin"):
            conds((x.a[0], x.a[2]), bound, out, seen)       # not the comparator: its variables are bound
        else:
            conds(x.a, bound, out, seen)
    elif isinstance(x, B):
        if x in seen:
            return
        seen.add(x)
        if x.k == "all":
            conds(x.a[0], bound, out, seen)
            conds(x.a[2], bound | {x.a[1]}, out, seen)
        else:
            conds(x.a, bound, out, seen)
            if x.k in ("ge", "gt", "eq", "buf") and not (x.fv & bound):
                out.append(x)
    elif isinstance(x, Lam):
        conds(x.n, bound, out, seen)
        conds(x.body, bound | {x.var}, out, seen)
    elif isinstance(x, Group):
        for ph, iv, i, s in x.comps:
            conds(i, bound | set(iv), out, seen)
            conds(s, bound | set(iv) | {x.kvar, ph} | {c[0] for c in x.comps}, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            conds(y, bound, out, seen)


def lits_of(b, out):
    if b.k in ("and", "or", "not"):
        for y in b.a:
            lits_of(y, out)
    else:
        out.append(b)


class Budget(Exception):
    pass


def size(x):
    if isinstance(x, B):
        return sum(size(y) for y in x.a if isinstance(y, (P, B))) + 1 + 20 * x.bh
    return len(x.t) + sum(3 for a in x.atoms() if a.k not in ("var", "sel")) + 20 * x.bh


def eq_subst(facts):
    """first usable equality fact v = s"""
    for i, f in enumerate(facts):
        for v, s in TM.eqsols(f):
            return i, v, s
    return None


def realsols(c):
    """v = s for a real variable v, from an equation linear in it"""
    if c.k != "eq" or len(c.a[0].t) > 4:
        return []
    p = c.a[0]
    for m, co in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "var" and m[0][0].sort == "r":
            s = lift(m[0][0]) - p / co
            if m[0][0] not in s.fv:
                return [(m[0][0], s)]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "sel" and isinstance(m[0][0].a[0], TM.AV):
            x = m[0][0]
            s = lift(x) - p / co
            if x.a[0] not in s.fv:
                return [(x.a[0], lambda path, idx: s if path == x.a[1] and all(i is j or same(i, j) for i, j in zip(idx, x.a[2])) else sel(x.a[0], path, idx))]
    return []


def prove_eq(a, b, facts, budget, hints=(), depth=0, eqdone=(), pinned=()):
    """list of open leaves [(a, b, facts)]; [] when proved"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    if a is b or same(a, b):
        return []
    # use equality facts
    for f in facts:
        if f in eqdone:
            continue
        sols = TM.eqsols(f) or realsols(f)
        if sols:
            v, s = sols[0]
            mp = {v: s}
            a2, b2 = subst(a, mp), subst(b, mp)
            f2 = tuple(x for x in (subst(g, mp) for g in facts) if x is not T)
            if F in f2:
                return []
            if isinstance(v, Atom) and v.k == "var" and v.a[0].startswith("#"):
                g = ge(s)       # the eliminated variable was a count or index
                if g is F:
                    return []
                if g is not T:
                    f2 = f2 + (g,)
            if isinstance(v, TM.AV):
                f2 = f2 + (f,)      # the element may still be read at other indices
            # keep the equation available for witnesses through `facts` of the caller
            return prove_eq(a2, b2, f2, budget, hints, depth, eqdone + (f,))
    if any(FX.has_div(g) for g in facts):
        facts = tuple(FX.simpb(g, tuple(h for h in facts if h is not g)) if FX.has_div(g) else g for g in facts)
        if F in facts:
            return []
        facts = tuple(g for g in facts if g is not T)
    a = norm(a, facts)
    b = norm(b, facts)
    if a is b or same(a, b):
        return []
    if isinstance(a, B) and (a is T or b is T):
        # a universally quantified formula: an arbitrary instance
        g = b if a is T else a
        if g.k == "and":
            out = []
            for x in g.a:
                out += prove_eq(x, T, facts, budget, hints, depth, eqdone)
                if len(out) > 3:
                    break
            return out
        if g.k == "all":
            v = fresh("#v")
            return prove_eq(subst(g.a[2], {g.a[1]: lift(v)}), T, facts + (ge(lift(v)), lt(lift(v), g.a[0])), budget, hints, depth, eqdone)
    # instances of universally quantified facts at the index variables in play
    for f in facts:
        if f.k == "all" and f not in eqdone and nonzero(f.a[2]):
            have = set(facts)
            inst = []
            for v in sorted((v for v in fv_of((a, b) + tuple(g for g in facts if g.k != "all")) if isinstance(v, Atom) and v.k == "var" and v.sort == "i"), key=lambda v: v.a[0]):
                g = subst(f.a[2], {f.a[1]: lift(v)})
                if g not in have and decide(ge(lift(v)), facts) is True and decide(lt(lift(v), f.a[0]), facts) is True:
                    inst.append(g)
            if inst:
                f2 = facts + tuple(inst)
                if F in f2 or inconsistent(f2):
                    return []
                return prove_eq(a, b, f2, budget, hints, depth, eqdone + (f,), pinned)
    for h in hints:
        if getattr(h, "early", False):
            r = h(a, b, facts)
            if r is not None:
                return prove_eq(r[0], r[1], facts, budget, tuple(x for x in hints if x is not h), depth + 1, eqdone)
    cs = []
    seen = set()
    conds(a, frozenset(), cs, seen)
    conds(b, frozenset(), cs, seen)
    cs = [c for c in dict.fromkeys(cs) if decide(c, facts) is None]
    if not cs:
        # a division by a non-constant: is the quotient zero?
        for x in FX.divs((a, b), set()):
            cs += [c for c in (lt(x.a[0], x.a[1]), eq(x.a[0], x.a[1])) if decide(c, facts) is None]
    if not cs and isinstance(a, B):
        for g in facts:
            g = g.a[0] if g.k == "not" else g
            if g.k in ("ge", "gt", "eq") and has_ite(g.a[0]):
                conds(g.a[0], frozenset(), cs, set())
        cs = [c for c in dict.fromkeys(cs) if decide(c, facts) is None]
    if cs and depth < 24:
        c = min(cs, key=size)
        out = []
        for lit in (c, bnot(c)):
            f2 = tuple(assume_cond(g, c, lit is c) if has_ite(g) else g for g in facts) + (lit,)
            if F in f2 or inconsistent(f2):
                continue
            if any(FX.has_div(g) for g in f2):
                f3 = tuple(FX.simpb(g, tuple(h for h in f2 if h is not g)) if FX.has_div(g) else g for g in f2)
                if F in f3 or inconsistent(f3):
                    continue
                f2 = tuple(g for g in f3 if g is not T)
            a2, b2 = assume_cond(a, c, lit is c), assume_cond(b, c, lit is c)
            out += prove_eq(a2, b2, f2, budget, hints, depth + 1, eqdone)
            if len(out) > 3:
                return out
        return out
    # two opposite inequalities make an equation
    for f in facts:
        g, neg = (f.a[0], True) if f.k == "not" else (f, False)
        if g.k != "ge" or not g.a[0].isint or g.a[0] in pinned:
            continue
        q = -g.a[0] - 1 if neg else g.a[0]
        e = eq(q, 0)
        if TM.eqsols(e) and decide(ge(-q), facts) is True:
            return prove_eq(a, b, facts + (e,), budget, hints, depth, eqdone, pinned + (g.a[0],))
    # integer variables the facts pin to a constant
    for v in sorted((v for v in fv_of((a, b)) if isinstance(v, Atom) and v.k == "var" and v.sort == "i"), key=lambda v: v.a[0]):
        for cst in pins(v, facts):
            if decide(eq(lift(v), cst), facts) is True:
                mp = {v: lift(cst)}
                f2 = tuple(x for x in (subst(g, mp) for g in facts) if x is not T)
                return prove_eq(subst(a, mp), subst(b, mp), f2, budget, hints, depth, eqdone)
    if isinstance(a, P) and isinstance(b, P) and a.isint and b.isint and decide(ge(a - b), facts) is True and decide(ge(b - a), facts) is True:
        return []
    if isinstance(a, P) and isinstance(b, P) and depth < 60:
        a2 = unify(a, b, facts, budget, hints, depth)
        if a2 is not None:
            return prove_eq(a2, b, facts, budget, hints, depth + 1, eqdone)
    if isinstance(a, P) and isinstance(b, P) and depth < 60:
        r = peel(a, b, facts)
        if r is not None and not (same(r[0], a) and same(r[1], b)):
            # equations on single elements: peeling may have produced the element afresh
            ed = tuple(f for f in eqdone if not (f.k == "eq" and isinstance((realsols(f) or [(0,)])[0][0], TM.AV)))
            return prove_eq(r[0], r[1], facts, budget, hints, depth + 1, ed)
    for h in hints:
        r = h(a, b, facts)
        if r is not None:
            a2, b2 = r
            if same(a2, b2):
                return []
            if (a2 is not a or b2 is not b) and depth < 40:
                hh = tuple(x for x in hints if x is not h)
                r = prove_eq(a2, b2, facts, budget, hh, depth + 1, eqdone)
                if not r:
                    return []
    return [(a, b, facts)]


def nonzero(b):
    return b.k == "not" and b.a[0].k == "eq" and not b.a[0].a[0].isint


def outer_sums(x, out, seen):
    """sum atoms of x that are not under a binder"""
    if isinstance(x, P):
        for a in x.atoms():
            outer_sums(a, out, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return
        seen.add(x)
        if x.k == "sum":
            out.append(x)
        elif x.k in ("inv", "uf", "pow", "ite", "let", "tdiv"):
            outer_sums(x.a, out, seen)
    elif isinstance(x, B):
        if x.k != "all":
            outer_sums(x.a, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            outer_sums(y, out, seen)


def deep_replace(x, mp):
    """replace atoms anywhere outside binders"""
    if isinstance(x, P):
        m = {}
        for a in x.atoms():
            y = mp.get(a)
            if y is None and a.k in ("inv", "uf", "pow", "ite", "let", "tdiv"):
                s = set()
                o = []
                outer_sums(a, o, s)
                if any(q in mp for q in o):
                    g = lambda z: deep_replace(z, mp) if isinstance(z, (P, B, tuple)) else z
                    if a.k == "inv":
                        y = g(a.a[0]).inv()
                    elif a.k == "ite":
                        y = ite(g(a.a[0]), g(a.a[1]), g(a.a[2]))
                    elif a.k == "let":
                        y = let(g(a.a[0]))
                    elif a.k == "tdiv":
                        y = tdiv(g(a.a[0]), g(a.a[1]))
                    elif a.k == "pow":
                        y = powk(g(a.a[0]), g(a.a[1]))
                    elif a.a[0] == "sqrt":
                        y = sqrt(g(a.a[1]))
                    else:
                        y = ufn(tuple(g(z) for z in a.a), a.sort)
            if y is not None:
                m[a] = y
        return TM.replace_atoms(x, m) if m else x
    if isinstance(x, B):
        if x.k == "not":
            return bnot(deep_replace(x.a[0], mp))
        if x.k in ("and", "or"):
            return (band if x.k == "and" else bor)(*[deep_replace(y, mp) for y in x.a])
        if x.k in ("ge", "gt", "eq"):
            return {"ge": ge, "gt": gt, "eq": eq0}[x.k](deep_replace(x.a[0], mp))
        return x
    if isinstance(x, tuple):
        return tuple(deep_replace(y, mp) if isinstance(y, (P, B, tuple)) else y for y in x)
    return x


def peel(a, b, facts):
    """two sums of the same terms over ranges that differ by a few terms at either end: write the longer as the
    shorter plus the extra terms"""
    ss = []
    outer_sums((a, b), ss, set())
    if len(ss) < 2 or len(ss) > 12:
        return None
    for x in ss:
        for y in ss:
            if x is y:
                continue
            d = (x.a[0] - y.a[0]).const()
            if d is None or not 0 < d <= 3 or decide(ge(y.a[0]), facts) is not True:
                continue
            f = lambda i: subst(x.a[2], {x.a[1]: i})
            w = lift(fresh("#w"))
            yb = subst(y.a[2], {y.a[1]: w})
            for s in range(int(d) + 1):
                if same(f(w + s), yb):
                    r = lift(y)
                    for i in range(s):
                        r = r + f(lift(i))
                    for i in range(int(d) - s):
                        r = r + f(y.a[0] + s + i)
                    return deep_replace(a, {x: r}), deep_replace(b, {x: r})
    return None


def unify(a, b, facts, budget, hints, depth):
    """congruence: replace one atom of a by an atom of b of the same kind whose arguments are provably equal"""
    kinds = ("sum", "prod", "fft", "uf", "sel", "pow", "inv", "kth")
    fa, fb = {fp(x): x for x in a.atoms() if x.k in kinds}, {fp(x): x for x in b.atoms() if x.k in kinds}
    ua = [x for f, x in fa.items() if f not in fb]
    ub = [x for f, x in fb.items() if f not in fa]
    if len(ua) * len(ub) > 16:
        return None
    for x in ua:
        for y in ub:
            if x.k != y.k or x.sort != y.sort or len(x.a) != len(y.a):
                continue
            if eq_args(x, y, facts, budget, hints, depth + 8):
                return TM.replace_atoms(a, {x: lift(y)})
            if x.k in ("sum", "prod") and y.a[1] in y.a[2].fv:
                # the same terms taken in the opposite order
                w = fresh("#e")
                z = TM.atom(y.k, (y.a[0], w, subst(y.a[2], {y.a[1]: y.a[0] - 1 - lift(w)})), y.sort)
                if eq_args(x, z, facts, budget, hints, depth + 8):
                    return TM.replace_atoms(a, {x: lift(y)})
    return None


def eq_args(x, y, facts, budget, hints, depth):
    pairs = []      # (a, b, facts)

    def lam(n1, v1, b1, n2, v2, b2):
        pairs.append((n1, n2, facts))
        v = fresh("#e")
        f2 = facts + (lt(lift(v), n1),)
        for p, q in zip(b1, b2):
            pairs.append((subst(p, {v1: lift(v)}), subst(q, {v2: lift(v)}), f2))

    if x.k in ("sum", "prod"):
        lam(x.a[0], x.a[1], (x.a[2],), y.a[0], y.a[1], (y.a[2],))
    else:
        for u, w in zip(x.a, y.a):
            if isinstance(u, P) and isinstance(w, P):
                pairs.append((u, w, facts))
            elif isinstance(u, Lam) and isinstance(w, Lam) and len(u.body) == len(w.body):
                lam(u.n, u.var, u.body, w.n, w.var, w.body)
            elif isinstance(u, tuple) and isinstance(w, tuple) and len(u) == len(w) and all(isinstance(z, P) for z in u + w):
                pairs += [(p, q, facts) for p, q in zip(u, w)]
            elif u is not w and u != w:
                return False
    # cheap ones first
    for p, q, f in sorted(pairs, key=lambda t: not (t[0] is t[1] or same(t[0], t[1]))):
        if p.unk or q.unk or prove_eq(p, q, f, budget, hints, depth):
            return False
    return True


def pins(v, facts):
    """candidate constants: bounds on v occurring in the facts"""
    out = {0} if v.a[0].startswith("#") else set()
    for f in facts:
        if v in f.fv:
            b = f.a[0] if f.k == "not" else f
            if b.k in ("ge", "gt", "eq") and b.fv == frozenset((v,)):
                co = dict(b.a[0].t).get(((v, 1),))
                c0 = dict(b.a[0].t).get((), 0)
                if co and len(b.a[0].t) <= 2:
                    r = -c0 / co
                    if r.denominator == 1 if hasattr(r, "denominator") else True:
                        out |= {int(r), int(r) - 1, int(r) + 1}
    return sorted(out)


def assume_cond(x, c, val):
    """replace the literal c by its truth value everywhere (also in nested formulas)"""
    memo = {}

    def go(x):
        if isinstance(x, P):
            if not needs(x):
                return x
            r = memo.get(x)
            if r is None:
                mp = {}
                for a in x.atoms():
                    if needs(a):
                        y = goa(a)
                        if y is not None:
                            mp[a] = y
                r = memo[x] = TM.replace_atoms(x, mp) if mp else x
            return r
        if isinstance(x, B):
            if x is c:
                return T if val else F
            if x.k == "not":
                return bnot(go(x.a[0]))
            if x.k == "and":
                return band(*[go(y) for y in x.a])
            if x.k == "or":
                return bor(*[go(y) for y in x.a])
            if x.k in ("ge", "gt", "eq") and has_ite(x.a[0]):
                return {"ge": ge, "gt": gt, "eq": eq0}[x.k](go(x.a[0]))
            return x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Lam):
            return Lam(go(x.n), x.var, tuple(go(y) for y in x.body)) if needs(x) else x
        return x

    def goa(a):
        if a.k == "ite":
            cc = go(a.a[0])
            if cc is T:
                return go(a.a[1])
            if cc is F:
                return go(a.a[2])
            if cc is a.a[0]:
                u, v = go(a.a[1]), go(a.a[2])
                if u is a.a[1] and v is a.a[2]:
                    return None
                return ite(cc, u, v)
            return ite(cc, go(a.a[1]), go(a.a[2]))
        if a.k in ("sel", "loop", "firstk"):
            if a.k == "sel":
                return sel(a.a[0], a.a[1], tuple(go(i) for i in a.a[2]))
            return None
        if a.k == "sum":
            return mk_sum(go(a.a[0]), a.a[1], go(a.a[2]))
        if a.k == "prod":
            return mk_prod(go(a.a[0]), a.a[1], go(a.a[2]))
        if a.k == "inv":
            return go(a.a[0]).inv()
        if a.k == "let":
            return let(go(a.a[0]))
        if a.k == "tdiv":
            return tdiv(go(a.a[0]), go(a.a[1]))
        if a.k == "pow":
            return powk(go(a.a[0]), go(a.a[1]))
        if a.k == "uf" and a.a[0] == "sqrt":
            return sqrt(go(a.a[1]))
        if a.k == "uf":
            return ufn(tuple(go(y) if isinstance(y, (P, B, tuple, Lam)) else y for y in a.a), a.sort)
        return None
    return go(x)


# ---------------------------------------------------------------- refutation
def free_syms(xs):
    vs, avs = set(), set()
    for x in xs:
        for v in fv_of(x):
            (avs if isinstance(v, AV) else vs).add(v)
    return vs, avs


class Sampler:
    """ranges: name (without '#') -> callable(rng) ; default small naturals / reals in (-2,2)"""

    def __init__(self, ranges=None, arrays=None, post=None, tol=1e-6, free=(), valid=None):
        self.tol, self.free, self.valid = tol, free, valid
        self.ranges, self.arr, self.post = ranges or {}, arrays or {}, post

    def draw(self, rng, vs, avs):
        vals = {}
        for v in sorted(vs, key=lambda v: v.a[0]):
            nm = v.a[0].lstrip("#")
            f = self.ranges.get(nm) or self.ranges.get(nm.split("#")[0])
            if f:
                vals[v] = f(rng)
            elif v.sort == "i":
                if v.a[0].startswith("#"):
                    vals[v] = rng.choice((rng.randrange(0, 4), rng.randrange(0, 8), rng.randrange(0, 20)))
                else:
                    vals[v] = rng.randrange(-6, 12)
            else:
                vals[v] = rng.uniform(-2.0, 2.0) if rng.random() < 0.7 else rng.choice((0.0, 1.0, -1.0, 0.5, 2.0, 3.0))
        arrs = {}
        for av in avs:
            salt = rng.random()
            f = self.arr.get(av.name)

            def g(path, ix, salt=salt, f=f, memo={}, av=av):
                r = random.Random(repr((salt, av.name, path, ix)))
                if f:
                    return f(r, path, ix)
                return r.uniform(-2.0, 2.0)
            arrs[av] = g
        if self.post:
            self.post(rng, vals, arrs)
        return vals, arrs


def close_enough(x, y, tol=1e-6):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    x, y = float(x), float(y)
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def refute(a, b, facts, sampler, tries=400, need=60, seed=1, goodcb=None):
    """-> (witness or None, number of valid samples)"""
    if unk_of(a) or unk_of(b) or any(f.unk for f in facts):
        return None, -1
    vs, avs = free_syms([a, b] + list(facts))
    if TM.INF in vs:
        return None, -1
    rng = random.Random(seed)
    good = 0
    t0 = time.time()
    for t in range(tries):
        if time.time() - t0 > 6:
            break
        vals, arrs = sampler.draw(rng, vs, avs)
        if sampler.valid and not sampler.valid({v.a[0].lstrip("#"): x for v, x in vals.items()}):
            continue
        ev = Ev(vals, arrs)
        try:
            if not all(ev.go(f, {}) for f in facts):
                continue
            x, y = ev.go(a, {}), ev.go(b, {})
        except EvalError:
            continue
        except (OverflowError, ZeroDivisionError, RecursionError, TypeError):
            continue
        good += 1
        if not close_enough(x, y, sampler.tol):
            return {"inputs": {v.a[0]: (str(vals[v])) for v in sorted(vs, key=lambda v: v.a[0])}, "code": str(x), "spec": str(y)}, good
        if good >= need:
            break
    return None, good


def literals(xs):
    """comparisons anywhere in the terms, with the index variables they stand under"""
    out, seen = {}, set()

    def go(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                go(y)
            return
        i = getattr(x, "id", None)
        if i is None and not isinstance(x, (P, B, Atom, Lam)):
            for y in getattr(x, "comps", ()) or ():
                go(y)
            return
        if (type(x), i) in seen:
            return
        seen.add((type(x), i))
        if isinstance(x, B):
            if x.k in ("ge", "gt", "eq") and not x.unk:
                out.setdefault(x.a[0].id, x.a[0])
            for y in x.a:
                go(y)
        elif isinstance(x, P):
            for a in x.atoms():
                go(a)
        elif isinstance(x, Atom):
            for y in x.a:
                go(y)
        elif isinstance(x, Lam):
            go(x.n)
            go(x.body)
        elif hasattr(x, "comps"):
            for c in x.comps:
                go(c)
    go(list(xs))
    return list(out.values())


def guided(a, b, facts, sampler, seed=3, tries=150, limit=5.0):
    """like refute, at inputs where some comparison of the graphs is exactly at its boundary (exact rational arithmetic)"""
    if unk_of(a) or unk_of(b) or any(f.unk for f in facts):
        return None
    facts = list(facts)
    vs, avs = free_syms([a, b] + facts)
    if TM.INF in vs:
        return None
    lits = literals([a, b] + facts)
    if not lits:
        return None
    rng = random.Random(seed)
    t0 = time.time()
    fixed = lambda v: (v.a[0].lstrip("#") in sampler.ranges or v.a[0].lstrip("#").split("#")[0] in sampler.ranges) and v.a[0].lstrip("#") not in sampler.free
    for t in range(tries):
        if time.time() - t0 > limit:
            break
        vals, arrs = sampler.draw(rng, vs, avs)
        vals = {v: Fraction(x).limit_denominator(64) if isinstance(x, float) else x for v, x in vals.items()}
        over = {}

        def arr(av, f):
            def g(path, ix):
                r = over.get((av, path, ix))
                if r is not None:
                    return r
                r = f(path, ix)
                return Fraction(r).limit_denominator(64) if isinstance(r, float) else r
            return g
        arrs = {av: arr(av, f) for av, f in arrs.items()}
        done = 0
        for lit in rng.sample(lits, min(len(lits), rng.choice((1, 1, 2, 3)))):
            bv = {}
            bad = False
            for v in fv_of(lit):
                if v not in vals and v not in arrs:
                    if isinstance(v, AV) or v.sort != "i":
                        bad = True
                    else:
                        bv[v] = rng.randrange(0, 3)
            if bad:
                continue
            cand = []
            for v in fv_of(lit):
                if v in vals and not fixed(v):
                    cand.append(v)
            sels = set()
            collect_sels(lit, sels)
            for x in sels:
                if x.a[0] in arrs and x.a[0].name not in sampler.arr:
                    cand.append(x)
            cand.sort(key=str)
            rng.shuffle(cand)
            for v in cand[:4]:
                try:
                    if v.k == "var":
                        old = vals[v]
                        put = lambda z: vals.__setitem__(v, z)
                    else:
                        ix = tuple(Ev(vals, arrs, exact=True).index(i, bv) for i in v.a[2])
                        key = (v.a[0], v.a[1], ix)
                        old = arrs[v.a[0]](v.a[1], ix)
                        put = lambda z: over.__setitem__(key, z)
                    f = lambda: Ev(vals, arrs, exact=True).go(lit, bv)
                    f0 = f()
                    put(old + 1)
                    f1 = f()
                    if isinstance(f0, float) or isinstance(f1, float) or f0 == f1:
                        put(old)
                        continue
                    z = old - Fraction(f0) / (f1 - f0)
                    if v.sort == "i":
                        z = int(z // 1) + rng.choice((0, 0, 1, -1, 2))
                        put(z)
                    else:
                        if z.denominator == 1:
                            z = int(z)
                        put(z)
                        if f() != 0:
                            put(old)
                            continue
                    if v.k == "var" and v.a[0].startswith("#") and z < 0:
                        put(old)
                        continue
                    done += 1
                    break
                except (EvalError, OverflowError, ZeroDivisionError, RecursionError, TypeError):
                    put(old)
        if not done or sampler.valid and not sampler.valid({v.a[0].lstrip("#"): x for v, x in vals.items()}):
            continue
        ev = Ev(vals, arrs, exact=True)
        try:
            if not all(ev.go(f, {}) for f in facts):
                continue
            x, y = ev.go(a, {}), ev.go(b, {})
        except (EvalError, OverflowError, ZeroDivisionError, RecursionError, TypeError):
            continue
        if not close_enough(x, y, sampler.tol):
            w = {v.a[0]: str(vals[v]) for v in sorted(vs, key=lambda v: v.a[0])}
            w.update({"%s%s%s" % (av.name, "".join(".%s" % q for q in path) if isinstance(path, tuple) else path, list(ix)): str(z) for (av, path, ix), z in over.items()})
            return {"inputs": w, "code": str(x), "spec": str(y)}
    return None


def tiny(a, b, facts, sampler, seed=5, tries=60, limit=4.0):
    """like refute, with some inputs as small as a small constant the graphs compare with; exact arithmetic, relative difference"""
    if unk_of(a) or unk_of(b) or any(f.unk for f in facts):
        return None
    facts = list(facts)
    vs, avs = free_syms([a, b] + facts)
    if TM.INF in vs:
        return None
    small = set()
    for l in literals([a, b]):
        for m, c in l.t:
            if not m and 0 < abs(c) < Fraction(1, 1000):
                small.add(abs(c))
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].k == "uf" and m[0][0].a[0] == "eps":
                small.add(abs(c) / (1 << 52))
    if not small:
        return None
    small = sorted(small)
    rng = random.Random(seed)
    t0 = time.time()
    fixed = lambda v: v.a[0].lstrip("#") in sampler.ranges or v.a[0].lstrip("#").split("#")[0] in sampler.ranges
    for t in range(tries):
        if time.time() - t0 > limit:
            break
        vals, arrs = sampler.draw(rng, vs, avs)
        sc = rng.choice(small) * rng.choice((Fraction(1, 8), Fraction(1, 2), 1, 2, 8))
        rat = lambda z, s: Fraction(z).limit_denominator(64) * s if isinstance(z, float) else z
        pick = lambda: sc if rng.random() < 0.5 else 1
        vals = {v: rat(x, 1 if fixed(v) else pick()) for v, x in vals.items()}
        arrs = {av: (lambda path, ix, f=f, s=1 if av.name in sampler.arr else pick(): rat(f(path, ix), s)) for av, f in arrs.items()}
        if sampler.valid and not sampler.valid({v.a[0].lstrip("#"): x for v, x in vals.items()}):
            continue
        ev = Ev(vals, arrs, exact=True)
        try:
            if not all(ev.go(f, {}) for f in facts):
                continue
            x, y = ev.go(a, {}), ev.go(b, {})
        except (EvalError, OverflowError, ZeroDivisionError, RecursionError, TypeError):
            continue
        if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and abs(x - y) > Fraction(1, 1000) * max(abs(x), abs(y)):
            return {"inputs": {v.a[0]: str(vals[v]) for v in sorted(vs, key=lambda v: v.a[0])}, "scale": str(float(sc)), "code": str(float(x)), "spec": str(float(y))}
    return None


def collect_sels(x, out, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (tuple, list)):
        for y in x:
            collect_sels(y, out, seen)
        return
    if not isinstance(x, (P, B, Atom)) or (type(x), x.id) in seen:
        return
    seen.add((type(x), x.id))
    if isinstance(x, Atom) and x.k == "sel" and isinstance(x.a[0], AV):
        out.add(x)
    for y in (x.atoms() if isinstance(x, P) else x.a):
        collect_sels(y, out, seen)


def decide_ob(ob, sampler, alts=None, budget=4000):
    ob.detail = None
    if unk_of(ob.a):
        # facts may cut the unknown part off
        a = norm(ob.a, ob.facts)
        if unk_of(a):
            ob.verdict, ob.detail = "UNDECIDED", "value depends on an untracked value"
            ob.a = a
            return ob
        ob.a = a
    try:
        open_ = prove_eq(ob.a, ob.b, ob.facts, [budget], ob.hints)
    except Budget:
        open_ = [(ob.a, ob.b, ob.facts)]
    if not open_:
        ob.verdict = "PROVED"
        return ob
    for o2 in (alts() if alts else ()):
        try:
            if not unk_of(o2.a) and not prove_eq(o2.a, o2.b, o2.facts, [budget], o2.hints):
                ob.verdict = "PROVED"
                return ob
        except Budget:
            pass
    w, n = refute(ob.a, ob.b, ob.facts, sampler)
    if w is None and n >= 0:
        for a, b, f in open_[:3]:
            if a.unk or b.unk:
                continue
            w, n2 = refute(a, b, f, sampler, tries=300, seed=7)
            n = max(n, n2)
            if w:
                break
        if w is None:
            w = guided(ob.a, ob.b, ob.facts, sampler)
        for a, b, f in open_[:3]:
            if w is None and not a.unk and not b.unk and n >= 0:
                w = guided(a, b, f, sampler, seed=11)
        if w is None:
            w = tiny(ob.a, ob.b, ob.facts, sampler)
    if w is not None:
        ob.verdict = "REFUTED"
        ob.detail = w
    else:
        ob.verdict = "UNDECIDED"
        a, b, f = open_[0]
        ob.detail = "normal forms differ (%s | %s) under %s; %d interpretations agree" % (str(a)[:SHOW], str(b)[:SHOW], [str(x) for x in f][:12], n)
    return ob
