"""Value-graph terms: polynomials with rational coefficients over hash-consed atoms, and boolean
formulas over sign conditions of such polynomials.  Two terms are the same *value* when their
fingerprints in GF(2^127-1) agree (random interpretation / polynomial identity testing): operators
the theory does not interpret (sqrt, tan, fft, ...) are atoms fingerprinted by the fingerprints of
their arguments."""
import math
from fractions import Fraction
import hashlib, math, sys

sys.setrecursionlimit(100000)
PR = (1 << 127) - 1

def H(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=16).digest(), "big") % PR

_n = [0]
def nid():
    _n[0] += 1
    return _n[0]

ATOMS = {}
EMPTY = frozenset()

def fv_of(x):
    if isinstance(x, (P, B, Atom)):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = fv_of(y)
            if f:
                r = r | f
        return r
    if isinstance(x, (Lam, Group)):
        return x.fv
    return EMPTY

def bh_of(x):
    """binder height: nesting depth of binders inside x (alpha-invariant)"""
    if isinstance(x, (P, B, Atom, Lam, Group)):
        return x.bh
    if isinstance(x, tuple):
        r = 0
        for y in x:
            h = bh_of(y)
            if h > r:
                r = h
        return r
    return 0

def unk_of(x):
    if isinstance(x, (P, B, Atom, Lam, Group)):
        return x.unk
    if isinstance(x, tuple):
        return any(unk_of(y) for y in x)
    return False


class Atom:
    __slots__ = ("k", "a", "sort", "id", "fv", "unk", "_fp", "bh")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


# binders: (kind) -> the args layout documented in subst/fp/ev
def atom(k, a, sort):
    key = (k, a, sort)
    r = ATOMS.get(key)
    if r is not None:
        return r
    r = Atom.__new__(Atom)
    r.k, r.a, r.sort, r.id, r._fp = k, a, sort, nid(), None
    if k == "var":
        r.fv = frozenset((r,))
        r.unk = a[0].startswith("?")
    elif k == "sel":      # (arrayvar, path, idxs)
        r.fv = frozenset((a[0],)) | fv_of(a[2])
        r.unk = unk_of(a[2]) or a[0].unk
    elif k in ("sum", "prod", "firstk"):   # (n, var, body)
        r.fv = fv_of(a[0]) | (fv_of(a[2]) - {a[1]})
        r.unk = unk_of(a[0]) or unk_of(a[2])
    else:
        r.fv = fv_of(a)
        r.unk = unk_of(a)
    r.bh = bh_of(a) + (1 if k in ("sum", "prod", "firstk") else 0)
    ATOMS[key] = r
    return r


class AV:
    """array variable (an input array, or a loop-carried array placeholder)"""
    __slots__ = ("name", "id", "sort", "fv", "unk")

    def __init__(self, name, sort="r"):
        self.name, self.id, self.sort = name, nid(), sort
        self.fv = frozenset((self,))
        self.unk = name.startswith("?")

    def __repr__(self):
        return self.name


class Lam:
    """sequence argument of an uninterpreted operator: n elements, each a tuple of scalars"""
    __slots__ = ("n", "var", "body", "id", "fv", "unk", "bh")
    TAB = {}

    def __new__(cls, n, var, body):
        body = tuple(body)
        key = (n, var, body)
        r = cls.TAB.get(key)
        if r is None:
            r = object.__new__(cls)
            r.n, r.var, r.body, r.id = n, var, body, nid()
            r.fv = fv_of(n) | (fv_of(body) - {var})
            r.unk = unk_of(n) or unk_of(body)
            r.bh = 1 + max(bh_of(n), bh_of(body))
            cls.TAB[key] = r
        return r

    def __repr__(self):
        return "[%s | %s<%s]" % (",".join(map(str, self.body)), self.var, self.n)


class Cmp:
    pass


class Group:
    """general loop: simultaneous recurrence; comps = [(ph, idxvars, init, step)] where ph is a
    var-atom (scalar) or an AV (array, with index variables); kvar = iteration number"""
    __slots__ = ("kvar", "comps", "id", "fv", "unk", "_col", "bh")

    def __init__(self, kvar, comps):
        self.kvar, self.comps, self.id = kvar, tuple(comps), nid()
        f = EMPTY
        phs = set()
        for ph, iv, init, step in comps:
            f = f | ((fv_of(init) | fv_of(step)) - frozenset(iv))
            phs.add(ph)
        self.fv = f - frozenset(phs) - {kvar}
        self.unk = any(unk_of(c[2]) or unk_of(c[3]) for c in comps)
        self._col = {}
        self.bh = 1 + max([max(bh_of(c[2]), bh_of(c[3])) for c in comps] + [0])

    def __repr__(self):
        return "G%d" % self.id


POLYS = {}


class P:
    __slots__ = ("t", "id", "fv", "unk", "isint", "_fp", "bh")

    @staticmethod
    def mk(d):
        items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: mkey(x[0])))
        r = POLYS.get(items)
        if r is not None:
            return r
        r = P.__new__(P)
        r.t, r.id, r._fp = items, nid(), None
        f = EMPTY
        u = False
        isint = True
        bh = 0
        for m, c in items:
            if c.denominator != 1:
                isint = False
            for a, e in m:
                f = f | a.fv
                u = u or a.unk
                if a.bh > bh:
                    bh = a.bh
                if a.sort != "i" or e < 0:
                    isint = False
        r.fv, r.unk, r.isint, r.bh = f, u, isint, bh
        POLYS[items] = r
        return r

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def __add__(self, o):
        o = lift(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return cap(P.mk(d))

    __radd__ = __add__

    def __neg__(self):
        return P.mk({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        a, b = self, o
        if len(a.t) * len(b.t) > 400:
            if len(a.t) > 12:
                a = let(a)
            if len(b.t) > 12:
                b = let(b)
        d = {}
        for m1, c1 in a.t:
            for m2, c2 in b.t:
                m = mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return cap(P.mk(d))

    __rmul__ = __mul__

    def inv(self):
        if len(self.t) == 1:
            m, c = self.t[0]
            return P.mk({tuple((a, -e) for a, e in m): 1 / c})
        if not self.t:
            return A("inv0", (), "r")
        # content: common monomial + leading coefficient
        lead = self.t[-1][1]
        common = dict(self.t[0][0])
        for m, c in self.t[1:]:
            dm = dict(m)
            for a in list(common):
                e = min(common[a], dm.get(a, 0)) if common[a] > 0 else (max(common[a], dm.get(a, 0)) if dm.get(a, 0) < 0 else 0)
                if e == 0:
                    del common[a]
                else:
                    common[a] = e
        cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
        icm = tuple((a, -e) for a, e in cm)
        q = P.mk({mmul(m, icm): c / lead for m, c in self.t})
        if len(q.t) == 1 and q.t[0][0] and len(q.t[0][0]) == 1:
            pass
        return P.mk({mmul(icm, ((atom("inv", (q,), "r"), 1),)): 1 / lead})

    def __truediv__(self, o):
        return self * lift(o).inv()

    def __rtruediv__(self, o):
        return lift(o) * self.inv()

    def __pow__(self, n):
        r = ONE
        b = self
        if n < 0:
            return (self ** (-n)).inv()
        for _ in range(n):
            r = r * b
        return r

    def single(self):
        """the atom if this is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 and self.t[0][0][0][1] == 1:
            return self.t[0][0][0][0]
        return None

    def atoms(self):
        s = set()
        for m, c in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P.mk({((x, 1),): Fraction(1)})
    if isinstance(x, (int, Fraction)):
        return P.mk({(): Fraction(x)})
    if isinstance(x, float):
        return P.mk({(): Fraction(x)})
    raise TypeError("lift %r" % (x,))


def let(p):
    a = p.single()
    if a is not None:
        return p
    return A("let", (p,), "i" if p.isint else "r")


CAP = 160
def cap(p):
    if len(p.t) > CAP:
        return let(p)
    return p


def A(k, a, sort):
    return lift(atom(k, a, sort))


ZERO = None
ONE = None
ZERO = lift(0)
ONE = lift(1)


def V(name, sort="i"):
    return A("var", (name,), sort)


_fresh = [0]
INF = None
def fresh(prefix="t", sort="i"):
    _fresh[0] += 1
    return atom("var", ("%s#%d" % (prefix, _fresh[0]),), sort)


def unknown(tag="?", sort="r"):
    _fresh[0] += 1
    return A("var", ("?%s#%d" % (tag, _fresh[0]),), sort)


def sel(av, path, idxs):
    return A("sel", (av, path, tuple(lift(i) for i in idxs)), av.sort)


# ---------------------------------------------------------------- booleans
BT = {}


class B:
    __slots__ = ("k", "a", "id", "fv", "unk", "_fp", "bh")

    @staticmethod
    def mk(k, a):
        key = (k, a)
        r = BT.get(key)
        if r is None:
            r = B.__new__(B)
            r.k, r.a, r.id, r._fp = k, a, nid(), None
            if k == "all":   # (n, var, body)
                r.fv = fv_of(a[0]) | (fv_of(a[2]) - {a[1]})
            else:
                r.fv = fv_of(a)
            r.unk = unk_of(a) or (k == "buf" and a[0].startswith("?"))
            r.bh = bh_of(a) + (1 if k == "all" else 0)
            BT[key] = r
        return r

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return showb(self)


T = B.mk("T", ())
F = B.mk("F", ())


def bnot(b):
    if b is T:
        return F
    if b is F:
        return T
    if b.k == "not":
        return b.a[0]
    if b.k == "and":
        return bor(*[bnot(x) for x in b.a])
    if b.k == "or":
        return band(*[bnot(x) for x in b.a])
    return B.mk("not", (b,))


def band(*xs):
    s = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is T:
            continue
        if x is F:
            return F
        if x.k == "and":
            st.extend(reversed(x.a))
            continue
        if x in seen:
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if bnot1(x) in seen:
            return F
    # absorb: x and (x or y) -> x ; x and (not x or y) -> x and y
    out = []
    changed = False
    for x in s:
        if x.k == "or":
            if any(y in seen for y in x.a):
                changed = True
                continue
            ys = [y for y in x.a if bnot1(y) not in seen]
            if len(ys) != len(x.a):
                out.append(bor(*ys))
                changed = True
                continue
        out.append(x)
    if changed:
        return band(*out)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return B.mk("and", tuple(sorted(out, key=lambda b: b.id)))


def bnot1(b):
    if b.k == "not":
        return b.a[0]
    if b.k in ("and", "or"):
        return bnot(b)
    return BT.get(("not", (b,)), b if False else None) or B.mk("not", (b,))


def bor(*xs):
    s = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is F:
            continue
        if x is T:
            return T
        if x.k == "or":
            st.extend(reversed(x.a))
            continue
        if x in seen:
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if bnot1(x) in seen:
            return T
    out = []
    changed = False
    for x in s:
        if x.k == "and":
            if any(y in seen for y in x.a):
                changed = True
                continue
            ys = [y for y in x.a if bnot1(y) not in seen]
            if len(ys) != len(x.a):
                out.append(band(*ys))
                changed = True
                continue
        out.append(x)
    if changed:
        return bor(*out)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (a&b)|(a&c) = a&(b|c)
    cs = [set(x.a) if x.k == "and" else {x} for x in out]
    com = set.intersection(*cs)
    if com:
        rest = [band(*[y for y in (x.a if x.k == "and" else (x,)) if y not in com]) for x in out]
        return band(*sorted(com, key=lambda b: b.id), bor(*rest))
    return B.mk("or", tuple(sorted(out, key=lambda b: b.id)))


def implies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is T or a is b:
        return a
    if c is F:
        return b
    return bor(band(c, a), band(bnot(c), b))


def b2i(b):
    return ite(b, ONE, ZERO)


def _split_ite(p):
    """p = coef*ite(c, const, const) + const -> (c, a, b)"""
    at = None
    rest = Fraction(0)
    for m, c in p.t:
        if m == ():
            rest = c
        elif at is None and len(m) == 1 and m[0][1] == 1 and m[0][0].k == "ite":
            at = (m[0][0], c)
        else:
            return None
    if at is None:
        return None
    c, x, y = at[0].a
    def leafconst(z):
        return z.const() is not None or _split_ite(z) is not None
    if not (leafconst(x) and leafconst(y)):
        return None
    return c, x * at[1] + rest, y * at[1] + rest


def nonneg_atom(a):
    if a.k == "var":
        return a.a[0].startswith("#") or a.a[0] in NONNEG
    if a.k in ("npow2", "flen", "firstk"):
        return True
    return False


NONNEG = set()


def _sgn_easy(p):
    """cheap sign bounds: (lo>=?) returns ('pos'|'nonneg'|'neg'|'nonpos'|None)"""
    if INF is not None and INF in p.fv:
        # the length of an endless iterator exceeds everything else
        for m, c in p.t:
            if m == ((INF, 1),):
                return "pos" if c > 0 else "neg"
    lo = True
    hi = True
    c0 = Fraction(0)
    for m, c in p.t:
        if m == ():
            c0 = c
            continue
        nn = all((a.sort == "i" and nonneg_atom(a)) or e % 2 == 0 or (a.k == "uf" and a.a[0] in ("csqrt_re", "eps")) for a, e in m)
        if not nn:
            return None
        if c > 0:
            hi = False
        else:
            lo = False
    if lo and c0 >= 0:
        return "pos" if c0 > 0 else "nonneg"
    if hi and c0 <= 0:
        return "neg" if c0 < 0 else "nonpos"
    return None


def norm_scale(p, keepint):
    """scale by positive rational so that the leading |coef| canonical"""
    lead = p.t[-1][1]
    if keepint:
        # divide by gcd of coefficients (ints)
        from math import gcd
        g = 0
        for m, c in p.t:
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            d = {}
            for m, c in p.t:
                if m == ():
                    d[m] = Fraction(c.numerator // g)  # floor is sound for >=
                else:
                    d[m] = c / g
            return P.mk(d)
        return p
    s = abs(lead)
    if s == 1:
        return p
    return P.mk({m: c / s for m, c in p.t})


def ge(p):
    """p >= 0"""
    p = lift(p)
    c = p.const()
    if c is not None:
        return T if c >= 0 else F
    s = _sgn_easy(p)
    if s in ("pos", "nonneg"):
        return T
    if s == "neg":
        return F
    sp = _split_ite(p)
    if sp:
        return bite(sp[0], ge(sp[1]), ge(sp[2]))
    if p.isint:
        p = norm_scale(p, True)
        if p.t[-1][1] > 0:
            return B.mk("ge", (p,))
        return B.mk("not", (B.mk("ge", (norm_scale(-p - 1, True),)),))
    p = norm_scale(p, False)
    if p.t[-1][1] > 0:
        return B.mk("ge", (p,))
    return B.mk("not", (B.mk("gt", (-p,)),))


def gt(p):
    p = lift(p)
    c = p.const()
    if c is not None:
        return T if c > 0 else F
    if p.isint:
        return ge(p - 1)
    s = _sgn_easy(p)
    if s == "pos":
        return T
    if s in ("neg", "nonpos"):
        return F
    sp = _split_ite(p)
    if sp:
        return bite(sp[0], gt(sp[1]), gt(sp[2]))
    p = norm_scale(p, False)
    if p.t[-1][1] > 0:
        return B.mk("gt", (p,))
    return B.mk("not", (B.mk("ge", (-p,)),))


def eq0(p):
    p = lift(p)
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    s = _sgn_easy(p)
    if s in ("pos", "neg"):
        return F
    sp = _split_ite(p)
    if sp:
        return bite(sp[0], eq0(sp[1]), eq0(sp[2]))
    lead = p.t[-1][1]
    if p.isint:
        from math import gcd
        g = 0
        for m, c in p.t:
            if m != ():
                g = gcd(g, int(c))
        c0 = dict(p.t).get((), Fraction(0))
        if g and int(c0) % g:
            return F
    p = P.mk({m: c / lead for m, c in p.t})
    return B.mk("eq", (p,))


def lt(a, b):
    return gt(lift(b) - lift(a))


def le(a, b):
    return ge(lift(b) - lift(a))


def eq(a, b):
    return eq0(lift(a) - lift(b))


def forall(n, var, body):
    """for all 0 <= var < n : body"""
    n = lift(n)
    if body is T:
        return T
    c = n.const()
    if c is not None:
        if c <= 0:
            return T
        if c <= 12:
            return band(*[substb(body, {var: lift(i)}) for i in range(int(c))])
    if var not in body.fv:
        return bor(body, le(n, 0))
    if body.k == "and":
        return band(*[forall(n, var, x) for x in body.a])
    return B.mk("all", (n, var, body))


def ite(c, a, b):
    if isinstance(a, B) or isinstance(b, B):
        return bite(c, a, b)
    a = lift(a)
    b = lift(b)
    if c is T or a is b:
        return a
    if c is F:
        return b
    if c.k == "not":
        return ite(c.a[0], b, a)
    if c.k == "ite":
        raise Exception
    # resolve nested same condition
    a = under(a, c, True)
    b = under(b, c, False)
    if a is b or fp(a) == fp(b):
        return a
    sols = eqsols(c)
    for v, s in sols:
        if v in a.fv or v in b.fv:
            mp = {v: s}
            if same(subst(a, mp), subst(b, mp)):
                return b
            if s.const() is not None and v in a.fv:
                a = subst(a, mp)
    return A("ite", (c, a, b), "i" if a.isint and b.isint else "r")


def eqsols(c):
    """equalities v = s (v an integer variable not in s) implied by the formula c"""
    if c.k == "eq":
        p = c.a[0]
        if not p.isint and not all(a.sort == "i" for a in p.atoms()):
            return []
        if all(a.sort == "i" for a in p.atoms()):
            # over the integers only a variable with coefficient one can be solved for without losing divisibility
            l = 1
            for _, co in p.t:
                l = l * co.denominator // math.gcd(l, co.denominator)
            g = 0
            for _, co in p.t:
                g = math.gcd(g, int(co * l))
            if g:
                p = p * Fraction(l, g)
        out = []
        for m, co in p.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "var" and abs(co) == 1:
                v = m[0][0]
                s = lift(v) - p / co
                if v not in s.fv:
                    out.append((v, s))
        return out
    if c.k == "and":
        return [x for y in c.a for x in eqsols(y)]
    return []


def under(p, c, val):
    """drop ite atoms in p (top level atoms only) whose condition is exactly c"""
    hit = [x for x in p.atoms() if x.k == "ite" and x.a[0] is c]
    if not hit:
        return p
    return replace_atoms(p, {x: (x.a[1] if val else x.a[2]) for x in hit})


def replace_atoms(p, mp):
    r = ZERO
    for m, c in p.t:
        q = lift(c)
        for a, e in m:
            b = mp.get(a)
            if b is None:
                q = q * P.mk({((a, e),): Fraction(1)})
            else:
                q = q * (b ** e)
        r = r + q
    return r


INF = atom("var", ("#inf",), "i")


# ---------------------------------------------------------------- derived operators
def pmin(a, b):
    return ite(le(a, b), a, b)


def pmax(a, b):
    return ite(ge(lift(a) - lift(b)), a, b)


def pabs(a):
    a = lift(a)
    return ite(ge(a), a, -a)


def intvalued(a, d):
    """the polynomial a/d takes integer values at all integers (a polynomial that does so on a grid of degree + 1
    points in each variable does so everywhere)"""
    deg = {}
    for m, c in a.t:
        for x, e in m:
            if x.sort != "i" or e < 0:
                return False
            deg[x] = max(deg.get(x, 0), e)
    if not deg or len(deg) > 2 or max(deg.values()) > 6 or max(deg.values()) < 2 and len(deg) < 2:
        return False
    xs = list(deg)
    import itertools
    for pt in itertools.product(*[range(deg[x] + 1) for x in xs]):
        at = dict(zip(xs, pt))
        v = Fraction(0)
        for m, c in a.t:
            for x, e in m:
                c = c * at[x] ** e
            v += c
        if (v / d).denominator != 1:
            return False
    return True


def tdiv(a, b):
    """integer division truncating toward zero"""
    a = lift(a)
    b = lift(b)
    ca, cb = a.const(), b.const()
    if cb is not None and cb == 1:
        return a
    if a is b and cb is None:
        return lift(1)          # a division by zero panics before its value is used
    if cb == 0:
        return A("div0", (a,), "i")
    if ca is not None and cb is not None:
        q = abs(ca) // abs(cb)
        return lift(q if (ca >= 0) == (cb > 0) else -q)
    if cb is not None and a.isint:
        g = [(m, c) for m, c in a.t if c % cb == 0]
        rest = P.mk({m: c for m, c in a.t if c % cb != 0})
        if not rest.t:
            return P.mk({m: c / cb for m, c in a.t})
        if g:
            whole = P.mk({m: c / cb for m, c in g})
            rc = rest.const()
            # (cb*w + r) / cb = w when w>=0 and 0<=r<cb
            if _sgn_easy(whole) in ("pos", "nonneg") and cb > 0 and _sgn_easy(rest) in ("pos", "nonneg"):
                if rc is not None:
                    return whole + (rc // cb)
                return whole + tdiv(rest, cb)
    if cb is not None and cb.denominator == 1 and len(a.t) > 1 and intvalued(a, cb):
        return P.mk({m: c / cb for m, c in a.t})
    # x*y / y
    if a.t and b.t and len(b.t) == 1 and b.t[0][1] == 1:
        q = a / b
        if q.isint:
            return q
    return A("tdiv", (a, b), "i")


def tmod(a, b):
    return lift(a) - lift(b) * tdiv(a, b)


def cdiv(a, b):
    """ceil(a/b) for a>=0,b>0, zero when a<=0"""
    a = lift(a)
    b = lift(b)
    return ite(le(a, 0), ZERO, tdiv(a + b - 1, b))


ODD = ("sin", "tan", "sinh", "tanh", "asinh", "asin", "atan")
EVEN = ("cos", "cosh")


def ufn(args, sort):
    """uf atom with the folds that hold for every argument representation"""
    if len(args) == 2 and isinstance(args[1], P):
        n, v = args
        if n in ODD or n in EVEN:
            if v is ZERO:
                return ZERO if n in ODD else ONE
            if fp(v) > fp(-v):
                r = A("uf", (n, -v), sort)
                return -r if n in ODD else r
        if n == "exp" and v is ZERO:
            return ONE
    return A("uf", args, sort)


def uf(name, *args, sort="r"):
    return ufn((name,) + tuple(lift(x) if isinstance(x, (int, Fraction, Atom)) else x for x in args), sort)


def sqrt(x):
    x = lift(x)
    c = x.const()
    if c is not None and c >= 0:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return lift(Fraction(rn, rd))
    return uf("sqrt", x)


def _dep(m, var):
    d = tuple((a, e) for a, e in m if var in a.fv)
    i = tuple((a, e) for a, e in m if var not in a.fv)
    return d, i


def mk_sum(n, var, body):
    n = lift(n)
    body = lift(body)
    c = n.const()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 40:
            r = ZERO
            for i in range(int(c)):
                r = r + subst(body, {var: lift(i)})
            return r
    groups = {}
    for m, co in body.t:
        d, i = _dep(m, var)
        groups[d] = groups.get(d, ZERO) + P.mk({i: co})
    r = ZERO
    nn = None
    for d, co in groups.items():
        if nn is None:
            nn = n if _sgn_easy(n) in ("pos", "nonneg") else pmax(n, ZERO)
        if d == ():
            r = r + co * nn
        elif d == ((var, 1),):
            r = r + co * nn * (nn - 1) / 2
        elif d == ((var, 2),):
            r = r + co * nn * (nn - 1) * (2 * nn - 1) / 6
        else:
            kd = kronecker(n, var, d)
            if kd is not None:
                r = r + co * kd
                continue
            b = P.mk({d: Fraction(1)})
            r = r + co * A("sum", (n, var, b), "i" if b.isint else "r")
    return r


def kronecker(n, var, d):
    """sum over var of (var == s ? v : 0) * rest  =  (0 <= s < n ? v(s) rest(s) : 0)"""
    for at, e in d:
        if at.k != "ite" or e != 1:
            continue
        c, u, v = at.a
        if v is ZERO:
            lit = c
        elif u is ZERO:
            lit, u = bnot(c), v
        else:
            continue
        for l in (lit.a if lit.k == "and" else (lit,)):
            if l.k != "eq":
                continue
            p = l.a[0]
            co = None
            for m, x in p.t:
                if any(var in y.fv for y, _ in m):
                    co = x if m == ((var, 1),) and co is None else 0
            if co not in (1, -1):
                continue
            s = -(p - lift(var) * co) / co
            if not s.isint:
                continue
            rest = P.mk({tuple((y, f) for y, f in d if y is not at): Fraction(1)}) * ite(lit, u, ZERO)
            return ite(band(ge(s), ge(n - 1 - s)), subst(rest, {var: s}), ZERO)
    return None


def mk_prod(n, var, body):
    n = lift(n)
    body = lift(body)
    c = n.const()
    if c is not None:
        if c <= 0:
            return ONE
        if c <= 40:
            r = ONE
            for i in range(int(c)):
                r = r * subst(body, {var: lift(i)})
            return r
    if body is ONE:
        return ONE
    if len(body.t) == 1 and var in body.fv:
        m, co = body.t[0]
        d, i = _dep(m, var)
        if co != 1 or i:
            return powk(P.mk({i: co}), n) * mk_prod(n, var, P.mk({d: Fraction(1)}))
    if var not in body.fv:
        return powk(body, n)
    return A("prod", (n, var, body), "i" if body.isint else "r")


def powk(b, n):
    """b ** n, n an integer term >= 0"""
    b = lift(b)
    n = lift(n)
    c = n.const()
    if c is not None and abs(c) <= 64:
        return b ** int(c)
    if b.const() == 1:
        return ONE
    return A("pow", (b, n), "i" if b.isint else "r")


def powi(b, n):
    return powk(b, n)


def firstk_at(var, cond, dec, limit=16):
    """least k with cond(k), when `dec` (a simplifier) decides the condition for all smaller k"""
    for k in range(limit):
        c = dec(subst(cond, {var: lift(k)}))
        if c is T:
            return lift(k)
        if c is not F:
            break
    return firstk(var, cond)


def firstk(var, cond):
    """least k >= 0 such that cond(k)"""
    return A("firstk", (ZERO, var, cond), "i")


# ---------------------------------------------------------------- substitution
def subst(x, mp):
    """mp: var atom -> P ; AV -> function(path, idxs)->P"""
    if not mp:
        return x
    keys = frozenset(mp)
    memo = {}

    def go(x):
        if isinstance(x, P):
            if not (x.fv & keys):
                return x
            r = memo.get(x)
            if r is None:
                r = ZERO
                for m, c in x.t:
                    q = lift(c)
                    for a, e in m:
                        if a.fv & keys:
                            q = q * (goa(a) ** e)
                        else:
                            q = q * P.mk({((a, e),): Fraction(1)})
                    r = r + q
                memo[x] = r
            return r
        if isinstance(x, B):
            if not (x.fv & keys):
                return x
            r = memo.get(x)
            if r is None:
                r = memo[x] = gob(x)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Lam):
            if not (x.fv & keys):
                return x
            return Lam(go(x.n), x.var, tuple(go(y) for y in x.body))
        if isinstance(x, Group):
            if not (x.fv & keys):
                return x
            r = memo.get(("g", x.id))
            if r is None:
                r = memo[("g", x.id)] = mk_group(x.kvar, [(ph, iv, go(i), go(s)) for ph, iv, i, s in x.comps])
            return r
        return x

    def goa(a):
        r = memo.get(a)
        if r is not None:
            return r
        k = a.k
        if k == "var":
            r = lift(mp[a]) if a in mp else lift(a)
        elif k == "sel":
            ix = tuple(go(i) for i in a.a[2])
            if a.a[0] in mp:
                r = lift(mp[a.a[0]](a.a[1], ix))
            else:
                r = sel(a.a[0], a.a[1], ix)
        elif k == "ite":
            c = go(a.a[0])
            if c is T:
                r = go(a.a[1])
            elif c is F:
                r = go(a.a[2])
            else:
                r = ite(c, go(a.a[1]), go(a.a[2]))
        elif k == "sum":
            r = mk_sum(go(a.a[0]), a.a[1], go(a.a[2]))
        elif k == "prod":
            r = mk_prod(go(a.a[0]), a.a[1], go(a.a[2]))
        elif k == "firstk":
            r = firstk(a.a[1], go(a.a[2]))
        elif k == "inv":
            r = go(a.a[0]).inv()
        elif k == "let":
            r = let(go(a.a[0]))
        elif k == "tdiv":
            r = tdiv(go(a.a[0]), go(a.a[1]))
        elif k == "pow":
            r = powk(go(a.a[0]), go(a.a[1]))
        elif k == "uf" and a.a[0] == "sqrt":
            r = sqrt(go(a.a[1]))
        elif k == "uf":
            r = ufn(tuple(go(y) for y in a.a), a.sort)
        elif k == "loop":
            r = mk_loop(go(a.a[0]), a.a[1], go(a.a[2]), go(a.a[3]))
        elif k == "npow2":
            r = npow2(go(a.a[0]))
        else:
            r = A(k, tuple(go(y) for y in a.a), a.sort)
        memo[a] = r
        return r

    def gob(b):
        k = b.k
        if k == "ge":
            return ge(go(b.a[0]))
        if k == "gt":
            return gt(go(b.a[0]))
        if k == "eq":
            return eq0(go(b.a[0]))
        if k == "not":
            return bnot(go(b.a[0]))
        if k == "and":
            return band(*[go(y) for y in b.a])
        if k == "or":
            return bor(*[go(y) for y in b.a])
        if k == "all":
            return forall(go(b.a[0]), b.a[1], go(b.a[2]))
        return B.mk(k, tuple(go(y) for y in b.a))

    return go(x)


substb = subst

GROUPS = {}
def mk_group(kvar, comps):
    key = (kvar, tuple(comps))
    g = GROUPS.get(key)
    if g is None:
        g = GROUPS[key] = Group(kvar, comps)
    return g


def mk_loop(g, ci, k, idxs):
    c = lift(k).const()
    ph, iv, init, step = g.comps[ci]
    if c is not None and c <= 0:
        return subst(init, dict(zip(iv, idxs)))
    return A("loop", (g, ci, lift(k), tuple(idxs)), ph.sort)


def npow2(n):
    c = n.const()
    if c is not None:
        r = 1
        while r < c:
            r *= 2
        return lift(r)
    return A("npow2", (n,), "i")


# ---------------------------------------------------------------- fingerprints
def fp(x, env=None):
    return _fp(x, env or {}, 0)


_FPC = {}


def _ek(x, env):
    if not env:
        return None
    f = fv_of(x)
    if not f:
        return None
    k = tuple(sorted((v.id, env[v]) for v in f if v in env))
    return k or None


def _fp(x, env, lvl):
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return Fraction(x).numerator * pow(Fraction(x).denominator, PR - 2, PR) % PR
    if isinstance(x, P):
        ek = _ek(x, env)
        if ek is None and x._fp is not None:
            return x._fp
        key = (x.id, ek)
        if ek is not None:
            r = _FPC.get(key)
            if r is not None:
                return r
        s = 0
        for m, c in x.t:
            v = c.numerator * pow(c.denominator, PR - 2, PR) % PR
            for a, e in m:
                av = _fp(a, env, lvl)
                if e < 0:
                    av = pow(av, PR - 2, PR)
                    e = -e
                v = v * pow(av, e, PR) % PR
            s = (s + v) % PR
        if ek is None:
            x._fp = s
        else:
            _FPC[key] = s
        return s
    if isinstance(x, Atom):
        ek = _ek(x, env)
        if ek is None and x._fp is not None:
            return x._fp
        if ek is not None:
            r = _FPC.get((x.id, ek))
            if r is not None:
                return r
        r = _fpa(x, env, lvl)
        if ek is None:
            x._fp = r
        else:
            _FPC[(x.id, ek)] = r
        return r
    if isinstance(x, B):
        ek = _ek(x, env)
        if ek is None and x._fp is not None:
            return x._fp
        if ek is not None:
            r = _FPC.get((x.id, ek))
            if r is not None:
                return r
        k = x.k
        if k in ("ge", "gt", "eq"):
            r = H(k, _fpcanon(x.a[0], env, lvl, k))
        elif k in ("and", "or"):
            r = H(k, tuple(sorted(_fp(y, env, lvl) for y in x.a)))
        elif k == "all":
            bv = _bv(env, x.a[2], x.a[1])
            e2 = dict(env)
            e2[x.a[1]] = bv
            r = H("all", _fp(x.a[0], env, lvl), _fp(x.a[2], e2, lvl + 1))
        else:
            r = H(k, tuple(_fp(y, env, lvl) for y in x.a))
        if ek is None:
            x._fp = r
        else:
            _FPC[(x.id, ek)] = r
        return r
    if isinstance(x, tuple):
        return H("t", tuple(_fp(y, env, lvl) for y in x))
    if isinstance(x, Lam):
        e2 = dict(env)
        e2[x.var] = _bv(env, x.body, x.var)
        return H("lam", _fp(x.n, env, lvl), tuple(_fp(y, e2, lvl + 1) for y in x.body))
    if isinstance(x, AV):
        v = env.get(x)
        if v is not None:
            return v
        return H("av", x.name)
    if isinstance(x, Group):
        return H("grp", tuple(x_colors(x, env, lvl)))
    return H("py", x)


def _bv(env, body, var):
    """value of a bound variable: depends only on the binder height of its body"""
    return H("bound", bh_of(body))


def _fpcanon(p, env, lvl, k):
    # sign-condition polynomials are canonical up to the atom ordering of this process: make the
    # fingerprint independent of scaling for eq (p and -p), exact for ge/gt
    v = _fp(p, env, lvl)
    if k == "eq":
        return min(v * v % PR, PR)
    return v


def _fpa(a, env, lvl):
    k = a.k
    if k == "var":
        v = env.get(a)
        return v if v is not None else H("var", a.a[0])
    if k == "sel":
        return H("sel", _fp(a.a[0], env, lvl), a.a[1], tuple(_fp(i, env, lvl) for i in a.a[2]))
    if k == "inv":
        v = _fp(a.a[0], env, lvl)
        return pow(v, PR - 2, PR) if v else H("inv0")
    if k == "let":
        return _fp(a.a[0], env, lvl)
    if k in ("sum", "prod", "firstk"):
        e2 = dict(env)
        e2[a.a[1]] = _bv(env, a.a[2], a.a[1])
        return H(k, _fp(a.a[0], env, lvl), _fp(a.a[2], e2, lvl + 1))
    if k == "loop":
        col = x_colors(a.a[0], env, lvl)
        return H("loop", col[a.a[1]], _fp(a.a[2], env, lvl), tuple(_fp(i, env, lvl) for i in a.a[3]))
    if k == "uf" and len(a.a) == 2 and a.a[0] in ODD + EVEN:
        # odd/even functions: the fingerprint itself is odd/even, so sign choices are immaterial
        v = _fp(a.a[1], env, lvl)
        w = min(v, (PR - v) % PR)
        if v == 0:
            return 0 if a.a[0] in ODD else 1
        h = H("uf", a.a[0], w) % PR
        return h if v == w or a.a[0] in EVEN else (PR - h) % PR
    return H(k, tuple(_fp(y, env, lvl) for y in a.a))


def x_colors(g, env, lvl):
    """bisimulation colours of the components of a simultaneous recurrence"""
    ek = _ek(g, env)
    d = g.bh
    r = g._col.get(ek)
    if r is not None:
        return r
    base = dict(env)
    inits = []
    for ph, iv, init, step in g.comps:
        e2 = dict(base)
        for j, v in enumerate(iv):
            e2[v] = H("ix", d, j)
        inits.append(_fp(init, e2, lvl + 1))
    col = [H("c0", x) for x in inits]
    for rnd in range(len(g.comps) + 2):
        new = []
        for (ph, iv, init, step), i0 in zip(g.comps, inits):
            e2 = dict(base)
            for (ph2, _, _, _), c2 in zip(g.comps, col):
                e2[ph2] = c2
            e2[g.kvar] = H("k", d)
            for j, v in enumerate(iv):
                e2[v] = H("ix", d, j)
            new.append(H("c", i0, _fp(step, e2, lvl + 1)))
        col = new
    g._col[ek] = col
    return col


def same(a, b):
    return a is b or fp(a) == fp(b)


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = a.k
    if k == "var":
        return a.a[0]
    if k == "sel":
        return "%s%s[%s]" % (a.a[0].name, "".join("." + str(p) for p in a.a[1] if p not in ("*",)), ",".join(map(str, a.a[2])))
    if k == "ite":
        return "(%s ? %s : %s)" % a.a
    if k in ("sum", "prod"):
        return "%s(%s<%s: %s)" % (k, a.a[1], a.a[0], a.a[2])
    if k == "inv":
        return "1/(%s)" % (a.a[0],)
    if k == "tdiv":
        return "(%s div %s)" % a.a
    if k == "let":
        return "{%s}" % (a.a[0],)
    if k == "loop":
        g, ci, kk, ix = a.a
        return "G%d.%d@%s%s" % (g.id, ci, kk, list(ix) if ix else "")
    if k == "uf":
        return "%s(%s)" % (a.a[0], ",".join(map(str, a.a[1:])))
    return "%s(%s)" % (k, ",".join(map(str, a.a)))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        s = "*".join((str(a) if e == 1 else "%s^%d" % (a, e)) for a, e in m)
        if not s:
            s = str(c) if c.denominator < 10 ** 6 else repr(float(c))
        elif c != 1:
            s = ("-" if c == -1 else (str(c) if c.denominator < 10 ** 6 else repr(float(c))) + "*") + s
        out.append(s)
    return (" + ".join(out)).replace("+ -", "- ")


def showb(b):
    k = b.k
    if k in "TF":
        return k
    if k == "ge":
        return "%s>=0" % b.a
    if k == "gt":
        return "%s>0" % b.a
    if k == "eq":
        return "%s==0" % b.a
    if k == "not":
        return "!(%s)" % b.a
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(map(str, b.a)) + ")"
    if k == "all":
        return "all(%s<%s: %s)" % (b.a[1], b.a[0], b.a[2])
    return "%s%s" % (k, b.a)
