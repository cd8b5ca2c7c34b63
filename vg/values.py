"""Program values of the value-graph analysis: scalars are terms (P, B); everything else is a Val
node with children; sequences are first-order templates over a bound index variable."""
from terms import *
import terms as TM


class Val:
    """kind, key (hashable skeleton), kids, bv (binder vars), nb (kids[nb:] are under bv)"""
    __slots__ = ("kind", "key", "kids", "bv", "nb", "unk")

    def __init__(self, kind, key, kids, bv=(), nb=None):
        self.kind, self.key, self.kids, self.bv = kind, key, tuple(kids), tuple(bv)
        self.nb = len(self.kids) if nb is None else nb
        self.unk = kind == "unk" or any(k.unk for k in self.kids)

    def __repr__(self):
        k = self.kind
        if k == "rec":
            return "%s{%s}" % (self.key, ", ".join(map(repr, self.kids)))
        if k == "arr":
            return "[%s]" % ", ".join(map(repr, self.kids))
        if k == "seq":
            return "[%r | %s<%r]" % (self.kids[1], self.bv[0], self.kids[0])
        if k == "ref":
            return "&%s" % (self.key,) + (str(list(self.kids)) if self.kids else "")
        return "%s%s(%s)" % (k, self.key if self.key is not None else "", ", ".join(map(repr, self.kids)))


Bot = Val("bot", None, ())
Unk = Val("unk", None, ())
Unit = Val("rec", "()", ())


def isv(v, kind):
    return isinstance(v, Val) and v.kind == kind


def Rec(name, fields):
    return Val("rec", name, fields)


def Tup(*f):
    return Val("rec", "()", f)


def Cx(re, im):
    return Val("rec", "C", (lift(re), lift(im)))


def Enum(name, d, pays):
    """pays: dict variant -> tuple of fields"""
    ks = tuple(sorted(pays))
    return Val("enum", (name, ks), (lift(d),) + tuple(Val("rec", "pay", pays[k]) for k in ks))


def pay(e, variant):
    ks = e.key[1]
    if variant in ks:
        return e.kids[1 + ks.index(variant)]
    return None


def with_pay(e, variant, rec):
    d = {k: e.kids[1 + i].kids for i, k in enumerate(e.key[1])}
    d[variant] = rec.kids
    return Enum(e.key[0], e.kids[0], d)


def Some(x):
    return Enum("Option", 1, {1: (x,)})


NONE = Enum("Option", 0, {})


def Opt(c, x):
    """Some(x) if c else None"""
    return Enum("Option", ite(c, ONE, ZERO), {1: (x,)})


def Arr(items):
    return Val("arr", None, items)


def Seq(n, var, tmpl):
    n = lift(n)
    return Val("seq", None, (n, tmpl), (var,), 1)


def mkseq(n, f, pre="#e"):
    """f: P -> Val"""
    n = lift(n)
    c = n.const()
    if c is not None and c <= 24:
        return Arr([f(lift(i)) for i in range(int(c))])
    v = fresh(pre)
    return Seq(n, v, f(lift(v)))


def Mat(r, c, f):
    i, j = fresh("#i"), fresh("#j")
    return Val("mat", None, (lift(r), lift(c), f(lift(i), lift(j))), (i, j), 2)


def mget(m, i, j):
    return subst_val(m.kids[2], {m.bv[0]: lift(i), m.bv[1]: lift(j)})


def Ref(cell, path=()):
    """path elements: ('f',i) ('v',k) ('i',P) ('s',start,len) ('m',i,j)"""
    shape = []
    kids = []
    for e in path:
        if e[0] in ("f", "v"):
            shape.append(e)
        else:
            shape.append((e[0], len(e) - 1))
            kids.extend(lift(x) for x in e[1:])
    return Val("ref", (cell, tuple(shape)), kids)


def ref_parts(r):
    cell, shape = r.key
    path = []
    i = 0
    for e in shape:
        if e[0] in ("f", "v"):
            path.append(e)
        else:
            n = e[1]
            path.append((e[0],) + r.kids[i:i + n])
            i += n
    return cell, tuple(path)


def padd(path, e):
    """append with slice normalisation"""
    if path and path[-1][0] == "s":
        _, st, ln = path[-1]
        if e[0] == "i":
            return path[:-1] + (("i", st + lift(e[1])),)
        if e[0] == "s":
            return path[:-1] + (("s", st + lift(e[1]), lift(e[2])),)
    return path + (e,)


def ISeq(n, f, ok=T, pos=ZERO, pre="k"):
    v = fresh(pre)
    return Val("iseq", None, (lift(n), lift(pos), ok if isinstance(ok, B) else ok(lift(v)), f(lift(v))), (v,), 2)


def iseq_at(it, i):
    return subst_val(it.kids[3], {it.bv[0]: lift(i)})


def iseq_ok(it, i):
    return subst(it.kids[2], {it.bv[0]: lift(i)})


def Cond(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    return Val("cond", None, (c, a, b))


def mkval(v, kids, bv=None):
    return Val(v.kind, v.key, kids, v.bv if bv is None else bv, v.nb)


_empty = {}


def subst_val(v, mp):
    if not mp:
        return v
    keys = frozenset(mp)

    def go(v):
        if isinstance(v, (P, B)):
            return subst(v, mp) if v.fv & keys else v
        if not v.kids:
            return v
        ks = tuple(go(k) for k in v.kids)
        if all(a is b for a, b in zip(ks, v.kids)):
            return v
        if v.kind == "cond":
            return Cond(*ks)
        return mkval(v, ks)
    return go(v)


def map_terms(v, f):
    """apply f to every scalar term"""
    if isinstance(v, (P, B)):
        return f(v)
    if not v.kids:
        return v
    ks = tuple(map_terms(k, f) for k in v.kids)
    if all(a is b for a, b in zip(ks, v.kids)):
        return v
    if v.kind == "cond":
        return Cond(*ks)
    return mkval(v, ks)


def fv_val(v):
    if isinstance(v, (P, B)):
        return v.fv
    r = EMPTY
    for i, k in enumerate(v.kids):
        f = fv_val(k)
        if i >= v.nb:
            f = f - frozenset(v.bv)
        r = r | f
    return r


def seqlen(v):
    if isv(v, "arr"):
        return lift(len(v.kids))
    if isv(v, "seq"):
        return v.kids[0]
    if isv(v, "mat"):
        return v.kids[0] * v.kids[1]
    return None


def seqget(v, i):
    i = lift(i)
    if v.kind == "arr":
        c = i.const()
        if c is not None:
            return v.kids[int(c)] if 0 <= c < len(v.kids) else Bot
        if not v.kids:
            return Bot
        r = v.kids[-1]
        for j in range(len(v.kids) - 2, -1, -1):
            r = merge(eq(i, j), v.kids[j], r)
        return r
    if v.kind == "seq":
        return subst_val(v.kids[1], {v.bv[0]: i})
    if v.kind == "mat":      # linear index (vectors)
        if v.kids[1].const() == 1:
            return mget(v, i, ZERO)
        if v.kids[0].const() == 1:
            return mget(v, ZERO, i)
        q = tdiv(i, v.kids[0])
        return mget(v, i - q * v.kids[0], q)
    return Unk


def toseq(v):
    if isv(v, "seq"):
        return v
    if isv(v, "arr"):
        x = fresh("#e")
        return Seq(len(v.kids), x, seqget(v, lift(x)))
    return None


def seqset(v, i, x):
    i = lift(i)
    if v.kind == "arr":
        c = i.const()
        if c is not None:
            k = list(v.kids)
            if 0 <= c < len(k):
                k[int(c)] = x
            return Arr(k)
        return Arr([merge(eq(i, j), x, y) for j, y in enumerate(v.kids)])
    if v.kind == "seq":
        e = fresh("#e")
        old = subst_val(v.kids[1], {v.bv[0]: lift(e)})
        return Seq(v.kids[0], e, merge(eq(lift(e), i), x, old))
    if v.kind == "mat":
        if v.kids[1].const() == 1:
            return Mat(v.kids[0], v.kids[1], lambda a, b: merge(eq(a, i), x, mget(v, a, b)))
        return Mat(v.kids[0], v.kids[1], lambda a, b: merge(eq(a + b * v.kids[0], i), x, mget(v, a, b)))
    return Unk


def merge(c, a, b):
    """value that is a when c, b otherwise"""
    if a is b or c is T:
        return a
    if c is F:
        return b
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if a is Bot:
        return b
    if b is Bot:
        return a
    if a is Unk or b is Unk:
        return Unk
    if isinstance(a, (P, B)) or isinstance(b, (P, B)):
        return Cond(c, a, b)
    if a.kind == b.kind:
        k = a.kind
        if k == "enum" and a.key[0] == b.key[0]:
            d = {}
            for i, v in enumerate(a.key[1]):
                d[v] = a.kids[1 + i].kids
            for i, v in enumerate(b.key[1]):
                if v in d:
                    d[v] = tuple(merge(c, x, y) for x, y in zip(d[v], b.kids[1 + i].kids))
                else:
                    d[v] = b.kids[1 + i].kids
            return Enum(a.key[0], ite(c, a.kids[0], b.kids[0]), d)
        if k == "arr":
            if len(a.kids) == len(b.kids):
                return Arr([merge(c, x, y) for x, y in zip(a.kids, b.kids)])
            return merge(c, toseq(a), toseq(b))
        if a.key == b.key and len(a.kids) == len(b.kids) and k != "cond":
            bv = a.bv
            bk = b.kids
            if a.bv:
                bv = tuple(fresh("#e") for _ in a.bv)
                ma = {x: lift(y) for x, y in zip(a.bv, bv)}
                mb = {x: lift(y) for x, y in zip(b.bv, bv)}
                ak = tuple(subst_val(x, ma) if i >= a.nb else x for i, x in enumerate(a.kids))
                bk = tuple(subst_val(x, mb) if i >= b.nb else x for i, x in enumerate(b.kids))
            else:
                ak = a.kids
            return Val(k, a.key, tuple(merge(c, x, y) for x, y in zip(ak, bk)), bv, a.nb)
    if {a.kind, b.kind} == {"arr", "seq"}:
        return merge(c, toseq(a), toseq(b))
    return Cond(c, a, b)


# ---------------------------------------------------------------- leaves and skeletons
def skeleton(v):
    if isinstance(v, P):
        return "P"
    if isinstance(v, B):
        return "B"
    return (v.kind, v.key, tuple(skeleton(k) for k in v.kids))


def leaves(v, binders=(), out=None):
    """list of (binders, term)"""
    if out is None:
        out = []
    if isinstance(v, (P, B)):
        out.append((binders, v))
        return out
    for i, k in enumerate(v.kids):
        leaves(k, binders + (v.bv if i >= v.nb else ()), out)
    return out


def binder_lens(v, out=None):
    """bound index variable -> the length term of its sequence / matrix dimension"""
    if out is None:
        out = {}
    if isinstance(v, (P, B)):
        return out
    if v.kind == "seq":
        out[v.bv[0]] = v.kids[0]
    elif v.kind == "mat":
        out[v.bv[0]], out[v.bv[1]] = v.kids[0], v.kids[1]
    for k in v.kids:
        binder_lens(k, out)
    return out


def rebuild(v, it):
    """replace leaves, in leaves() order, by the iterator's terms"""
    if isinstance(v, (P, B)):
        return next(it)
    if not v.kids:
        return v
    ks = tuple(rebuild(k, it) for k in v.kids)
    return mkval(v, ks)


BOTP = V("bot!", "r")
BOTB = B.mk("buf", ("bot!",))


def conform(v, u, binders=()):
    """leaves of v laid out on skeleton u (binder vars renamed to u's); None if impossible"""
    out = []

    def fill(u):
        if isinstance(u, P):
            out.append(BOTP)
        elif isinstance(u, B):
            out.append(BOTB)
        else:
            for k in u.kids:
                fill(k)

    def go(v, u):
        if isinstance(u, P):
            if isinstance(v, P):
                out.append(v)
                return True
            if v is Bot:
                out.append(BOTP)
                return True
            return False
        if isinstance(u, B):
            if isinstance(v, B):
                out.append(v)
                return True
            if v is Bot:
                out.append(BOTB)
                return True
            return False
        if v is Bot:
            fill(u)
            return True
        if isinstance(v, (P, B)):
            return False
        if u.kind == "seq" and v.kind == "arr":
            v = toseq(v)
        if u.kind == "bot" or u.kind == "unk":
            return v.kind == u.kind
        if v.kind != u.kind:
            return False
        if u.kind == "enum":
            if v.key[0] != u.key[0]:
                return False
            if not go(v.kids[0], u.kids[0]):
                return False
            for i, k in enumerate(u.key[1]):
                p = pay(v, k)
                if p is None:
                    fill(u.kids[1 + i])
                elif not go(p, u.kids[1 + i]):
                    return False
            return all(k in u.key[1] for k in v.key[1])
        if v.key != u.key or len(v.kids) != len(u.kids):
            return False
        mp = {x: lift(y) for x, y in zip(v.bv, u.bv)}
        for i, (a, b) in enumerate(zip(v.kids, u.kids)):
            if i >= v.nb and mp:
                a = subst_val(a, mp)
            if not go(a, b):
                return False
        return True
    if go(v, u):
        return out
    return None


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (P, B)) or isinstance(b, (P, B)):
        return type(a) is type(b) and same(a, b)
    if a.kind != b.kind or a.key != b.key or len(a.kids) != len(b.kids):
        return False
    if a.bv:
        bv = [fresh("q") for _ in a.bv]
        ma = {x: lift(y) for x, y in zip(a.bv, bv)}
        mb = {x: lift(y) for x, y in zip(b.bv, bv)}
        return all(same_val(subst_val(x, ma) if i >= a.nb else x, subst_val(y, mb) if i >= a.nb else y)
                   for i, (x, y) in enumerate(zip(a.kids, b.kids)))
    return all(same_val(x, y) for x, y in zip(a.kids, b.kids))
