"""Meaning of the external operations the crate uses (core/alloc iterators and slices, num-traits,
num-complex, nalgebra, rustfft, ndarray), as value-graph transformers.  Anything not listed is
unknown: it taints its result, and never contributes to a verdict."""
import json
from terms import *
import terms as TM
from facts import decide, simp
from values import *
import interp as I_
from interp import (Diverge, Giveup, require, branch, merge_states, is_int, is_real, is_cx, derefty, INTS, inrange, PI, trunc, fconst, St, clen)
from loops import summarize

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


class Call:
    __slots__ = ("I", "st", "ft", "a", "at", "dty", "name", "path")


UNCHECKED = ("get_unchecked", "get_unchecked_mut", "unwrap_unchecked")


def unchecked(c, b):
    """an unchecked operation: undefined behaviour unless b.  No condition of returning, except where C01 asks"""
    if c.I.strict:
        require(c.st, b)


def call_model(I, st, ft, args, at, dty):
    n = ft["n"]
    r = ft.get("r")
    name = n.rsplit("::", 1)[-1]
    c = Call()
    c.I, c.st, c.ft, c.a, c.at, c.dty, c.name, c.path = I, st, ft, args, at, dty, name, n
    f = M.get(name)
    if ft.get("unsafe"):
        (I.unsafe_seen if name in UNCHECKED and f is not None else I.unsafe_unk).add("%s: %s" % (I.site, n))
    if f is not None:
        v = f(c)
        if v is not NotImplemented:
            return v
    I.unkcalls[n] = I.unkcalls.get(n, 0) + 1
    I.note("unmodelled call " + n)
    for a in args:
        I.havoc(st, a)
    return Unk


def assoc_const(I, o, t):
    d = o["def"].rsplit("::", 1)[-1]
    if d == "EPSILON":
        return uf("eps")
    if d in ("MAX", "MIN") and is_int(t):
        lo, hi = INTS[t["n"]]
        return lift(hi if d == "MAX" else lo)
    if d == "ALIGN":
        return lift(8)
    I.note("unmodelled constant " + o["def"])
    return Unk


def setst(st, o):
    st.mem, st.pc, st.taint, st._f = o.mem, o.pc, o.taint, None


def ordering(a, b):
    """Ordering value: variant index 0 less, 1 equal, 2 greater"""
    return Enum("Ordering", ite(lt(a, b), ZERO, ite(eq(a, b), ONE, lift(2))), {})


def ity(c, i=0):
    """scalar type of argument i through references"""
    if i < len(c.at) and c.at[i] is not None:
        return derefty(c.at[i])
    if c.ft["a"]:
        return derefty(c.ft["a"][0])
    return {"k": "param", "n": "?"}


def dv(c, i):
    return c.I.deref(c.st, c.a[i])


def lastref(c, v):
    """the innermost reference (pointing at a non-reference)"""
    I, st = c.I, c.st
    for _ in range(12):
        if not isv(v, "ref") and not (isv(v, "cond") and isv(v.kids[1], "ref")):
            return None
        w = I.read(st, v)
        if isv(w, "ref") or (isv(w, "cond") and isv(w.kids[1], "ref")):
            v = w
        else:
            return v
    return None


# ---------------------------------------------------------------- arithmetic
def iscx(v):
    return isv(v, "rec") and v.key == "C" and len(v.kids) == 2 and isinstance(v.kids[0], P) and isinstance(v.kids[1], P)


def cxmul(a, b):
    (x, y), (u, v) = a.kids, b.kids
    return Cx(x * u - y * v, x * v + y * u)


def cxdiv(a, b):
    (x, y), (u, v) = a.kids, b.kids
    if v is ZERO:
        return Cx(x / u, y / u)
    d = (u * u + v * v).inv()
    return Cx((x * u + y * v) * d, (y * u - x * v) * d)


def arith(op, a, b, t, st):
    if isv(a, "cond"):
        return merge(a.kids[0], arith(op, a.kids[1], b, t, st), arith(op, a.kids[2], b, t, st))
    if isv(b, "cond"):
        return merge(b.kids[0], arith(op, a, b.kids[1], t, st), arith(op, a, b.kids[2], t, st))
    if isinstance(a, P) and isinstance(b, P):
        if op == "add":
            return a + b
        if op == "sub":
            if t["k"] == "uint" and st is not None:
                require(st, ge(a - b))
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            if is_int(t):
                if st is not None:
                    require(st, bnot(eq(b, 0)))
                return tdiv(a, b)
            return a / b
        if op == "rem":
            if is_int(t):
                if st is not None:
                    require(st, bnot(eq(b, 0)))
                return tmod(a, b)
            return uf("fmod", a, b)
    if isinstance(a, B) and isinstance(b, B):
        if op == "bitand":
            return band(a, b)
        if op == "bitor":
            return bor(a, b)
    if op == "bitand" and isinstance(a, P) and isinstance(b, P) and (b.const() == 1 or a.const() == 1):
        return tmod(a if b.const() == 1 else b, lift(2))
    if iscx(a) or iscx(b):
        if isinstance(a, P):
            a = Cx(a, 0)
        if isinstance(b, P):
            if op == "mul":
                return Cx(a.kids[0] * b, a.kids[1] * b)
            if op == "div":
                return Cx(a.kids[0] / b, a.kids[1] / b)
            b = Cx(b, 0)
        if iscx(a) and iscx(b):
            if op == "add":
                return Cx(a.kids[0] + b.kids[0], a.kids[1] + b.kids[1])
            if op == "sub":
                return Cx(a.kids[0] - b.kids[0], a.kids[1] - b.kids[1])
            if op == "mul":
                return cxmul(a, b)
            if op == "div":
                return cxdiv(a, b)
    if isv(a, "mat") and isv(b, "mat") and op in ("add", "sub"):
        if st is not None:
            require(st, band(eq(a.kids[0], b.kids[0]), eq(a.kids[1], b.kids[1])))
        return Mat(a.kids[0], a.kids[1], lambda i, j: arith(op, mget(a, i, j), mget(b, i, j), t, None))
    if isv(a, "mat") and isv(b, "mat") and op == "mul":
        if st is not None:
            require(st, eq(a.kids[1], b.kids[0]))

        def f(i, j):
            k = fresh("#m")
            e = arith("mul", mget(a, i, lift(k)), mget(b, lift(k), j), t, None)
            return sumval(a.kids[1], k, e)
        return Mat(a.kids[0], b.kids[1], f)
    if isv(a, "mat") and isinstance(b, P) and op in ("mul", "div"):
        return Mat(a.kids[0], a.kids[1], lambda i, j: arith(op, mget(a, i, j), b, t, None))
    return Unk


def sumval(n, k, e):
    if isinstance(e, P):
        return mk_sum(n, k, e)
    if iscx(e):
        return Cx(mk_sum(n, k, e.kids[0]), mk_sum(n, k, e.kids[1]))
    return Unk


def fits(c, op, v):
    t = ity(c)
    if c.I.widths and isinstance(v, P) and op in ("add", "sub", "mul") and t.get("n") in INTS:
        require(c.st, inrange(v, t["n"]))
    return v


@model("add", "sub", "mul", "div", "rem", "bitand", "bitor")
def _(c):
    return fits(c, c.name, arith(c.name, dv(c, 0), dv(c, 1), ity(c), c.st))


@model("add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign")
def _(c):
    r = lastref(c, c.a[0])
    v = fits(c, c.name[:-7], arith(c.name[:-7], dv(c, 0), dv(c, 1), ity(c), c.st))
    if r is None:
        return NotImplemented
    c.I.write(c.st, r, v)
    return Unit


@model("neg")
def _(c):
    v = dv(c, 0)
    if isinstance(v, P):
        return -v
    if iscx(v):
        return Cx(-v.kids[0], -v.kids[1])
    if isv(v, "mat"):
        return Mat(v.kids[0], v.kids[1], lambda i, j: arith("sub", Cx(0, 0) if iscx(mget(v, i, j)) else ZERO, mget(v, i, j), ity(c), None))
    return Unk


@model("not")
def _(c):
    v = dv(c, 0)
    return bnot(v) if isinstance(v, B) else Unk


def selfty(c):
    if c.ft["a"]:
        return c.ft["a"][0]
    return c.dty


def zero_of(t):
    t = derefty(t) if t else {"k": "param", "n": "?"}
    if is_cx(t):
        return Cx(0, 0)
    return ZERO


@model("zero")
def _(c):
    return zero_of(c.dty or selfty(c))


@model("one")
def _(c):
    t = c.dty or selfty(c)
    return Cx(1, 0) if is_cx(t) else ONE


@model("is_zero")
def _(c):
    v = dv(c, 0)
    if isinstance(v, P):
        return eq(v, 0)
    if iscx(v):
        return band(eq(v.kids[0], 0), eq(v.kids[1], 0))
    return Unk


@model("is_one")
def _(c):
    v = dv(c, 0)
    if isinstance(v, P):
        return eq(v, 1)
    return Unk


@model("set_zero", "set_one")
def _(c):
    c.I.write(c.st, c.a[0], ZERO if c.name == "set_zero" else ONE)
    return Unit


@model("from", "from_usize", "from_u8", "from_u16", "from_u32", "from_u64", "from_u128", "from_i32", "from_i64", "from_isize", "from_f32", "from_f64", "to_usize", "to_f64", "to_f32",
       "to_u64", "to_u128", "to_u32", "to_i32", "to_i64", "to_isize", "to_u8", "to_u16", "to_i8", "to_i16", "to_i128", "from_i8", "from_i16", "from_i128")
def _(c):
    v = dv(c, 0)
    opt = True
    n = c.name
    if n == "from":
        d = c.dty
        if d is None and "convert::From" in c.path:
            d = selfty(c)
        opt = (d is not None and d["k"] == "adt" and d["n"].endswith("Option")) or (d is None and "NumCast" in c.path)
        if not opt and isv(v, "arr") or isv(v, "seq"):
            return v
        tgt = (d["a"][0] if d is not None and opt and d["a"] else d if d is not None else selfty(c)) or {"k": "param", "n": "?"}
    elif n.startswith("from_"):
        d = c.dty
        tgt = (d["a"][0] if d and d["k"] == "adt" and d["a"] else selfty(c)) or {"k": "param", "n": "?"}
    else:
        s = n[3:]
        tgt = {"k": "float" if s[0] == "f" else "uint" if s[0] == "u" else "int", "n": s}
    if isinstance(v, B):
        v = b2i(v)
    if not isinstance(v, P):
        return Unk if not opt else Enum("Option", unknown("opt", "i"), {1: (Unk,)})
    if is_int(tgt):
        lo, hi = INTS[tgt["n"]]
        x = trunc(v)
        # the conversion fails outside the target's range
        ok = T
        if lo == 0:
            ok = band(ok, gt(v + 1) if not v.isint else ge(v))
        src = derefty(c.at[0]) if c.at and c.at[0] else None
        shi = INTS[src["n"]][1] if src and src["k"] in ("int", "uint") else None
        if shi is not None and shi > hi:
            ok = band(ok, le(v, hi))
        if shi is not None and lo and INTS[src["n"]][0] < lo:
            ok = band(ok, ge(v - lo))
        return Opt(ok, x) if opt else x
    if is_cx(tgt):
        v = Cx(v, 0)
    return Some(v) if opt else v


@model("into", "from_real", "try_into")
def _(c):
    d = c.dty
    v = dv(c, 0) if not (isv(c.a[0], "ref") and d and d["k"] == "ref") else c.a[0]
    if c.name == "try_into":
        return Unk
    if d is not None and is_cx(d) and isinstance(v, P):
        return Cx(v, 0)
    return v


def un(name):
    def f(c):
        v = dv(c, 0)
        if isv(v, "cond"):
            return Unk
        if isinstance(v, P):
            return scalar_un(name, v)
        if iscx(v):
            return cx_un(name, v)
        return Unk
    return f


def scalar_un(name, v):
    if name == "sqrt":
        return sqrt(v)
    if name == "abs":
        return pabs(v)
    if name in ("conj", "conjugate", "real", "re"):
        return v
    if name in ("imaginary", "im"):
        return ZERO
    if name in ("recip", "inv"):
        return v.inv()
    if name == "signum":
        return ite(ge(v), ONE, lift(-1))
    if name == "norm_sqr":
        return v * v
    if name in ("norm", "modulus"):
        return pabs(v)
    if name in ("floor", "ceil", "round", "trunc") and v.isint:
        return v
    if name == "cos" and v.t and v is PI / 2:
        return ZERO
    return uf(name, v, sort="i" if name in ("floor", "ceil", "round", "trunc") else "r")


def cx_un(name, z):
    x, y = z.kids
    if name == "sqrt":
        if y is ZERO and x.const() is not None and x.const() >= 0:
            return Cx(sqrt(x), 0)
        return Cx(uf("csqrt_re", x, y), uf("csqrt_im", x, y))
    if name in ("conj", "conjugate"):
        return Cx(x, -y)
    if name in ("real", "re"):
        return x
    if name in ("imaginary", "im"):
        return y
    if name in ("abs", "norm", "modulus"):
        return sqrt(x * x + y * y)
    if name in ("norm_sqr", "modulus_squared"):
        return x * x + y * y
    if name == "exp":
        e = scalar_un("exp", x)
        return Cx(e * scalar_un("cos", y), e * scalar_un("sin", y))
    if name == "sinh":
        return Cx(scalar_un("sinh", x) * scalar_un("cos", y), scalar_un("cosh", x) * scalar_un("sin", y))
    if name == "cosh":
        return Cx(scalar_un("cosh", x) * scalar_un("cos", y), scalar_un("sinh", x) * scalar_un("sin", y))
    if name in ("inv", "recip", "finv"):
        return cxdiv(Cx(1, 0), z)
    if name in ("arg", "argument"):
        return uf("atan2", y, x)
    return Unk


for _n in ("sqrt", "abs", "conj", "conjugate", "real", "imaginary", "recip", "signum", "norm_sqr", "norm", "modulus", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asinh", "exp",
           "ln", "log10", "log2", "floor", "ceil", "round", "trunc", "inv", "finv", "asin", "acos", "atan", "arg", "cbrt", "exp2", "exp_m1", "ln_1p", "acosh", "atanh", "modulus_squared", "argument"):
    M[_n] = un(_n)


def cxpow(z, n):
    c = n.const()
    if c is not None and abs(c) <= 16:
        r = Cx(1, 0)
        for _ in range(abs(int(c))):
            r = cxmul(r, z)
        return r if c >= 0 else cxdiv(Cx(1, 0), r)
    return Cx(uf("cpow_re", z.kids[0], z.kids[1], n), uf("cpow_im", z.kids[0], z.kids[1], n))


@model("powi", "powf", "pow", "powu")
def _(c):
    b, e = dv(c, 0), dv(c, 1)
    if not isinstance(e, P):
        return Unk
    if iscx(b):
        return cxpow(b, e)
    if isinstance(b, P):
        k = e.const()
        if k is not None and k.denominator == 1 and abs(k) <= 64:
            return fits(c, "mul", b ** int(k))
        if k is not None and k == Fraction(1, 2):
            return sqrt(b)
        if e.isint:
            return fits(c, "mul", powk(b, e))
        return uf("powf", b, e)
    return Unk


@model("mul_add")
def _(c):
    return arith("add", arith("mul", dv(c, 0), dv(c, 1), ity(c), None), dv(c, 2), ity(c), None)


@model("i0", "i0e")
def _(c):
    """the trait method on a generic element"""
    a = dv(c, 0)
    return uf("bessel_" + c.name, a) if isinstance(a, P) else Unk


@model("hypot")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    return sqrt(a * a + b * b) if isinstance(a, P) and isinstance(b, P) else Unk


@model("pi", "two_pi", "frac_pi_2", "epsilon", "PI", "default_epsilon")
def _(c):
    return {"pi": PI, "PI": PI, "two_pi": PI * 2, "frac_pi_2": PI / 2, "epsilon": uf("eps"), "default_epsilon": uf("eps")}[c.name]


@model("i")
def _(c):
    return Cx(0, 1)


@model("infinity", "nan", "neg_infinity")
def _(c):
    return uf("inf") if c.name == "infinity" else -uf("inf") if c.name == "neg_infinity" else uf("nan")


@model("max_value", "min_value")
def _(c):
    t = c.dty
    if t and is_int(t):
        return lift(INTS[t["n"]][1 if c.name == "max_value" else 0])
    return uf("realmax") if c.name == "max_value" else -uf("realmax")


@model("is_nan", "is_infinite")
def _(c):
    return F


@model("is_finite")
def _(c):
    return T


@model("is_sign_negative", "is_negative")
def _(c):
    v = dv(c, 0)
    return lt(v, 0) if isinstance(v, P) else Unk


@model("is_sign_positive", "is_positive")
def _(c):
    v = dv(c, 0)
    return (ge(v) if c.name == "is_sign_positive" else gt(v)) if isinstance(v, P) else Unk


# ---------------------------------------------------------------- comparison
def veq(I, st, a, b):
    a, b = I.deref(st, a), I.deref(st, b)
    if isinstance(a, P) and isinstance(b, P):
        return eq(a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if isinstance(a, Val) and isinstance(b, Val):
        if a.kind == b.kind == "rec" and len(a.kids) == len(b.kids):
            rs = [veq(I, st, x, y) for x, y in zip(a.kids, b.kids)]
            return None if any(r is None for r in rs) else band(*rs)
        if a.kind == b.kind == "enum":
            r = eq(a.kids[0], b.kids[0])
            for k in a.key[1]:
                p, q = pay(a, k), pay(b, k)
                if q is None or p is None or not p.kids:
                    continue
                e = veq(I, st, p, q)
                if e is None:
                    return None
                r = band(r, implies(eq(a.kids[0], k), e))
            return r
        if a.kind == b.kind == "str":
            return T if a.key == b.key else F
        if a.kind in ("arr", "seq") and b.kind in ("arr", "seq"):
            na, nb = seqlen(a), seqlen(b)
            if a.kind == b.kind == "arr":
                if len(a.kids) != len(b.kids):
                    return F
                rs = [veq(I, st, x, y) for x, y in zip(a.kids, b.kids)]
                return None if any(r is None for r in rs) else band(*rs)
            v = fresh("#q")
            e = veq(I, st, seqget(a, lift(v)), seqget(b, lift(v)))
            return None if e is None else band(eq(na, nb), forall(na, v, e))
    return None


@model("eq", "ne")
def _(c):
    r = veq(c.I, c.st, c.a[0], c.a[1])
    if r is None:
        return Unk
    return r if c.name == "eq" else bnot(r)


@model("lt", "le", "gt", "ge")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if isinstance(a, P) and isinstance(b, P):
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[c.name]
    if isv(a, "enum") and isv(b, "enum") and len(a.kids) == len(b.kids) == 1:
        a, b = a.kids[0], b.kids[0]
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[c.name]
    return Unk


@model("partial_cmp", "cmp", "total_cmp")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if isinstance(a, P) and isinstance(b, P):
        o = ordering(a, b)
        return Some(o) if c.name == "partial_cmp" else o
    return Unk if c.name != "partial_cmp" else Enum("Option", unknown("opt", "i"), {1: (Unk,)})


@model("then", "then_with", "reverse_ord")
def _(c):
    a = dv(c, 0)
    if isv(a, "enum") and a.key[0] == "Ordering":
        b = dv(c, 1)
        if c.name == "then" and isv(b, "enum"):
            return merge(eq(a.kids[0], 1), b, a)
        if c.name == "then_with":
            s2 = c.st.copy()
            v = c.I.call_value(c.a[1], [], s2)
            return merge(eq(a.kids[0], 1), v, a)
    if isinstance(a, B) and c.name == "then":
        return NotImplemented
    return NotImplemented


@model("is_lt", "is_gt", "is_eq", "is_ne", "is_le", "is_ge")
def _(c):
    a = dv(c, 0)
    if isv(a, "enum") and a.key[0] == "Ordering":
        d = a.kids[0] - 1
        return {"is_lt": lt(d, 0), "is_gt": lt(0, d), "is_eq": eq(d, 0), "is_ne": bnot(eq(d, 0)), "is_le": le(d, 0), "is_ge": ge(d)}[c.name]
    return Unk


@model("max", "min")
def _(c):
    if len(c.a) == 1:
        return it_minmax(c)
    a, b = dv(c, 0), dv(c, 1)
    if isinstance(a, P) and isinstance(b, P):
        return pmax(a, b) if c.name == "max" else pmin(a, b)
    return Unk


@model("clamp")
def _(c):
    a, lo, hi = dv(c, 0), dv(c, 1), dv(c, 2)
    if all(isinstance(x, P) for x in (a, lo, hi)):
        return pmin(pmax(a, lo), hi)
    return Unk


# integers
@model("next_power_of_two")
def _(c):
    v = dv(c, 0)
    return npow2(v) if isinstance(v, P) else Unk


@model("is_power_of_two")
def _(c):
    v = dv(c, 0)
    return band(gt(v), eq(npow2(v), v)) if isinstance(v, P) else Unk


@model("sin_cos")
def _(c):
    v = dv(c, 0)
    return Tup(scalar_un("sin", v), scalar_un("cos", v)) if isinstance(v, P) else Unk


@model("scale", "unscale")
def _(c):
    z, t = dv(c, 0), dv(c, 1)
    if not isinstance(t, P):
        return Unk
    if c.name == "unscale":
        t = t.inv()
    if isinstance(z, P):
        return z * t
    if isv(z, "cx"):
        return Cx(z.kids[0] * t, z.kids[1] * t)
    return Unk


@model("saturating_sub")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if isinstance(a, P) and isinstance(b, P):
        return pmax(a - b, ZERO) if ity(c)["k"] == "uint" else a - b
    return Unk


@model("saturating_add", "wrapping_add")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    return a + b if isinstance(a, P) and isinstance(b, P) else Unk


@model("wrapping_mul", "saturating_mul")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    return a * b if isinstance(a, P) and isinstance(b, P) else Unk


@model("wrapping_sub")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if isinstance(a, P) and isinstance(b, P):
        if ity(c)["k"] == "uint":
            d = c.st.decide(ge(a - b))
            return a - b if d is True else ite(ge(a - b), a - b, uf("wrapneg", a - b, sort="i"))
        return a - b
    return Unk


@model("checked_add", "checked_sub", "checked_mul", "checked_div")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if not (isinstance(a, P) and isinstance(b, P)):
        return Unk
    t = ity(c)
    if c.name == "checked_div":
        return Opt(bnot(eq(b, 0)), tdiv(a, b))
    if c.name == "checked_sub":
        return Opt(ge(a - b) if t["k"] == "uint" else T, a - b)
    return Some(a + b if c.name == "checked_add" else a * b)


@model("abs_diff")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    return pabs(a - b) if isinstance(a, P) and isinstance(b, P) else Unk


@model("div_ceil")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    return tdiv(a + b - 1, b) if isinstance(a, P) and isinstance(b, P) else Unk


@model("div_euclid", "rem_euclid", "is_even", "is_odd", "is_multiple_of")
def _(c):
    a = dv(c, 0)
    if not isinstance(a, P):
        return Unk
    if c.name in ("is_even", "is_odd"):
        e = eq(tmod(a, lift(2)), 0)
        return e if c.name == "is_even" else bnot(e)
    b = dv(c, 1)
    if not isinstance(b, P):
        return Unk
    if is_int(ity(c)) and ity(c)["k"] == "uint":
        return tdiv(a, b) if c.name == "div_euclid" else tmod(a, b) if c.name == "rem_euclid" else eq(tmod(a, b), 0)
    return Unk


# ---------------------------------------------------------------- complex construction
@model("new")
def _(c):
    p = c.path
    if "Complex" in p:
        a, b = dv(c, 0), dv(c, 1)
        return Cx(a, b) if isinstance(a, P) and isinstance(b, P) else Unk
    if "Vec" in p:
        return Arr(())
    if "RangeInclusive" in p:
        return Rec("RangeInclusive", (c.a[0], c.a[1]))
    if "FftPlanner" in p:
        return Rec("FftPlanner", ())
    if "Arguments" in p:
        return Unit
    if "Box" in p:
        return Ref(c.I.newcell(c.st, c.a[0]))
    return NotImplemented


@model("from_str", "new_display", "new_debug", "new_const", "new_v1")
def _(c):
    return Unit


@model("with_capacity")
def _(c):
    return Arr(())


@model("default")
def _(c):
    t = c.dty
    return default_of(t)


def default_of(t):
    if t is None:
        return Unk
    if t["k"] == "tuple":
        return Rec("()", [default_of(x) for x in t["a"]])
    if is_int(t) or is_real(t):
        return ZERO
    if is_cx(t):
        return Cx(0, 0)
    if t["k"] == "bool":
        return F
    if t["k"] == "adt":
        n = t["n"].split("::")[-1]
        if n == "Vec":
            return Arr(())
        if n == "Option":
            return NONE
    return Unk


@model("new_uninit")
def _(c):
    cell = c.I.newcell(c.st, Bot)
    c.I.raw.add(cell)
    return Ref(cell)


@model("box_assume_init_into_vec_unsafe", "into_vec", "write_box_via_move", "assume_init")
def _(c):
    return c.I.read(c.st, c.a[0]) if isv(c.a[0], "ref") else c.a[0]


# ---------------------------------------------------------------- references
@model("borrow", "as_ref", "as_slice", "as_mut_slice", "deref", "deref_mut", "borrow_mut", "as_mut", "by_ref", "as_deref")
def _(c):
    v = c.a[0]
    d = c.dty
    if c.name in ("as_ref", "as_mut"):
        x = c.I.deref(c.st, v)
        if isv(x, "enum") and x.key[0] == "Option":
            r = lastref(c, v)
            return Enum("Option", x.kids[0], {1: (c.I.ext(r, ("v", 1), ("f", 0)),)})
    if c.name in ("borrow", "borrow_mut", "as_ref", "as_mut") and isv(v, "ref"):
        # Borrow<T> for &T etc: strip extra reference layers so that a plain &T results
        w = c.I.read(c.st, v)
        n = 0
        while isv(w, "ref") and n < 6:
            v, w = w, c.I.read(c.st, w)
            n += 1
        return v
    return v


@model("clone", "to_owned", "cloned_val")
def _(c):
    v = c.a[0]
    if isv(v, "ref"):
        w = c.I.read(c.st, v)
        t = derefty1(c.at[0]) if c.at and c.at[0] else None
        if t is not None and t["k"] == "ref":
            return w
        return w
    return v


def derefty1(t):
    return t["e"] if t["k"] in ("ref", "ptr") else t


@model("drop", "forget")
def _(c):
    return Unit


@model("swap")
def _(c):
    I, st = c.I, c.st
    if len(c.a) == 2:
        a, b = I.read(st, c.a[0]), I.read(st, c.a[1])
        I.write(st, c.a[0], b)
        I.write(st, c.a[1], a)
        return Unit
    r = lastref(c, c.a[0])
    n = I.reflen(st, r)
    i, j = c.a[1], c.a[2]
    if n is None or not isinstance(i, P) or not isinstance(j, P):
        return NotImplemented
    require(st, band(ge(i), lt(i, n), ge(j), lt(j, n)))
    ri, rj = I.ext(r, ("i", i)), I.ext(r, ("i", j))
    a, b = I.read(st, ri), I.read(st, rj)
    I.write(st, ri, b)
    I.write(st, rj, a)
    return Unit


@model("replace", "take_val")
def _(c):
    if isv(c.a[0], "ref") and len(c.a) == 2:
        o = c.I.read(c.st, c.a[0])
        c.I.write(c.st, c.a[0], c.a[1])
        return o
    return NotImplemented


# ---------------------------------------------------------------- Option / Result
def optional(v):
    return isv(v, "enum") and v.key[0] in ("Option", "Result")


def somevar(v):
    return 1 if v.key[0] == "Option" else 0


def is_some(v):
    return eq(v.kids[0], somevar(v))


def payload(v):
    p = pay(v, somevar(v))
    return p.kids[0] if p is not None and p.kids else Bot


@model("unwrap", "expect", "unwrap_unchecked", "unwrap_or_default")
def _(c):
    v = c.a[0]
    if isv(v, "cond"):
        v = push_cond(v)
    if not optional(v):
        return Unk
    if c.name == "unwrap_or_default":
        return merge(is_some(v), payload(v), default_of(c.dty))
    (unchecked if c.name == "unwrap_unchecked" else lambda c, b: require(c.st, b))(c, is_some(v))
    return payload(v)


def push_cond(v):
    return v


@model("is_none", "is_some", "is_ok", "is_err")
def _(c):
    v = dv(c, 0)
    if not optional(v):
        return Unk
    s = is_some(v)
    return s if c.name in ("is_some", "is_ok") else bnot(s)


@model("unwrap_or", "unwrap_or_else")
def _(c):
    v = c.a[0]
    if not optional(v):
        return Unk
    if c.name == "unwrap_or":
        return merge(is_some(v), payload(v), c.a[1])
    return cases(c, is_some(v), lambda s: payload(v), lambda s: c.I.call_value(c.a[1], [], s))


def cases(c, cond, f, g):
    """if cond {f} else {g} with effects"""
    return cases_st(c.I, c.st, cond, f, g)


def cases_st(I, st, cond, f, g):
    a, b = branch(st, cond)
    if b is None:
        return f(st)
    if a is None:
        return g(st)
    outs = []
    cell = None
    for s, h in ((a, f), (b, g)):
        try:
            v = h(s)
        except Diverge:
            continue
        if cell is None:
            cell = I.newcell(s, v)
        else:
            s.mem[cell] = v
        outs.append(s)
    if not outs:
        raise Diverge()
    m = merge_states(outs)
    setst(st, m)
    return st.mem.pop(cell)


@model("ok_or", "ok", "ok_or_else")
def _(c):
    v = c.a[0]
    if not optional(v):
        return Unk
    if c.name == "ok":
        return Enum("Option", ite(is_some(v), ONE, ZERO), {1: (payload(v),)})
    e = c.a[1] if c.name == "ok_or" else Unk
    return Enum("Result", ite(is_some(v), ZERO, ONE), {0: (payload(v),), 1: (e,)})


@model("and_then", "or_else", "or", "map_or", "map_or_else", "is_some_and", "is_none_or")
def _(c):
    v = c.a[0]
    if isv(v, "enum") and v.key[0] == "Option":
        I = c.I
        s = is_some(v)
        if c.name == "and_then":
            return cases(c, s, lambda st: I.call_value(c.a[1], [payload(v)], st), lambda st: NONE)
        if c.name == "or_else":
            return cases(c, s, lambda st: v, lambda st: I.call_value(c.a[1], [], st))
        if c.name == "or":
            return merge(s, v, c.a[1])
        if c.name == "map_or":
            return cases(c, s, lambda st: I.call_value(c.a[2], [payload(v)], st), lambda st: c.a[1])
        if c.name == "map_or_else":
            return cases(c, s, lambda st: I.call_value(c.a[2], [payload(v)], st), lambda st: I.call_value(c.a[1], [], st))
        if c.name == "is_some_and":
            return cases(c, s, lambda st: I.call_value(c.a[1], [payload(v)], st), lambda st: F)
        if c.name == "is_none_or":
            return cases(c, s, lambda st: I.call_value(c.a[1], [payload(v)], st), lambda st: T)
    return NotImplemented


@model("then_some")
def _(c):
    if isinstance(c.a[0], B):
        return Opt(c.a[0], c.a[1])
    return Unk


@model("branch")     # Try::branch
def _(c):
    v = c.a[0]
    if not optional(v):
        return Unk
    # ControlFlow: 0 Continue(x), 1 Break(residual)
    return Enum("ControlFlow", ite(is_some(v), ZERO, ONE), {0: (payload(v),), 1: (v,)})


@model("from_residual")
def _(c):
    v = c.a[0]
    return v if optional(v) else Unk


# ---------------------------------------------------------------- slices and vectors
def seqref(c, i=0):
    """(ref to the sequence, length)"""
    r = lastref(c, c.a[i])
    if r is None:
        return None, None
    return r, c.I.reflen(c.st, r)


@model("len", "nrows", "ncols", "shape", "count_elems")
def _(c):
    v = dv(c, 0)
    if c.name == "len":
        if isinstance(v, Val) and (v.kind == "iseq" or v.kind.startswith("it:") or (isv(v, "rec") and v.key in ("Range", "RangeInclusive"))):
            it = toit(c.I, c.st, v)
            it = norm(it)
            return it.kids[0] if isv(it, "iseq") else Unk
        r = lastref(c, c.a[0])
        n = c.I.reflen(c.st, r) if r is not None else c.I.vlen(v)
        return Unk if n is None else n
    if isv(v, "mat"):
        return {"nrows": v.kids[0], "ncols": v.kids[1], "shape": Tup(v.kids[0], v.kids[1])}[c.name]
    return NotImplemented


@model("is_empty")
def _(c):
    r, n = seqref(c)
    if n is None:
        n = c.I.vlen(dv(c, 0))
        if n is None:
            return Unk
    return eq(n, 0)


def range_bounds(v, n):
    """(start, end, inclusive-normalised) of a range value, or None"""
    if isv(v, "rec"):
        k = v.key
        if k == "Range":
            return v.kids[0], v.kids[1]
        if k == "RangeFrom":
            return v.kids[0], n
        if k == "RangeTo":
            return ZERO, v.kids[0]
        if k == "RangeFull":
            return ZERO, n
        if k == "RangeInclusive":
            return v.kids[0], v.kids[1] + 1
        if k == "RangeToInclusive":
            return ZERO, v.kids[0] + 1
    return None


@model("index", "index_mut", "get_unchecked", "get_unchecked_mut")
def _(c):
    I, st = c.I, c.st
    r = lastref(c, c.a[0])
    i = c.a[1]
    need = (lambda st, b: unchecked(c, b)) if "unchecked" in c.name else require
    if isv(i, "ref"):
        i = I.deref(st, i)
    if r is None:
        return Unk
    v = I.deref(st, r)
    if isv(v, "mat"):
        if isv(i, "rec") and len(i.kids) == 2 and i.key == "()":
            a, b = i.kids
            if isinstance(a, P) and isinstance(b, P):
                need(st, band(ge(a), lt(a, v.kids[0]), ge(b), lt(b, v.kids[1])))
                return I.ext(r, ("m", a, b))
            # ranges
            ba = range_bounds(a, v.kids[0]) if not isinstance(a, P) else (a, a + 1)
            bb = range_bounds(b, v.kids[1]) if not isinstance(b, P) else (b, b + 1)
            if ba and bb:
                need(st, band(ge(ba[0]), le(ba[0], ba[1]), le(ba[1], v.kids[0]), ge(bb[0]), le(bb[0], bb[1]), le(bb[1], v.kids[1])))
                view = I.ext(r, ("mv", ba[0], bb[0], ba[1] - ba[0], bb[1] - bb[0]))
                return I.read(st, view) if c.name == "index" and c.path.startswith("nalgebra::indexing") else view
            return Unk
        if isinstance(i, P):
            need(st, band(ge(i), lt(i, v.kids[0] * v.kids[1])))
            return I.ext(r, ("i", i))
        return Unk
    n = I.reflen(st, r)
    if n is None:
        return Unk
    if isinstance(i, P):
        need(st, band(ge(i), lt(i, n)))
        return I.ext(r, ("i", i))
    b = range_bounds(i, n)
    if b is None:
        return Unk
    s, e = b
    if not (isinstance(s, P) and isinstance(e, P)):
        return Unk
    need(st, le(s, e))
    need(st, le(e, n))
    return I.ext(r, ("s", s, simp(e - s, st.facts())))


@model("get", "get_mut")
def _(c):
    I, st = c.I, c.st
    r, n = seqref(c)
    i = c.a[1]
    if n is None or r is None:
        return Unk
    if isinstance(i, P):
        return Opt(band(ge(i), lt(i, n)), I.ext(r, ("i", i)))
    b = range_bounds(i, n)
    if b is None:
        return Unk
    s, e = b
    return Opt(band(le(s, e), le(e, n)), I.ext(r, ("s", s, e - s)))


@model("first", "last", "first_mut", "last_mut")
def _(c):
    if not isv(c.a[0], "ref"):
        return it_last(c)
    x = dv(c, 0)
    r, n = seqref(c)
    if n is None:
        return it_last(c) if c.name == "last" else Unk
    i = ZERO if c.name.startswith("first") else n - 1
    return Opt(lt(0, n), c.I.ext(r, ("i", i)))


@model("iter", "iter_mut")
def _(c):
    r = lastref(c, c.a[0])
    if r is None:
        return Unk
    return iter_ref(c.I, c.st, r)


def iter_ref(I, st, r):
    v = I.deref(st, r)
    if optional(v):
        return ISeq(ite(is_some(v), ONE, ZERO), lambda k: I.ext(r, ("v", 1), ("f", 0)))
    n = I.reflen(st, r)
    if n is None:
        return Unk
    if isv(v, "cond") and isv(r, "ref"):
        pass
    return ISeq(n, lambda k: I.ext(r, ("i", k)))


@model("into_iter")
def _(c):
    v = c.a[0]
    return toit(c.I, c.st, v)


def toit(I, st, v):
    if isv(v, "cond"):
        a, b = toit(I, st, v.kids[1]), toit(I, st, v.kids[2])
        if isv(a, "iseq") and isv(b, "iseq"):
            return merge(v.kids[0], norm(a), norm(b))
        return Unk
    if not isinstance(v, Val):
        return Unk
    k = v.kind
    if k == "iseq" or k.startswith("it:"):
        return v
    if k == "rec":
        if v.key == "Range":
            s, e = v.kids
            if not (isinstance(s, P) and isinstance(e, P)):
                return Unk
            n = simp(pmax(e - s, ZERO), st.facts())
            return ISeq(n, lambda k: s + k)
        if v.key == "RangeInclusive":
            s, e = v.kids[:2]
            n = simp(pmax(e - s + 1, ZERO), st.facts())
            return ISeq(n, lambda k: s + k)
        if v.key == "RangeFrom":
            return ISeq(lift(TM.INF), lambda k: v.kids[0] + k)
        return Unk
    if k == "ref":
        w = I.read(st, v)
        n = 0
        while isv(w, "ref") and n < 6:
            v, w = w, I.read(st, w)
            n += 1
        if isv(w, "iseq") or (isinstance(w, Val) and (w.kind.startswith("it:") or (w.kind == "rec" and w.key.startswith("Range")))):
            return Val("it:ref", None, (v,))
        return iter_ref(I, st, v)
    if k in ("arr", "seq", "mat"):
        return ISeq(seqlen(v), lambda i: seqget(v, i))
    if k == "enum" and v.key[0] == "Option":
        return ISeq(ite(is_some(v), ONE, ZERO), lambda k: payload(v))
    return Unk


def norm(it):
    """iseq with pos = 0"""
    if not isv(it, "iseq"):
        return it
    n, pos, ok, t = it.kids
    if pos is ZERO:
        return it
    return ISeq(n - pos, lambda k: iseq_at(it, k + pos), lambda k: iseq_ok(it, k + pos))


def trimax(a, st):
    return simp(pmax(a, ZERO), st.facts())


@model("windows")
def _(c):
    r, n = seqref(c)
    w = c.a[1]
    if n is None or not isinstance(w, P):
        return Unk
    require(c.st, lt(0, w))
    return ISeq(trimax(n - w + 1, c.st), lambda k: c.I.ext(r, ("s", k, w)))


@model("chunks_exact", "chunks_exact_mut")
def _(c):
    r, n = seqref(c)
    w = c.a[1]
    if n is None or not isinstance(w, P):
        return Unk
    require(c.st, lt(0, w))
    q = tdiv(n, w)
    it = ISeq(q, lambda k: c.I.ext(r, ("s", k * w, w)))
    return Val("it:chunks", None, (it, c.I.ext(r, ("s", q * w, n - q * w))))


@model("chunks", "chunks_mut")
def _(c):
    r, n = seqref(c)
    w = c.a[1]
    if n is None or not isinstance(w, P):
        return Unk
    require(c.st, lt(0, w))
    return ISeq(tdiv(n + w - 1, w), lambda k: c.I.ext(r, ("s", k * w, pmin(w, n - k * w))))


@model("rchunks_exact", "rchunks")
def _(c):
    return Unk


@model("remainder", "into_remainder")
def _(c):
    v = dv(c, 0)
    if isv(v, "it:chunks"):
        return v.kids[1]
    return Unk


@model("split_at", "split_at_mut")
def _(c):
    r, n = seqref(c)
    m = c.a[1]
    if n is None or not isinstance(m, P):
        return Unk
    require(c.st, le(m, n))
    return Tup(c.I.ext(r, ("s", ZERO, m)), c.I.ext(r, ("s", m, n - m)))


@model("split_first", "split_last")
def _(c):
    r, n = seqref(c)
    if n is None:
        return Unk
    if c.name == "split_first":
        return Opt(lt(0, n), Tup(c.I.ext(r, ("i", ZERO)), c.I.ext(r, ("s", ONE, n - 1))))
    return Opt(lt(0, n), Tup(c.I.ext(r, ("i", n - 1)), c.I.ext(r, ("s", ZERO, n - 1))))


@model("to_vec", "into_boxed_slice", "as_vec")
def _(c):
    v = c.I.deref(c.st, c.a[0])
    return v


@model("copy_from_slice", "clone_from_slice")
def _(c):
    I, st = c.I, c.st
    r, n = seqref(c)
    r2, n2 = seqref(c, 1)
    if n is None or n2 is None:
        return NotImplemented
    require(st, eq(n, n2))
    v = I.read(st, r2)
    write_all(I, st, r, n, v)
    return Unit


def write_all(I, st, r, n, v):
    """overwrite the n elements designated by slice ref r with sequence value v"""
    if isv(r, "ref"):
        cell, path = ref_parts(r)
        if not (path and path[-1][0] == "s"):
            old = I.read(st, r)
            if isv(old, "arr") and isv(v, "arr") and len(old.kids) == len(v.kids):
                return I.write(st, r, v)
            if isv(old, "mat"):
                I.write(st, r, Unk)
                return
            return I.write(st, r, mkseq(n, lambda i: seqget(v, i)))
    I.write(st, r, v)


@model("fill")
def _(c):
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    x = c.a[1]
    write_all(c.I, c.st, r, n, mkseq(n, lambda i: x))
    return Unit


@model("reverse")
def _(c):
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    v = c.I.read(c.st, r)
    write_all(c.I, c.st, r, n, mkseq(n, lambda i: seqget(v, n - 1 - i)))
    return Unit


@model("push")
def _(c):
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    v = c.I.read(c.st, r)
    x = c.a[1]
    c.I.write(c.st, r, push_val(v, x))
    return Unit


def push_val(v, x):
    if isv(v, "arr") and len(v.kids) < 40:
        return Arr(v.kids + (x,))
    n = seqlen(v)
    return mkseq(n + 1, lambda i: merge(eq(i, n), x, seqget(v, i)))


@model("pop")
def _(c):
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    v = c.I.read(c.st, r)
    cond = lt(0, n)
    if isv(v, "arr"):
        if not v.kids:
            return NONE
        c.I.write(c.st, r, Arr(v.kids[:-1]))
        return Some(v.kids[-1])
    m = simp(pmax(n - 1, ZERO), c.st.facts())
    c.I.write(c.st, r, mkseq(m, lambda i: seqget(v, i)))
    return Opt(cond, seqget(v, n - 1))


@model("remove")
def _(c):
    r, n = seqref(c)
    i = c.a[1]
    if n is None or not isinstance(i, P):
        return NotImplemented
    require(c.st, band(ge(i), lt(i, n)))
    v = c.I.read(c.st, r)
    if isv(v, "arr") and i.const() is not None:
        k = list(v.kids)
        x = k.pop(int(i.const()))
        c.I.write(c.st, r, Arr(k))
        return x
    c.I.write(c.st, r, mkseq(n - 1, lambda j: merge(lt(j, i), seqget(v, j), seqget(v, j + 1))))
    return seqget(v, i)


@model("insert")
def _(c):
    r, n = seqref(c)
    if n is None or len(c.a) != 3 or not isinstance(c.a[1], P):
        return NotImplemented
    i, x = c.a[1], c.a[2]
    require(c.st, le(i, n))
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(n + 1, lambda j: merge(lt(j, i), seqget(v, j), merge(eq(j, i), x, seqget(v, j - 1)))))
    return Unit


@model("resize")
def _(c):
    r, n = seqref(c)
    m, x = c.a[1], c.a[2]
    if n is None or not isinstance(m, P):
        return NotImplemented
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(m, lambda j: merge(lt(j, n), seqget(v, j), x)))
    return Unit


@model("swap_remove")
def _(c):
    r, n = seqref(c)
    i = c.a[1]
    if n is None or not isinstance(i, P):
        return NotImplemented
    require(c.st, band(ge(i), lt(i, n)))
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(n - 1, lambda j: merge(eq(j, i), seqget(v, n - 1), seqget(v, j))))
    return seqget(v, i)


@model("split_off")
def _(c):
    r, n = seqref(c)
    m = c.a[1]
    if n is None or not isinstance(m, P):
        return NotImplemented
    require(c.st, le(m, n))
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(m, lambda j: seqget(v, j)))
    return mkseq(simp(n - m, c.st.facts()), lambda j: seqget(v, m + j))


@model("unzip")
def _(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    v = collect(c.I, c.st, it)
    if not (isinstance(v, Val) and v.kind in ("arr", "seq")):
        return Unk
    n = seqlen(v)
    if isv(v, "arr") and not v.kids:
        return Tup(Arr(()), Arr(()))
    e = seqget(v, lift(fresh("#u")))
    if not (isv(e, "rec") and len(e.kids) == 2):
        return Unk
    return Tup(mkseq(n, lambda j: seqget(v, j).kids[0]), mkseq(n, lambda j: seqget(v, j).kids[1]))


@model("truncate")
def _(c):
    r, n = seqref(c)
    m = c.a[1]
    if n is None or not isinstance(m, P):
        return NotImplemented
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(simp(pmin(n, m), c.st.facts()), lambda j: seqget(v, j)))
    return Unit


@model("clear")
def _(c):
    r, n = seqref(c)
    c.I.write(c.st, r, Arr(()))
    return Unit


@model("reserve", "reserve_exact", "shrink_to_fit")
def _(c):
    return Unit


@model("from_elem")
def _(c):
    x, n = c.a
    if not isinstance(n, P):
        return Unk
    return mkseq(n, lambda i: x)


def append_seq(v, w):
    n, m = seqlen(v), seqlen(w)
    if isv(v, "arr") and isv(w, "arr"):
        return Arr(v.kids + w.kids)
    if n.const() == 0:
        return w
    if m.const() == 0:
        return v
    return mkseq(n + m, lambda i: merge(lt(i, n), seqget(v, i), seqget(w, i - n)))


@model("extend", "extend_from_slice", "append")
def _(c):
    I, st = c.I, c.st
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    if c.name == "append":
        r2, n2 = seqref(c, 1)
        w = I.read(st, r2)
        I.write(st, r2, Arr(()))
    elif c.name == "extend_from_slice":
        w = I.deref(st, c.a[1])
    else:
        w = collect(I, st, toit(I, st, c.a[1]))
        # Extend<&T>: copies
        e = seqget(w, lift(fresh("#x"))) if not (isv(w, "arr") and not w.kids) and isinstance(w, Val) and w.kind in ("arr", "seq") else None
        if isv(e, "ref"):
            ww = w
            w = mkseq(seqlen(w), lambda i: I.read(st, seqget(ww, i)))
    if not (isinstance(w, Val) and w.kind in ("arr", "seq")):
        I.write(st, r, Unk)
        return Unit
    v = I.read(st, r)
    I.write(st, r, append_seq(v, w))
    return Unit


@model("concat")
def _(c):
    v = c.I.deref(c.st, c.a[0])
    if isv(v, "arr"):
        out = Arr(())
        for x in v.kids:
            x = c.I.deref(c.st, x)
            if not (isinstance(x, Val) and x.kind in ("arr", "seq")):
                return Unk
            out = append_seq(out, x)
        return out
    return Unk


@model("contains")
def _(c):
    r, n = seqref(c)
    if n is None:
        return Unk
    v = c.I.read(c.st, r)
    q = fresh("#q")
    e = veq(c.I, c.st, seqget(v, lift(q)), c.a[1])
    return Unk if e is None else bnot(forall(n, q, bnot(e)))


@model("drain")
def _(c):
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    b = range_bounds(c.a[1], n)
    if b is None:
        return NotImplemented
    s, e = b
    require(c.st, band(le(s, e), le(e, n)))
    v = c.I.read(c.st, r)
    c.I.write(c.st, r, mkseq(n - (e - s), lambda i: merge(lt(i, s), seqget(v, i), seqget(v, i + (e - s)))))
    return ISeq(e - s, lambda k: seqget(v, s + k))


@model("rotate_left", "rotate_right")
def _(c):
    r, n = seqref(c)
    m = c.a[1]
    if n is None or not isinstance(m, P):
        return NotImplemented
    require(c.st, le(m, n))
    v = c.I.read(c.st, r)
    if c.name == "rotate_right":
        m = n - m
    write_all(c.I, c.st, r, n, mkseq(n, lambda i: merge(lt(i, n - m), seqget(v, i + m), seqget(v, i + m - n))))
    return Unit


# ---------------------------------------------------------------- iterator adapters
def nn(it):
    return it.kids[0] - it.kids[1]


def purecall(I, st, f, mkargs, n):
    """evaluate closure f on a symbolic element; (tmpl value, ok, var) or None if it has effects"""
    v = fresh("#v")
    s2 = st.copy()
    base = len(s2.pc)
    s2.add("P", ge(lift(v)))
    s2.add("P", lt(lift(v), n))
    base = len(s2.pc)
    try:
        args = mkargs(lift(v), s2)
        fcell = f
        if not isv(f, "ref"):
            fcell = Ref(I.newcell(s2, f))
            st.mem[fcell.key[0]] = f
        r = I.call_value(fcell, args, s2)
    except Diverge:
        return Bot, F, v
    if s2.taint and not st.taint:
        return None
    for cell, old in st.mem.items():
        nv = s2.mem.get(cell)
        if nv is not old and (nv is None or not same_val(nv, old)):
            return None
    new = refcells(r)
    for cell in list(new):
        if cell not in st.mem:
            x = s2.mem.get(cell)
            if x is None or v in fv_val(x) or refcells(x) - set(st.mem):
                return None
            st.mem[cell] = x
    ok = band(*[b for k, b in s2.pc[base:] if k != "P"])
    return r, ok, v


def refcells(v):
    if isinstance(v, (P, B)):
        return set()
    s = set()
    if v.kind == "ref":
        s.add(v.key[0])
    for k in v.kids:
        if isinstance(k, Val):
            s |= refcells(k)
    return s


@model("map")
def _(c):
    I, st = c.I, c.st
    v = c.a[0]
    if optional(v):
        k = somevar(v)
        d = {x: v.kids[1 + i].kids for i, x in enumerate(v.key[1])}

        def f(s):
            r = I.call_value(c.a[1], [payload(v)], s)
            dd = dict(d)
            dd[k] = (r,)
            return Enum(v.key[0], v.kids[0], dd)

        def g(s):
            dd = {x: y for x, y in d.items() if x != k}
            return Enum(v.key[0], v.kids[0], dd)
        return cases(c, is_some(v), f, g)
    if isv(v, "ref"):
        w = I.deref(st, v)
        if "ndarray" in c.path or isv(w, "mat") or "nalgebra" in c.path:
            return map_elems(c, w, "ndarray" in c.path and c.name == "map")
        if isv(w, "arr") or isv(w, "seq"):
            return NotImplemented
    if isv(v, "arr") or isv(v, "seq") or isv(v, "mat"):
        if isv(v, "arr") and "array" in c.path:
            return Arr([I.call_value(c.a[1], [x], st) for x in v.kids])
        return map_elems(c, v)
    return it_map(I, st, toit(I, st, v), c.a[1])


@model("mapv")
def _(c):
    w = c.I.deref(c.st, c.a[0])
    return map_elems(c, w)


def map_elems(c, w, byref=False):
    I, st = c.I, c.st
    if isv(w, "arr") or isv(w, "seq"):
        n = seqlen(w)
        pr = purecall(I, st, c.a[1], lambda k, s: [I.ext(c.a[0], ("i", k))] if byref and isv(c.a[0], "ref") else [seqget(w, k)], n)
        if pr is None:
            return Unk
        r, ok, v = pr
        require_all(st, n, v, ok)
        return mkseq(n, lambda i: subst_val(r, {v: i}))
    if isv(w, "mat"):
        i, j = fresh("#i"), fresh("#j")
        s2 = st.copy()
        try:
            r = I.call_value(c.a[1], [mget(w, lift(i), lift(j))], s2)
        except Diverge:
            return Unk
        if s2.pc != st.pc:
            return Unk
        return Mat(w.kids[0], w.kids[1], lambda a, b: subst_val(r, {i: a, j: b}))
    return Unk


def require_all(st, n, v, ok):
    if ok is T:
        return
    f = st.facts() + (lt(lift(v), n), ge(lift(v)))
    ok = simp(ok, f)
    if ok.k == "and":
        ok = band(*[x for x in ok.a if decide(x, f) is not True])
    b = forall(n, v, ok)
    if b is T:
        return
    if b is F:
        raise Diverge()
    st.add("A", b)


def it_map(I, st, it, f):
    if isv(it, "iseq"):
        it = norm(it)
        n = it.kids[0]
        pr = purecall(I, st, f, lambda k, s: [iseq_at(it, k)], n)
        if pr is not None:
            r, ok, v = pr
            return ISeq(n, lambda k: subst_val(r, {v: k}), lambda k: band(iseq_ok(it, k), subst(ok, {v: k})))
    if it is Unk:
        return Unk
    if not isv(f, "ref"):
        f = Ref(I.newcell(st, f))
    return Val("it:map", None, (it, f))


@model("inspect")
def _(c):
    return Unk


@model("cloned", "copied")
def _(c):
    I, st = c.I, c.st
    v = c.a[0]
    if optional(v):
        return Enum("Option", v.kids[0], {1: (I.read(st, payload(v)) if isv(payload(v), "ref") else payload(v),)} if v.key[1] else {})
    it = toit(I, st, v)
    if isv(it, "iseq"):
        it = norm(it)

        def rd(x):
            if isv(x, "ref") or isv(x, "cond"):
                return I.read(st, x)
            return x
        return ISeq(it.kids[0], lambda k: rd(iseq_at(it, k)), lambda k: iseq_ok(it, k))
    if it is Unk:
        return Unk
    return Val("it:cloned", None, (it,))


@model("enumerate")
def _(c):
    it = toit(c.I, c.st, c.a[0])
    if isv(it, "iseq"):
        it = norm(it)
        return ISeq(it.kids[0], lambda k: Tup(k, iseq_at(it, k)), lambda k: iseq_ok(it, k))
    if isv(it, "it:chunks"):
        it = it.kids[0]
        return ISeq(it.kids[0], lambda k: Tup(k, iseq_at(it, k)), lambda k: iseq_ok(it, k))
    if it is Unk:
        return Unk
    return Val("it:enum", None, (it, ZERO))


def unchunk(it):
    if isv(it, "it:chunks"):
        return it.kids[0]
    return it


@model("zip")
def _(c):
    I, st = c.I, c.st
    if not (len(c.a) == 2):
        return NotImplemented
    if optional(c.a[0]) and optional(c.a[1]):
        return Opt(band(is_some(c.a[0]), is_some(c.a[1])), Tup(payload(c.a[0]), payload(c.a[1])))
    a, b = unchunk(toit(I, st, c.a[0])), unchunk(toit(I, st, c.a[1]))
    if isv(a, "iseq") and isv(b, "iseq"):
        a, b = norm(a), norm(b)
        n = a.kids[0] if a.kids[0] is b.kids[0] else simp(pmin(a.kids[0], b.kids[0]), st.facts())
        return ISeq(n, lambda k: Tup(iseq_at(a, k), iseq_at(b, k)), lambda k: band(iseq_ok(a, k), iseq_ok(b, k)))
    if a is Unk or b is Unk:
        return Unk
    return Val("it:zip", None, (a, b))


@model("chain")
def _(c):
    I, st = c.I, c.st
    a, b = unchunk(toit(I, st, c.a[0])), unchunk(toit(I, st, c.a[1]))
    if isv(a, "iseq") and isv(b, "iseq"):
        a, b = norm(a), norm(b)
        n, m = a.kids[0], b.kids[0]
        if n is ZERO or m is ZERO:
            return b if n is ZERO else a
        return ISeq(n + m, lambda k: merge(lt(k, n), iseq_at(a, k), iseq_at(b, k - n)),
                    lambda k: band(implies(lt(k, n), iseq_ok(a, k)), implies(ge(k - n), iseq_ok(b, k - n))))
    return Unk


@model("rev")
def _(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    if isv(it, "iseq"):
        it = norm(it)
        n = it.kids[0]
        return ISeq(n, lambda k: iseq_at(it, n - 1 - k), lambda k: iseq_ok(it, n - 1 - k))
    if isv(it, "it:map"):
        # Map<Rev> reorders the effects: unknown
        return Unk
    return Unk


@model("skip", "take", "step_by")
def _(c):
    I, st = c.I, c.st
    v = c.a[0]
    if c.name == "take" and isv(v, "ref") and len(c.a) == 1:
        o = I.read(st, v)
        I.write(st, v, NONE if optional(o) else default_of(derefty(c.at[0])))
        return o
    it = unchunk(toit(I, st, v))
    m = c.a[1]
    if not isinstance(m, P):
        return Unk
    if isv(it, "it:ref") and c.name == "take":
        return Val("it:take", None, (it, m))
    if not isv(it, "iseq"):
        if it is Unk:
            return Unk
        return Val("it:" + c.name, None, (it, m))
    it = norm(it)
    n = it.kids[0]
    if c.name == "skip":
        return ISeq(trimax(n - m, st), lambda k: iseq_at(it, k + m), lambda k: iseq_ok(it, k + m))
    if c.name == "take":
        return ISeq(simp(pmin(n, m), st.facts()), lambda k: iseq_at(it, k), lambda k: iseq_ok(it, k))
    require(st, lt(0, m))
    n2 = simp(ite(le(n, 0), ZERO, tdiv(n + m - 1, m)), st.facts())
    return ISeq(n2, lambda k: iseq_at(it, k * m), lambda k: iseq_ok(it, k * m))


@model("filter", "partition", "filter_map")
def _(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    if not isv(it, "iseq") or c.name == "filter_map":
        return Unk
    it = norm(it)
    n = it.kids[0]
    if n.const() == 0 and c.name == "filter":
        return it

    def mk(k, s):
        return [Ref(I.newcell(s, iseq_at(it, k)))]
    pr = purecall(I, st, c.a[1], mk, n)
    if pr is None or not isinstance(pr[0], B):
        return Unk
    p, ok, v = pr
    require_all(st, n, v, ok)

    def sub(pred):
        if pred is T:
            return it
        if pred is F:
            return ISeq(0, lambda k: iseq_at(it, k))
        cst = n.const()
        if cst is not None and 0 < cst <= 8:
            fs = st.facts()
            pk = [simp(subst(pred, {v: lift(k)}), fs) for k in range(int(cst))]
            if all(x is T or x is F for x in pk):
                keep = [iseq_at(it, lift(k)) for k, x in enumerate(pk) if x is T]
                return ISeq(len(keep), lambda k: seqget(Arr(keep), k))
        w = fresh("#f")
        pw = b2i(subst(pred, {v: lift(w)}))
        cnt = mk_sum(n, w, pw)
        lam = Lam(n, w, (pw,))
        return ISeq(cnt, lambda k: iseq_at(it, A("fidx", (lam, k), "i")), lambda k: T)
    if c.name == "filter":
        return sub(p)

    def owned(l):
        # Vec<T> takes copies of what references point to
        g = c.ft["a"]
        if len(g) > 1 and g[1]["k"] == "adt" and g[1]["a"] and g[1]["a"][0]["k"] != "ref":
            return mkseq(seqlen(l), lambda k: (lambda x: I.read(st, x) if isv(x, "ref") or isv(x, "cond") else x)(seqget(l, k)))
        return l
    return Tup(*[owned(collect(I, st, sub(q))) for q in (p, bnot(p))])


@model("tuple_windows")
def _(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    w = 2
    if c.ft["a"] and len(c.ft["a"]) > 1 and c.ft["a"][-1]["k"] == "tuple":
        w = len(c.ft["a"][-1]["a"])
    return ISeq(trimax(it.kids[0] - (w - 1), c.st), lambda k: Tup(*[iseq_at(it, k + i) for i in range(w)]), lambda k: band(*[iseq_ok(it, k + i) for i in range(w)]))


@model("tuples")
def _(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    w = 2
    if c.ft["a"] and len(c.ft["a"]) > 1 and c.ft["a"][-1]["k"] == "tuple":
        w = len(c.ft["a"][-1]["a"])
    return ISeq(tdiv(it.kids[0], lift(w)), lambda k: Tup(*[iseq_at(it, k * w + i) for i in range(w)]), lambda k: band(*[iseq_ok(it, k * w + i) for i in range(w)]))


@model("repeat_n")
def _(c):
    x, n = c.a
    return ISeq(n, lambda k: x) if isinstance(n, P) else Unk


@model("repeat")
def _(c):
    return ISeq(lift(TM.INF), lambda k: c.a[0])


@model("once")
def _(c):
    return ISeq(1, lambda k: c.a[0])


@model("empty")
def _(c):
    return ISeq(0, lambda k: Bot)


@model("successors", "from_fn_iter", "scan", "take_while", "skip_while", "flat_map", "flatten", "cycle", "peekable", "dedup", "group_by", "multizip")
def _(c):
    return NotImplemented


# ---------------------------------------------------------------- iterator consumption
def it_next(I, st, r):
    """next() on the iterator stored at ref r -> Option value"""
    it = I.read(st, r)
    if isv(it, "ref"):
        return it_next(I, st, it)
    if isv(it, "rec") and it.key == "Range":
        s, e = it.kids
        if not (isinstance(s, P) and isinstance(e, P)):
            return Enum("Option", unknown("opt", "i"), {1: (Unk,)})
        c = lt(s, e)
        d = st.decide(c)
        if d is False:
            return NONE
        I.write(st, r, Rec("Range", (s + 1 if d else ite(c, s + 1, s), e)))
        return Some(s) if d else Opt(c, s)
    if isv(it, "rec") and it.key in ("RangeInclusive", "RangeFrom"):
        I.write(st, r, toit(I, st, it))
        return it_next(I, st, r)
    if isv(it, "iseq"):
        n, pos, ok, t = it.kids
        c = lt(pos, n)
        d = st.decide(c)
        if d is False:
            return NONE
        okp = iseq_ok(it, pos)
        if okp is not T:
            require(st, okp if d else implies(c, okp))
        I.write(st, r, Val("iseq", None, (n, pos + 1 if d else ite(c, pos + 1, pos), ok, t), it.bv, 2))
        x = iseq_at(it, pos)
        return Some(x) if d else Opt(c, x)
    if isv(it, "it:chunks"):
        return it_next(I, st, I.ext(r, ("f", 0)))
    if isv(it, "it:ref"):
        return it_next(I, st, it.kids[0])
    if isv(it, "it:map"):
        o = it_next(I, st, I.ext(r, ("f", 0)))
        return cases_st(I, st, is_some(o), lambda s: Some(I.call_value(it.kids[1], [payload(o)], s)), lambda s: NONE)
    if isv(it, "it:cloned"):
        o = it_next(I, st, I.ext(r, ("f", 0)))
        x = payload(o)
        return Enum("Option", o.kids[0], {1: (I.read(st, x) if isv(x, "ref") or isv(x, "cond") else x,)})
    if isv(it, "it:enum"):
        o = it_next(I, st, I.ext(r, ("f", 0)))
        k = it.kids[1]
        I.write(st, I.ext(r, ("f", 1)), ite(is_some(o), k + 1, k))
        return Enum("Option", o.kids[0], {1: (Tup(k, payload(o)),)})
    if isv(it, "it:zip"):
        a = it_next(I, st, I.ext(r, ("f", 0)))

        def f(s):
            b = it_next(I, s, I.ext(r, ("f", 1)))
            return Enum("Option", b.kids[0], {1: (Tup(payload(a), payload(b)),)})
        return cases_st(I, st, is_some(a), f, lambda s: NONE)
    if isv(it, "it:take"):
        k = it.kids[1]

        def f(s):
            I.write(s, I.ext(r, ("f", 1)), k - 1)
            return it_next(I, s, I.ext(r, ("f", 0)))
        return cases_st(I, st, lt(0, k), f, lambda s: NONE)
    I.note("next() on an unmodelled iterator")
    I.write(st, r, Unk)
    return Enum("Option", unknown("opt", "i"), {1: (Unk,)})


@model("next")
def _(c):
    r = c.a[0]
    if not isv(r, "ref"):
        return Enum("Option", unknown("opt", "i"), {1: (Unk,)})
    return it_next(c.I, c.st, r)


@model("nth")
def _(c):
    I, st = c.I, c.st
    r = c.a[0]
    it = I.read(st, r)
    if isv(it, "ref"):
        r, it = it, I.read(st, it)
    if isv(it, "rec"):
        it = toit(I, st, it)
    k = c.a[1]
    if isv(it, "iseq") and isinstance(k, P):
        n, pos, ok, t = it.kids
        cnd = lt(pos + k, n)
        I.write(st, r, Val("iseq", None, (n, ite(cnd, pos + k + 1, n), ok, t), it.bv, 2))
        return Opt(cnd, iseq_at(it, pos + k))
    return NotImplemented


@model("next_back")
def _(c):
    I, st = c.I, c.st
    r = c.a[0]
    it = I.read(st, r)
    if isv(it, "rec"):
        it = toit(I, st, it)
    if isv(it, "iseq"):
        n, pos, ok, t = it.kids
        cnd = lt(pos, n)
        I.write(st, r, Val("iseq", None, (ite(cnd, n - 1, n), pos, ok, t), it.bv, 2))
        return Opt(cnd, iseq_at(it, n - 1))
    return NotImplemented


@model("size_hint")
def _(c):
    it = dv(c, 0)
    it = toit(c.I, c.st, it) if isv(it, "rec") else it
    if isv(it, "iseq"):
        n = norm(it).kids[0]
        # only a lower bound in general: keep it opaque but tied to the iterator
        lo = uf("hint_lo", n, sort="i")
        return Tup(lo, Enum("Option", uf("hint_some", n, sort="i"), {1: (uf("hint_hi", n, sort="i"),)}))
    return Tup(unknown("hint", "i"), Enum("Option", unknown("hint", "i"), {1: (unknown("hint", "i"),)}))


def consume(I, st, it, f):
    """for x in it { f(state, x) }  (f mutates the state)"""
    if it is Unk:
        return False
    n = None
    if isv(it, "iseq"):
        it = norm(it)
        n = it.kids[0].const()
        if n is not None and n <= 32:
            for i in range(int(n)):
                ok = iseq_ok(it, i)
                require(st, ok)
                f(st, iseq_at(it, i))
            return True
    cell = I.newcell(st, it)
    r = Ref(cell)

    def body(s):
        o = it_next(I, s, r)
        if not optional(o):
            raise Giveup("iterator")
        a, b = branch(s, is_some(o))
        backs, exits = [], []
        if a is not None:
            try:
                f(a, payload(o))
                backs.append(a)
            except Diverge:
                pass
        if b is not None:
            exits.append(("x", b))
        return backs, exits
    ex = summarize(I, st, body)
    m = merge_states([s for _, s in ex])
    setst(st, m)
    st.mem.pop(cell, None)
    return True


def collect(I, st, it):
    it = unchunk(it)
    if isv(it, "iseq"):
        it = norm(it)
        n = it.kids[0]
        v = fresh("#c")
        require_all(st, n, v, iseq_ok(it, lift(v)))
        return mkseq(n, lambda i: iseq_at(it, i))
    if not isinstance(it, Val) or it is Unk:
        return Unk
    acc = I.newcell(st, Arr(()))

    def f(s, x):
        s.mem[acc] = push_val(s.mem[acc], x)
    if not consume(I, st, it, f):
        return Unk
    return st.mem.pop(acc)


@model("collect", "from_iter", "collect_vec", "try_collect")
def _(c):
    t = c.dty
    it = toit(c.I, c.st, c.a[0])
    v = collect(c.I, c.st, it)
    if t is not None and t["k"] == "adt":
        n = t["n"].split("::")[-1]
        if n in ("Option", "Result") and isinstance(v, Val) and v.kind in ("arr", "seq"):
            m = seqlen(v)
            q = fresh("#q")
            e = seqget(v, lift(q)) if not (isv(v, "arr") and not v.kids) else None
            if e is None:
                return Enum(n, 1 if n == "Option" else 0, {1 if n == "Option" else 0: (v,)})
            if optional(e):
                ok = forall(m, q, is_some(e))
                return Enum(n, ite(ok, lift(somevar(e)), lift(1 - somevar(e))), {somevar(e): (mkseq(m, lambda i: payload(seqget(v, i))),)})
            return Unk
        if n not in ("Vec", "Box", "ArrayBase", "VecDeque"):
            return Unk
    return v


@model("fold")
def _(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    acc = I.newcell(st, c.a[1])
    f = c.a[2]
    if not isv(f, "ref"):
        f = Ref(I.newcell(st, f))

    def g(s, x):
        s.mem[acc] = I.call_value(f, [s.mem[acc], x], s)
    if not consume(I, st, it, g):
        return Unk
    return st.mem.pop(acc)


@model("reduce")
def _(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    n = it.kids[0]

    def some(s):
        acc = I.newcell(s, iseq_at(it, ZERO))
        f = Ref(I.newcell(s, c.a[1]))

        def g(s2, x):
            s2.mem[acc] = I.call_value(f, [s2.mem[acc], x], s2)
        consume(I, s, ISeq(simp(pmax(n - 1, ZERO), s.facts()), lambda k: iseq_at(it, k + 1), lambda k: iseq_ok(it, k + 1)), g)
        return Some(s.mem.pop(acc))
    return cases(c, lt(0, n), some, lambda s: NONE)


@model("for_each")
def _(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    f = c.a[1]
    if not isv(f, "ref"):
        f = Ref(I.newcell(st, f))
    if not consume(I, st, it, lambda s, x: I.call_value(f, [x], s)):
        st.taint = st.taint or "for_each over unknown"
    return Unit


@model("count")
def _(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    if isv(it, "iseq"):
        it = norm(it)
        return it.kids[0]
    cell = c.I.newcell(c.st, ZERO)

    def g(s, x):
        s.mem[cell] = s.mem[cell] + 1
    if not consume(c.I, c.st, it, g):
        return Unk
    return c.st.mem.pop(cell)


@model("sum", "product")
def _(c):
    I, st = c.I, c.st
    v0 = I.deref(st, c.a[0])
    if isv(v0, "mat") and c.name == "sum":
        i, j = fresh("#i"), fresh("#j")
        e = mget(v0, lift(i), lift(j))
        return sumval(v0.kids[1], j, sumval(v0.kids[0], i, e))
    it = unchunk(toit(I, st, c.a[0]))
    if isv(it, "iseq"):
        it = norm(it)
        n = it.kids[0]
        k = fresh("#k")
        e = I.deref(st, iseq_at(it, lift(k)))
        if isinstance(e, P) or iscx(e):
            require_all(st, n, k, iseq_ok(it, lift(k)))
            if c.name == "sum":
                return sumval(n, k, e)
            if isinstance(e, P):
                return mk_prod(n, k, e)
    t = c.dty
    init = zero_of(t) if c.name == "sum" else (Cx(1, 0) if t and is_cx(t) else ONE)
    acc = I.newcell(st, init)

    def g(s, x):
        s.mem[acc] = arith("add" if c.name == "sum" else "mul", s.mem[acc], I.deref(s, x), t or {"k": "param", "n": "?"}, s)
    if not consume(I, st, it, g):
        return Unk
    return st.mem.pop(acc)


@model("any", "all")
def _(c):
    I, st = c.I, c.st
    it = c.a[0]
    if isv(it, "ref"):
        it = I.read(st, it)
    it = unchunk(toit(I, st, it))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    n = it.kids[0]
    pr = purecall(I, st, c.a[1], lambda k, s: [iseq_at(it, k)], n)
    if pr is None or not isinstance(pr[0], B):
        return Unk
    p, ok, v = pr
    require_all(st, n, v, ok)
    if c.name == "all":
        return forall(n, v, p)
    return bnot(forall(n, v, bnot(p)))


@model("find", "position")
def _(c):
    I, st = c.I, c.st
    it = c.a[0]
    if isv(it, "ref"):
        it = I.read(st, it)
    it = unchunk(toit(I, st, it))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    n = it.kids[0]
    pr = purecall(I, st, c.a[1], lambda k, s: [Ref(I.newcell(s, iseq_at(it, k)))] if c.name == "find" else [iseq_at(it, k)], n)
    if pr is None or not isinstance(pr[0], B):
        return Unk
    p, ok, v = pr
    require_all(st, n, v, ok)
    some = bnot(forall(n, v, bnot(p)))
    w = fresh("#f")
    import prove
    idx = firstk_at(w, subst(p, {v: lift(w)}), lambda q: prove.norm(q, st.facts()))
    return Opt(some, iseq_at(it, idx) if c.name == "find" else idx)


def it_last(c):
    it = unchunk(toit(c.I, c.st, c.a[0]))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    n = it.kids[0]
    return Opt(lt(0, n), iseq_at(it, n - 1))


def sym_elem(I, s, e, vs):
    """a copy of element value e with its scalar leaves replaced by the variables vs (through references)"""
    if isv(e, "ref"):
        inner = I.read(s, e)
        return Ref(I.newcell(s, sym_elem(I, s, inner, vs)))
    ls = leaves(e)
    return rebuild(e, iter([eq(lift(v), 1) if isinstance(t, B) else lift(v) for v, (_, t) in zip(vs, ls)]))


def deepval(I, st, e):
    while isv(e, "ref"):
        e = I.read(st, e)
    return e


def order_key(I, st, it_at, n, cmpf):
    """(Lam of leaf tuples, (avars, bvars, cmp))"""
    k = fresh("#o")
    e0 = it_at(lift(k))
    d0 = deepval(I, st, e0)
    ls = leaves(d0)
    if any(bs for bs, _ in ls) or has_unk(d0):
        return None
    lam = Lam(n, k, tuple(b2i(t) if isinstance(t, B) else t for _, t in ls))
    srt = ["i" if not isinstance(t, B) and t.isint else "r" for _, t in ls]
    avs = tuple(fresh("x", q) for q in srt)
    bvs = tuple(fresh("y", q) for q in srt)
    s2 = st.copy()
    ea, eb = sym_elem(I, s2, e0, avs), sym_elem(I, s2, e0, bvs)
    base = s2.pc
    if cmpf is None:
        a, b = deepval(I, s2, ea), deepval(I, s2, eb)
        if not (isinstance(a, P) and isinstance(b, P)):
            return None
        o = ordering(a, b)
    else:
        o = cmpf(s2, ea, eb)
    if not isv(o, "enum") or o.key[0] != "Ordering":
        return None
    return lam, (avs, bvs, o.kids[0] - 1)


def has_unk(v):
    return v.unk


def canon_vars(key):
    return key


def order_atom(kind, lam, key, j):
    avs, bvs, cmp = key
    # canonical comparator: fixed variable names by position so that equal comparators hash equally
    m = {}
    ca, cb = [], []
    for i, (a, b) in enumerate(zip(avs, bvs)):
        x, y = atom("var", ("<a%d" % i,), a.sort), atom("var", ("<b%d" % i,), b.sort)
        m[a], m[b] = lift(x), lift(y)
        ca.append(x)
        cb.append(y)
    return A(kind, (lam, (tuple(ca), tuple(cb), subst(cmp, m)), j), "i")


@model("min_by", "max_by", "min_by_key", "max_by_key")
def _(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    if not isv(it, "iseq") or c.name.endswith("key"):
        return Unk
    it = norm(it)
    n = it.kids[0]
    f = c.a[1]

    def cmpf(s, a, b):
        return I.call_value(Ref(I.newcell(s, f)), [Ref(I.newcell(s, a)), Ref(I.newcell(s, b))], s)
    try:
        k = order_key(I, st, lambda i: iseq_at(it, i), n, cmpf)
    except Diverge:
        return Unk
    if k is None:
        return Unk
    lam, (avs, bvs, cmp) = k
    if c.name == "max_by":
        idx = order_atom("amin", lam, (avs, bvs, -cmp), "last")
    else:
        idx = order_atom("amin", lam, (avs, bvs, cmp), "first")
    return Opt(lt(0, n), iseq_at(it, idx))


def it_minmax(c):
    I, st = c.I, c.st
    it = unchunk(toit(I, st, c.a[0]))
    if not isv(it, "iseq"):
        return Unk
    it = norm(it)
    k = order_key(I, st, lambda i: iseq_at(it, i), it.kids[0], None)
    if k is None:
        return Unk
    lam, (avs, bvs, cmp) = k
    idx = order_atom("amin", lam, (avs, bvs, cmp if c.name == "min" else -cmp), "first" if c.name == "min" else "last")
    return Opt(lt(0, it.kids[0]), iseq_at(it, idx))


@model("sort_by", "sort_unstable_by", "sort", "sort_unstable")
def _(c):
    I, st = c.I, c.st
    r, n = seqref(c)
    if n is None:
        return NotImplemented
    v = I.read(st, r)
    f = c.a[1] if len(c.a) > 1 else None

    def cmpf(s, a, b):
        return I.call_value(Ref(I.newcell(s, f)), [Ref(I.newcell(s, a)), Ref(I.newcell(s, b))], s)
    try:
        k = order_key(I, st, lambda i: seqget(v, i), n, cmpf if f is not None else None) if not (isv(v, "arr") and len(v.kids) <= 1) else ()
    except Diverge:
        k = None
    if k == ():
        return Unit
    if k is None:
        I.write(st, r, Unk)
        return Unit
    lam, key = k
    # comparator panics (partial_cmp on NaN) are outside the real-number model
    if isv(v, "arr") and len(v.kids) <= 6:
        xs = list(v.kids)
        few = len(xs) <= 3
        fs = st.facts()
        sc = [[b2i(t) if isinstance(t, B) else t for _, t in leaves(deepval(I, st, x))] for x in xs]
        avs, bvs, cmp = key
        if all(len(q) == len(avs) for q in sc):
            for i in range(1, len(xs)):         # insertion sort as a comparison network (stable)
                for j in range(i, 0, -1):
                    sw = simp(lt(0, simp(subst(cmp, {**dict(zip(avs, sc[j - 1])), **dict(zip(bvs, sc[j]))}), fs)), fs)
                    if not few and sw is not T and sw is not F:
                        write_all(I, st, r, n, mkseq(n, lambda i: seqget(v, order_atom("sortidx", lam, key, i))))
                        return Unit
                    xs[j - 1], xs[j] = merge(sw, xs[j], xs[j - 1]), merge(sw, xs[j - 1], xs[j])
                    sc[j - 1], sc[j] = ([ite(sw, y, x) for x, y in zip(*q)] for q in ((sc[j - 1], sc[j]), (sc[j], sc[j - 1])))
            write_all(I, st, r, n, Arr(xs))
            return Unit
    write_all(I, st, r, n, mkseq(n, lambda i: seqget(v, order_atom("sortidx", lam, key, i))))
    return Unit


@model("call", "call_mut", "call_once")
def _(c):
    t = c.a[1]
    if not isv(t, "rec"):
        return Unk
    return c.I.call_value(c.a[0], list(t.kids), c.st)


# ---------------------------------------------------------------- panics
@model("panic", "panic_fmt", "panic_default_msg", "todo_default_msg", "unreachable_default_msg", "panic_bounds_check", "unwrap_failed", "expect_failed", "panic_display", "panic_explicit",
       "assert_failed", "unreachable_display", "panic_const_div_by_zero", "panic_str", "unimplemented_default_msg", "begin_panic")
def _(c):
    raise Diverge()


# ---------------------------------------------------------------- nalgebra
def pint(v):
    return v if isinstance(v, P) else None


@model("from_iterator", "from_fn", "zeros", "from_diagonal_element", "from_vec", "from_element", "identity", "repeat_mat", "from_row_slice", "from_column_slice")
def _(c):
    I, st = c.I, c.st
    p = c.path
    if "nalgebra" not in p:
        return NotImplemented
    n = c.name
    dims = [x for x in c.a if isinstance(x, P)]
    two = "nalgebra::Matrix<T, nalgebra::Dyn, nalgebra::Dyn" in p
    if n == "zeros":
        return Mat(c.a[0], c.a[1] if len(c.a) > 1 else 1, lambda i, j: ZERO)
    if n == "from_element":
        if two:
            return Mat(c.a[0], c.a[1], lambda i, j: c.a[2])
        return Mat(c.a[0], 1, lambda i, j: c.a[1])
    if n == "identity":
        return Mat(c.a[0], c.a[1], lambda i, j: ite(eq(i, j), ONE, ZERO))
    if n == "from_diagonal_element":
        x = c.a[2]
        return Mat(c.a[0], c.a[1], lambda i, j: merge(eq(i, j), x, zero_like(x)))
    if n == "from_vec":
        v = I.deref(st, c.a[-1])
        if not (isv(v, "arr") or isv(v, "seq")):
            return Unk
        if two and len(c.a) == 3:
            require(st, eq(seqlen(v), c.a[0] * c.a[1]))
            return Mat(c.a[0], c.a[1], lambda i, j: seqget(v, i + j * c.a[0]))
        return Mat(seqlen(v), 1, lambda i, j: seqget(v, i))
    if n == "from_iterator":
        it = unchunk(toit(I, st, c.a[-1]))
        v = collect(I, st, it)
        if not (isinstance(v, Val) and v.kind in ("arr", "seq")):
            return Unk
        r = c.a[0]
        k = c.a[1] if len(c.a) > 2 else ONE
        require(st, le(r * k, seqlen(v)))
        return Mat(r, k, lambda i, j: seqget(v, i + j * r))
    if n == "from_fn":
        f = c.a[-1]
        r = c.a[0]
        k = c.a[1] if len(c.a) > 2 else ONE
        i, j = fresh("#i"), fresh("#j")
        s2 = st.copy()
        s2.add("P", lt(lift(i), r))
        s2.add("P", lt(lift(j), k))
        b = len(s2.pc)
        try:
            v = I.call_value(f, [lift(i), lift(j)], s2)
        except Diverge:
            return Unk
        ok = band(*[x for kk, x in s2.pc[b:] if kk != "P"])
        if ok is not T:
            st.add("A", forall(r, i, forall(k, j, ok)))
        return Mat(r, k, lambda a, b_: subst_val(v, {i: a, j: b_}))
    return Unk


def zero_like(x):
    return Cx(0, 0) if iscx(x) else ZERO


@model("transpose", "transpose_mut")
def _(c):
    v = dv(c, 0)
    if not isv(v, "mat"):
        return NotImplemented
    if c.name == "transpose_mut":
        require(c.st, eq(v.kids[0], v.kids[1]))
    m = Mat(v.kids[1], v.kids[0], lambda i, j: mget(v, j, i))
    if c.name == "transpose":
        return m
    c.I.write(c.st, lastref(c, c.a[0]), m)
    return Unit


@model("column", "row", "column_mut", "row_mut")
def _(c):
    v = dv(c, 0)
    i = c.a[1]
    if not isv(v, "mat") or not isinstance(i, P):
        return NotImplemented
    if c.name.startswith("column"):
        require(c.st, lt(i, v.kids[1]))
        return Mat(v.kids[0], 1, lambda a, b: mget(v, a, i)) if c.name == "column" else Unk
    require(c.st, lt(i, v.kids[0]))
    return Mat(1, v.kids[1], lambda a, b: mget(v, i, b)) if c.name == "row" else Unk


@model("lstsq")
def _(c):
    a, b = dv(c, 0), dv(c, 1)
    if isv(a, "mat") and isv(b, "mat"):
        i, j = fresh("#i"), fresh("#j")
        la = Lam(a.kids[0] * 1, i, (A("uf", ("row", Lam(a.kids[1], j, (mget(a, lift(i), lift(j)),))), "r"),)) if isinstance(mget(a, ZERO, ZERO), P) else None
        k = fresh("#i")
        lb = Lam(b.kids[0], k, (mget(b, lift(k), ZERO),)) if isinstance(mget(b, ZERO, ZERO), P) else None
        if la is None or lb is None:
            return Unk
        sol = Mat(a.kids[1], 1, lambda r, q: uf("lstsq", la, lb, r))
        return Enum("Result", ZERO, {0: (Rec("Lstsq", (sol, uf("lstsq_res", la, lb), uf("lstsq_rank", la, lb, sort="i"))),)})
    return Unk


# ---------------------------------------------------------------- rustfft
@model("plan_fft_forward", "plan_fft_inverse")
def _(c):
    n = c.a[1]
    if not isinstance(n, P):
        return Unk
    cell = c.I.newcell(c.st, Rec("Fft", (n, lift(-1 if c.name.endswith("forward") else 1))))
    return Ref(cell)


@model("get_inplace_scratch_len")
def _(c):
    f = dv(c, 0)
    if isv(f, "rec") and f.key == "Fft":
        return uf("scratchlen", *f.kids, sort="i")
    return Unk


@model("process", "process_with_scratch")
def _(c):
    I, st = c.I, c.st
    f = dv(c, 0)
    r, n = seqref(c, 1)
    if not (isv(f, "rec") and f.key == "Fft") or n is None:
        return NotImplemented
    m, d = f.kids
    if c.name == "process_with_scratch":
        r2, n2 = seqref(c, 2)
        if n2 is not None:
            require(st, le(uf("scratchlen", m, d, sort="i"), n2))
            I.write(st, r2, Unk) if not isv(I.read(st, r2), "unk") else None
    v = I.read(st, r)
    e = decide(eq(m, n), st.facts())
    if e is not True:
        # rustfft transforms consecutive blocks and panics unless the length is a multiple
        if e is False or not same(simp(m, st.facts()), simp(n, st.facts())):
            require(st, band(gt(m), eq(tmod(n, m), 0)))
            if d.const() is None or not iscx(seqget(v, ZERO)):
                I.write(st, r, Unk)
                return Unit
            dd = int(d.const())

            def at(i):
                k = fresh("#t")
                blk = i - tmod(i, m)
                lam = Lam(m, k, seqget(v, blk + lift(k)).kids)
                return Cx(A("fft", (dd, 0, lam, tmod(i, m)), "r"), A("fft", (dd, 1, lam, tmod(i, m)), "r"))
            write_all(I, st, r, n, mkseq(n, at))
            return Unit
    k = fresh("#t")
    x = seqget(v, lift(k))
    if not iscx(x) or d.const() is None:
        I.write(st, r, Unk)
        return Unit
    lam = Lam(n, k, x.kids)
    dd = int(d.const())
    write_all(I, st, r, n, mkseq(n, lambda i: Cx(A("fft", (dd, 0, lam, i), "r"), A("fft", (dd, 1, lam, i), "r"))))
    return Unit


# ---------------------------------------------------------------- lstsq
def minnorm(A_, y_):
    """exact minimum-norm solution of the full-row-rank rational system A x = y (y: terms); None if A has not full row rank"""
    m, n = len(A_), len(A_[0])
    G = [[sum(A_[i][k] * A_[j][k] for k in range(n)) for j in range(m)] for i in range(m)]
    inv = [[Fraction(int(i == j)) for j in range(m)] for i in range(m)]
    for c in range(m):
        p = next((r for r in range(c, m) if G[r][c] != 0), None)
        if p is None:
            return None
        G[c], G[p], inv[c], inv[p] = G[p], G[c], inv[p], inv[c]
        d = G[c][c]
        G[c], inv[c] = [v / d for v in G[c]], [v / d for v in inv[c]]
        for r in range(m):
            if r != c and G[r][c] != 0:
                f = G[r][c]
                G[r] = [a - f * b for a, b in zip(G[r], G[c])]
                inv[r] = [a - f * b for a, b in zip(inv[r], inv[c])]
    out = []
    for k in range(n):
        s = ZERO
        for i in range(m):
            for j in range(m):
                co = A_[i][k] * inv[i][j]
                if co:
                    s = s + y_[j] * lift(co)
        out.append(s)
    return out


@model("lstsq")
def _(c):
    if "lstsq" not in c.path or len(c.a) != 3:
        return NotImplemented
    A_, y_, eps = dv(c, 0), dv(c, 1), c.a[2]
    if not isv(A_, "mat") or not isv(y_, "mat") or not isinstance(eps, P):
        return Unk
    e = eps.const()
    if e is None or not 0 < e <= Fraction(1, 10 ** 6):
        return Unk      # singular values are cut off: not the plain least-squares solution
    m, n = A_.kids[0], A_.kids[1]
    require(c.st, eq(m, y_.kids[0]))
    m0, n0 = m.const(), n.const()
    sol = None
    if m0 is not None and n0 is not None and m0 <= 24 and n0 <= 64 and 0 < m0 <= n0:
        rows = [[mget(A_, lift(i), lift(j)) for j in range(int(n0))] for i in range(int(m0))]
        if all(isinstance(v, P) and v.const() is not None for r in rows for v in r):
            x = minnorm([[v.const() for v in r] for r in rows], [mget(y_, lift(i), ZERO) for i in range(int(m0))])
            if x is None:
                return Unk
            xs = Arr(x)
            sol = Mat(n, 1, lambda i, j: seqget(xs, i))
    if sol is None:
        k, k2 = fresh("#l"), fresh("#l")
        la = Lam(m * n, k, (mget(A_, tdiv(lift(k), n), lift(k) - n * tdiv(lift(k), n)),))
        ly = Lam(m, k2, (mget(y_, lift(k2), ZERO),))
        sol = Mat(n, 1, lambda i, j: A("uf", ("lstsq", i, n, la, ly), "r"))
    res = Rec("Lstsq", (sol, Unk, Unk))
    return Enum("Result", 0, {0: (res,)})
