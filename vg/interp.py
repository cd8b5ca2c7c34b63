"""Value-graph construction over MIR: gated SSA style forward pass (no path enumeration: states are
merged at every join with the gating condition), loops summarised as recurrences."""
import json, math, struct, sys
from fractions import Fraction
from terms import *
import terms as TM
from facts import decide, simp, inconsistent
from values import *

sys.setrecursionlimit(200000)


class Diverge(Exception):
    """the current path cannot return normally"""


class Giveup(Exception):
    pass


class St:
    __slots__ = ("mem", "pc", "taint", "_f")

    def __init__(self, mem=None, pc=(), taint=None):
        self.mem, self.pc, self.taint, self._f = mem if mem is not None else {}, pc, taint, None

    def copy(self):
        return St(dict(self.mem), self.pc, self.taint)

    def facts(self):
        if self._f is None or self._f[0] is not self.pc:
            out = []
            for k, b in self.pc:
                if b.k == "and":
                    out.extend(b.a)
                else:
                    out.append(b)
            self._f = (self.pc, tuple(out))
        return self._f[1]

    def add(self, kind, b):
        if b is T:
            return
        self.pc = self.pc + ((kind, b),)

    def decide(self, b):
        return decide(b, self.facts())


def require(st, b):
    """panic unless b"""
    d = st.decide(b)
    if d is True:
        return
    if d is False:
        raise Diverge()
    st.add("A", b)


def branch(st, c):
    """-> (state where c, state where not c), None if infeasible"""
    d = st.decide(c)
    if d is True:
        return st, None
    if d is False:
        return None, st
    a, b = st.copy(), st.copy()
    a.add("G", c)
    b.add("G", bnot(c))
    return a, b


def merge_states(sts, keep=None):
    sts = list(sts)
    while len(sts) > 1:
        # the pair with the longest common prefix first
        best = None
        for i in range(len(sts)):
            for j in range(i + 1, len(sts)):
                p, q = sts[i].pc, sts[j].pc
                n = 0
                while n < len(p) and n < len(q) and p[n][1] is q[n][1] and p[n][0] == q[n][0]:
                    n += 1
                if best is None or n > best[0]:
                    best = (n, i, j)
        n, i, j = best
        m = merge2(sts[i], sts[j], n, keep)
        sts[i] = m
        del sts[j]
    return sts[0]


def merge2(a, b, n, keep):
    g1 = band(*[x for k, x in a.pc[n:] if k == "G"])
    g2 = band(*[x for k, x in b.pc[n:] if k == "G"])
    a1 = band(*[x for k, x in a.pc[n:] if k == "A"])
    a2 = band(*[x for k, x in b.pc[n:] if k == "A"])
    # discriminating condition: drop conjuncts shared by both sides
    c = g1
    neg = False
    if c is T and g2 is not T:
        c = bnot(g2)
    elif len(_cj(g2)) < len(_cj(g1)):
        c = bnot(g2)
    mem = {}
    am, bm = a.mem, b.mem
    for k, v in am.items():
        if keep is not None and not keep(k):
            continue
        w = bm.get(k)
        if w is None or w is v:
            mem[k] = v
        else:
            mem[k] = merge(c, v, w)
    for k, w in bm.items():
        if k not in am and (keep is None or keep(k)):
            mem[k] = w
    r = St(mem, a.pc[:n], a.taint or b.taint)
    r.add("G", bor(g1, g2))
    if a1 is a2:
        r.add("A", a1)
    else:
        r.add("A", band(implies(g1, a1), implies(g2, a2)))
    return r


def _cj(b):
    return b.a if b.k == "and" else (b,)


# ---------------------------------------------------------------- types
INTS = {"u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1),
        "usize": (0, 2 ** 64 - 1), "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
        "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1)}


def inrange(a, t):
    lo, hi = INTS[t]
    return band(ge(a - lo), ge(lift(hi) - a))


def is_int(t):
    return t["k"] in ("int", "uint")


def is_real(t):
    return t["k"] in ("float", "param")


def is_cx(t):
    return t["k"] == "adt" and t["n"].endswith("Complex")


def derefty(t):
    while t["k"] in ("ref", "ptr"):
        t = t["e"]
    return t


def tysub(t, env):
    if not env:
        return t
    k = t["k"]
    if k == "param":
        return env.get(t["n"], t)
    if k in ("adt", "tuple", "fndef"):
        if not t["a"]:
            return t
        r = dict(t)
        r["a"] = [tysub(x, env) for x in t["a"]]
        if k == "fndef" and t.get("r"):
            r["r"] = dict(t["r"])
            r["r"]["a"] = [tysub(x, env) for x in t["r"]["a"]]
        return r
    if k in ("ref", "ptr", "slice"):
        r = dict(t)
        r["e"] = tysub(t["e"], env)
        return r
    if k == "array":
        r = dict(t)
        r["e"] = tysub(t["e"], env)
        r["n"] = tysub(t["n"], env) if isinstance(t["n"], dict) else t["n"]
        return r
    return t


def clen(n):
    """const generic length -> P"""
    if n["k"] == "c":
        return lift(int(n["v"]))
    if n["k"] == "param":
        return V("#" + n["n"])
    if n["k"] == "cP":
        return n["p"]
    return unknown("len", "i")


PI = A("uf", ("pi",), "r")
_PIM = {}
for _num in range(1, 13):
    for _den in (1, 2, 3, 4, 6, 8):
        _PIM.setdefault(math.pi * _num / _den, Fraction(_num, _den))
        _PIM.setdefault(struct.unpack("f", struct.pack("f", math.pi * _num / _den))[0], Fraction(_num, _den))
_PIM[1 / math.pi] = None
_PIM[2 / math.pi] = None


def fconst(x):
    if math.isnan(x):
        return A("uf", ("nan",), "r")
    if math.isinf(x):
        r = A("uf", ("inf",), "r")
        return r if x > 0 else -r
    a = abs(x)
    if a in _PIM:
        f = _PIM[a]
        if f is not None:
            r = PI * f
            return r if x > 0 else -r
    return lift(Fraction(x))


def bits_val(bits, t):
    bits = int(bits)
    k = t["k"]
    if k == "bool":
        return T if bits else F
    if k == "uint":
        return lift(bits)
    if k == "int":
        w = INTS[t["n"]][1] + 1
        return lift(bits - 2 * w if bits >= w else bits)
    if k == "float":
        if t["n"] == "f64":
            return fconst(struct.unpack("d", struct.pack("Q", bits))[0])
        return fconst(struct.unpack("f", struct.pack("I", bits))[0])
    if k == "char":
        return lift(bits)
    return None


# ---------------------------------------------------------------- CFG
class Cfg:
    def __init__(self, body):
        self.body = body
        n = len(body["bbs"])
        self.succ = [[] for _ in range(n)]
        for i, bb in enumerate(body["bbs"]):
            if bb["c"]:
                continue
            t = bb["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["v"]] + [t["else"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            self.succ[i] = [x for x in s if not body["bbs"][x]["c"]]
        # dfs
        order = []
        state = {}
        self.backedges = set()
        st = [(0, iter(self.succ[0]))]
        state[0] = 1
        while st:
            b, it = st[-1]
            for x in it:
                if state.get(x) == 1:
                    self.backedges.add((b, x))
                elif x not in state:
                    state[x] = 1
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                state[b] = 2
                order.append(b)
                st.pop()
        self.rpo = list(reversed(order))
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {}
        for b in self.rpo:
            for x in self.succ[b]:
                pred.setdefault(x, []).append(b)
        self.pred = pred
        self.loops = {}
        for b, h in self.backedges:
            L = self.loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in L:
                    continue
                L.add(x)
                w.extend(pred.get(x, []))
        # blocks that can reach a return
        ok = set(b for b in self.rpo if body["bbs"][b]["t"]["k"] == "return")
        w = list(ok)
        while w:
            x = w.pop()
            for p in pred.get(x, []):
                if p not in ok:
                    ok.add(p)
                    w.append(p)
        self.canret = ok
        self.unreach = set(b for b in self.rpo if body["bbs"][b]["t"]["k"] == "unreachable" and not body["bbs"][b]["s"])
        # liveness
        self.borrowed = set()
        use = {}
        dfn = {}
        for b in self.rpo:
            u, d = set(), set()
            bb = body["bbs"][b]

            def pl_use(p):
                if p["l"] not in d:
                    u.add(p["l"])
                for e in p["p"]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def op_use(o):
                if o["k"] in ("copy", "move"):
                    pl_use(o["p"])

            def dst(p):
                if p["p"]:
                    pl_use(p)
                else:
                    d.add(p["l"])
            for s in bb["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r["k"] in ("ref", "rawptr"):
                        pl_use(r["p"])
                        if not any(e[0] == "*" for e in r["p"]["p"]):
                            self.borrowed.add(r["p"]["l"])
                    elif r["k"] == "discr":
                        pl_use(r["p"])
                    else:
                        for key in ("o", "a", "b"):
                            x = r.get(key)
                            if isinstance(x, dict) and x.get("k") in ("copy", "move"):
                                op_use(x)
                        if r["k"] == "agg":
                            for x in r["f"]:
                                op_use(x)
                    dst(s[1])
                elif s[0] == "sd":
                    pl_use(s[1])
            t = bb["t"]
            if t["k"] == "switch" or t["k"] == "assert":
                op_use(t["o"])
            elif t["k"] == "call":
                if t["f"]["k"] != "const":
                    op_use(t["f"])
                for x in t["a"]:
                    op_use(x)
                dst(t["d"])
            elif t["k"] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for x in self.succ[b]:
                    o |= live.get(x, set())
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live

    def region(self, blocks):
        return [b for b in self.rpo if b in blocks]


class Frame:
    __slots__ = ("fn", "body", "cells", "tyenv", "cfg", "uid", "inv")

    def __init__(self, fn, body, cells, tyenv, cfg, uid):
        self.fn, self.body, self.cells, self.tyenv, self.cfg, self.uid = fn, body, cells, tyenv, cfg, uid
        self.inv = {c: i for i, c in enumerate(cells)}


class Interp:
    MAXDEPTH = 40

    def __init__(self, data):
        self.fns = {f["uid"]: f for f in data["fns"]}
        self.bypath = {}
        for f in data["fns"]:
            self.bypath.setdefault(f["path"], f)
        self.adts = {a["n"]: a for a in data["adts"]}
        self.cfgs = {}
        self._cell = 0
        self.raw = set()
        self.stack = []
        self.calls = 0
        self.unkcalls = {}
        self.notes = []
        self.covered = set()
        self.nloops = 0
        self.constcells = {}
        self.strict = False         # unchecked operations must be in bounds (C01)
        self.widths = False         # results of integer arithmetic must fit their type
        self.wraps = False
        self.site = None
        self.unsafe_seen, self.unsafe_unk = set(), set()
        import models
        self.models = models

    def newcell(self, st, v, tag=""):
        self._cell += 1
        c = self._cell
        st.mem[c] = v
        return c

    def cfg(self, body):
        r = self.cfgs.get(id(body))
        if r is None:
            r = self.cfgs[id(body)] = Cfg(body)
        return r

    # ---- memory
    def get_path(self, v, path):
        for idx, e in enumerate(path):
            if isv(v, "cond"):
                rest = path[idx:]
                return merge(v.kids[0], self.get_path(v.kids[1], rest), self.get_path(v.kids[2], rest))
            if isinstance(v, (P, B)):
                return Unk
            if v.kind in ("bot", "unk"):
                return v
            k = e[0]
            if k == "f":
                if v.kind in ("rec", "clo") or v.kind.startswith("it:"):
                    if e[1] >= len(v.kids):
                        return Unk
                    v = v.kids[e[1]]
                elif v.kind == "ref":
                    pass
                elif v.kind == "mat" and e[1] == 0:     # storage of an owned nalgebra matrix: the elements by columns
                    m, r = v, v.kids[0]
                    if m.kids[1].const() == 1:
                        v = mkseq(r, lambda i: mget(m, i, ZERO))
                    else:
                        v = mkseq(r * m.kids[1], lambda i: mget(m, i - r * tdiv(i, r), tdiv(i, r)))
                else:
                    return Unk
            elif k == "v":
                if v.kind == "enum":
                    p = pay(v, e[1])
                    v = Bot if p is None else p
                else:
                    return Unk
            elif k == "i":
                if v.kind in ("arr", "seq", "mat"):
                    v = seqget(v, e[1])
                else:
                    return Unk
            elif k == "s":
                if v.kind in ("arr", "seq"):
                    st, ln = e[1], e[2]
                    vv = v
                    v = mkseq(ln, lambda i: seqget(vv, st + i))
                else:
                    return Unk
            elif k == "m":
                if v.kind == "mat":
                    v = mget(v, e[1], e[2])
                else:
                    return Unk
            elif k == "mv":      # sub-matrix view (r0, c0, rows, cols)
                if v.kind == "mat":
                    vv, ee = v, e
                    v = Mat(e[3], e[4], lambda i, j: mget(vv, ee[1] + i, ee[2] + j))
                else:
                    return Unk
        return v

    def set_path(self, v, path, x):
        if not path:
            return x
        e = path[0]
        rest = path[1:]
        if isv(v, "cond"):
            return Cond(v.kids[0], self.set_path(v.kids[1], path, x), self.set_path(v.kids[2], path, x))
        if isinstance(v, (P, B)) or v.kind == "unk":
            return Unk
        k = e[0]
        if k == "f":
            if v.kind == "bot":
                ks = [Bot] * (e[1] + 1)
                ks[e[1]] = self.set_path(Bot, rest, x)
                return Rec("?", ks)
            if v.kind in ("rec", "clo") or v.kind.startswith("it:"):
                ks = list(v.kids)
                while len(ks) <= e[1]:
                    ks.append(Bot)
                ks[e[1]] = self.set_path(ks[e[1]], rest, x)
                return Val(v.kind, v.key, ks)
            return Unk
        if k == "v":
            if v.kind == "enum":
                p = pay(v, e[1]) or Rec("pay", ())
                return with_pay(v, e[1], self.set_path(p, rest, x))
            return Unk
        if k == "i":
            if v.kind in ("arr", "seq", "mat"):
                y = x if not rest else self.set_path(seqget(v, e[1]), rest, x)
                return seqset(v, e[1], y)
            return Unk
        if k == "s":
            if v.kind in ("arr", "seq") and (isv(x, "arr") or isv(x, "seq")) and not rest:
                st, ln = e[1], e[2]
                if v.kind == "arr" and st.const() is not None and ln.const() is not None:
                    ks = list(v.kids)
                    for i in range(int(ln.const())):
                        ks[int(st.const()) + i] = seqget(x, i)
                    return Arr(ks)
                vv = toseq(v)
                return mkseq(seqlen(v), lambda i: merge(band(ge(i - st), lt(i, st + ln)), seqget(x, i - st), seqget(vv, i)))
            return Unk
        if k == "m":
            if v.kind == "mat" and not rest:
                return Mat(v.kids[0], v.kids[1], lambda i, j: merge(band(eq(i, e[1]), eq(j, e[2])), x, mget(v, i, j)))
            return Unk
        if k == "mv":
            if v.kind == "mat":
                if rest:
                    if rest[0][0] == "i" and len(rest) == 1:
                        i = rest[0][1]
                        if e[4].const() == 1:
                            return self.set_path(v, (("m", e[1] + i, e[2]),), x)
                        if e[3].const() == 1:
                            return self.set_path(v, (("m", e[1], e[2] + i),), x)
                        q = tdiv(i, e[3])
                        return self.set_path(v, (("m", e[1] + i - q * e[3], e[2] + q),), x)
                    if rest[0][0] == "m" and len(rest) == 1:
                        return self.set_path(v, (("m", e[1] + rest[0][1], e[2] + rest[0][2]),), x)
                    return Unk
                if isv(x, "mat"):
                    return Mat(v.kids[0], v.kids[1], lambda i, j: merge(
                        band(ge(i - e[1]), lt(i, e[1] + e[3]), ge(j - e[2]), lt(j, e[2] + e[4])), mget(x, i - e[1], j - e[2]), mget(v, i, j)))
            return Unk
        return Unk

    def read(self, st, r):
        if not isinstance(r, Val):
            return Unk
        if r.kind == "ref":
            cell, path = ref_parts(r)
            if cell in self.raw:
                path = tuple(e for e in path if e[0] != "f")
            v = st.mem.get(cell)
            if v is None:
                return Unk
            return self.get_path(v, path)
        if r.kind == "cond":
            d = st.decide(r.kids[0])
            if d is not None:
                return self.read(st, r.kids[1 if d else 2])
            return merge(r.kids[0], self.read(st, r.kids[1]), self.read(st, r.kids[2]))
        if r.kind == "bot":
            return Bot
        return Unk

    def write(self, st, r, x):
        if isv(r, "ref"):
            cell, path = ref_parts(r)
            if cell in self.raw:
                path = tuple(e for e in path if e[0] != "f")
            v = st.mem.get(cell)
            if v is None:
                st.taint = st.taint or "write to unknown cell"
                return
            st.mem[cell] = self.set_path(v, path, x)
            return
        if isv(r, "cond"):
            d = st.decide(r.kids[0])
            if d is not None:
                return self.write(st, r.kids[1 if d else 2], x)
            for a, c in ((1, r.kids[0]), (2, bnot(r.kids[0]))):
                old = self.read(st, r.kids[a])
                self.write(st, r.kids[a], merge(c, x, old))
            return
        if isv(r, "bot"):
            return
        st.taint = st.taint or "write through unknown pointer"

    def deref(self, st, v):
        """strip references"""
        n = 0
        while isinstance(v, Val) and (v.kind == "ref" or (v.kind == "cond" and isv(v.kids[1], "ref"))) and n < 12:
            v = self.read(st, v)
            n += 1
        return v

    def ext(self, r, *es):
        if isv(r, "cond"):
            return Cond(r.kids[0], self.ext(r.kids[1], *es), self.ext(r.kids[2], *es))
        if not isv(r, "ref"):
            return r if isv(r, "bot") else Unk
        cell, path = ref_parts(r)
        for e in es:
            path = padd(path, e)
        return Ref(cell, path)

    def reflen(self, st, r):
        """length of the slice/vec/array a ref designates"""
        if isv(r, "cond"):
            a, b = self.reflen(st, r.kids[1]), self.reflen(st, r.kids[2])
            return None if a is None or b is None else ite(r.kids[0], a, b)
        if isv(r, "ref"):
            cell, path = ref_parts(r)
            if path and path[-1][0] == "s":
                return path[-1][2]
            if path and path[-1][0] == "mv":
                return path[-1][3] * path[-1][4]
        v = self.deref(st, r)
        return self.vlen(v)

    def vlen(self, v):
        if isv(v, "cond"):
            a, b = self.vlen(v.kids[1]), self.vlen(v.kids[2])
            return None if a is None or b is None else ite(v.kids[0], a, b)
        if isinstance(v, Val):
            return seqlen(v)
        return None

    # ---- places, operands
    def place(self, fr, st, p):
        r = Ref(fr.cells[p["l"]])
        for e in p["p"]:
            k = e[0]
            if k == "*":
                v = self.read(st, r)
                r = v if isinstance(v, Val) and v.kind in ("ref", "cond", "bot") else Unk
            elif k == "f":
                # a field of a reference-like box: stay on the box
                r = self.ext(r, ("f", e[1]))
            elif k == "v":
                r = self.ext(r, ("v", e[1]))
            elif k == "i":
                i = st.mem.get(fr.cells[e[1]])
                r = self.ext(r, ("i", i)) if isinstance(i, P) else Unk
            elif k == "ci":
                off, fe = e[1], e[3]
                if not fe:
                    r = self.ext(r, ("i", lift(off)))
                else:
                    n = self.reflen(st, r)
                    r = Unk if n is None else self.ext(r, ("i", n - off))
            elif k == "ss":
                n = self.reflen(st, r)
                if n is None:
                    r = Unk
                else:
                    to = (n - e[2]) if e[3] else lift(e[2])
                    r = self.ext(r, ("s", lift(e[1]), to - e[1]))
            else:
                r = Unk
        return r

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            p = o["p"]
            if not p["p"]:
                return st.mem.get(fr.cells[p["l"]], Bot)
            return self.read(st, self.place(fr, st, p))
        if k == "const":
            return self.const(fr, st, o)
        return Unk

    def const(self, fr, st, o):
        t = tysub(o["t"], fr.tyenv)
        if t["k"] == "fndef":
            return Val("fn", (t["n"], json.dumps(t, sort_keys=True)), ())
        if "tyc" in o:
            c = o["tyc"]
            if c["k"] == "c":
                return lift(int(c["v"]))
            if c["k"] == "param":
                v = fr.tyenv.get(c["n"])
                if v is not None:
                    return clen(v)
                return clen(c)
        if "bits" in o:
            v = bits_val(o["bits"], t)
            if v is not None:
                return v
        if "promoted" in o:
            f = self.fns.get(o["u"])
            if f is not None and o["promoted"] < len(f["promoted"]):
                b = f["promoted"][o["promoted"]]
                try:
                    return self.run_body(f, b, fr.tyenv, [], st)
                except Diverge:
                    return Unk
        if "str" in o:
            return Val("str", o["str"], ())
        for key in ("ptr", "mem"):
            if o.get(key):
                m = o[key]
                if "arr" in m:
                    v = Arr([bits_val(x, m["e"]) for x in m["arr"]])
                else:
                    v = bits_val(m["bits"], m["e"])
                if key == "ptr":
                    return Ref(self.newcell(st, v))
                return v
        if "u" in o and o["u"] in self.fns and "promoted" not in o:
            f = self.fns[o["u"]]
            try:
                return self.run_body(f, f["body"], fr.tyenv, [], st)
            except Diverge:
                return Unk
        if o.get("zst") or t["k"] == "tuple":
            if t["k"] == "closure":
                return Val("clo", (t["u"], json.dumps(fr.tyenv, sort_keys=True)), ())
            return self.zst(t)
        if "bits" in o and t["k"] == "adt" and t["d"] == "enum":
            n = t["n"].split("::")[-1]
            b = int(o["bits"])
            if n == "Ordering":
                b = (b - 256 if b > 127 else b) + 1
            return Enum(n, b, {})
        if "def" in o:
            return self.models.assoc_const(self, o, t)
        return Unk

    def zst(self, t):
        if t["k"] == "adt":
            n = t["n"].split("::")[-1]
            return Rec(n, ())
        return Unit

    # ---- rvalues
    def rvalue(self, fr, st, r, dty):
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k in ("ref", "rawptr"):
            return self.place(fr, st, r["p"])
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            return self.binop(st, r["op"], a, b, tysub(r["t"], fr.tyenv))
        if k == "un":
            a = self.operand(fr, st, r["a"])
            op = r["op"]
            if op == "Not":
                if isinstance(a, B):
                    return bnot(a)
                return Unk
            if op == "Neg":
                return -a if isinstance(a, P) else Unk
            if op == "PtrMetadata":
                n = self.reflen(st, a)
                return Unk if n is None else n
            return Unk
        if k == "cast":
            a = self.operand(fr, st, r["o"])
            return self.cast(st, r["c"], a, tysub(r["from"], fr.tyenv), tysub(r["t"], fr.tyenv))
        if k == "discr":
            v = self.read(st, self.place(fr, st, r["p"]))
            return self.discr(v)
        if k == "agg":
            fs = [self.operand(fr, st, x) for x in r["f"]]
            a = r["a"]
            if a["k"] == "array":
                return Arr(fs)
            if a["k"] == "tuple":
                return Rec("()", fs)
            if a["k"] == "closure":
                return Val("clo", (a["u"], json.dumps(fr.tyenv, sort_keys=True)), fs)
            if a["k"] == "adt":
                n = a["n"].split("::")[-1]
                if a["enum"]:
                    return Enum(n, a["v"], {a["v"]: tuple(fs)} if fs else {})
                if n == "Complex":
                    return Rec("C", fs)
                return Rec(n, fs)
            return Unk
        if k == "repeat":
            v = self.operand(fr, st, r["o"])
            n = r["n"]
            n = tysub(n, fr.tyenv) if n["k"] == "param" else n
            return mkseq(clen(n), lambda i: v)
        return Unk

    def discr(self, v):
        if isv(v, "cond"):
            a, b = self.discr(v.kids[1]), self.discr(v.kids[2])
            if isinstance(a, P) and isinstance(b, P):
                return ite(v.kids[0], a, b)
            return Unk
        if isv(v, "enum"):
            if v.key[0] == "Ordering":
                return v.kids[0] - 1
            return v.kids[0]
        return Unk

    def binop(self, st, op, a, b, t):
        if op == "Offset":
            return Unk
        if isinstance(a, B) and isinstance(b, B):
            if op in ("BitAnd",):
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op in ("BitXor", "Ne"):
                return bor(band(a, bnot(b)), band(bnot(a), b))
            if op == "Eq":
                return bor(band(a, b), band(bnot(a), bnot(b)))
            return Unk
        if isinstance(a, B):
            a = b2i(a)
        if isinstance(b, B):
            b = b2i(b)
        if not (isinstance(a, P) and isinstance(b, P)):
            if op.endswith("WithOverflow"):
                return Tup(Unk, F)
            return Unk
        it = is_int(t)
        if self.widths and it and op in ("Add", "Sub", "Mul") and t.get("n") in INTS:
            require(st, inrange(a + b if op == "Add" else a - b if op == "Sub" else a * b, t["n"]))
        if op in ("Add", "AddUnchecked"):
            return a + b
        if op in ("Sub", "SubUnchecked"):
            return a - b
        if op in ("Mul", "MulUnchecked"):
            return a * b
        if op.endswith("WithOverflow"):
            base = op[:3]
            r = a + b if base == "Add" else a - b if base == "Sub" else a * b
            ov = F
            if t["k"] == "uint" and base == "Sub":
                ov = lt(a, b)
            elif self.widths and t.get("n") in INTS:
                ov = bnot(inrange(r, t["n"]))
            return Tup(r, ov)
        if op == "Div":
            return tdiv(a, b) if it else a / b
        if op == "Rem":
            return tmod(a, b) if it else uf("fmod", a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op in ("Shr", "ShrUnchecked") and b.const() is not None:
            return tdiv(a, lift(2 ** int(b.const())))
        if op in ("Shl", "ShlUnchecked") and b.const() is not None:
            return a * (2 ** int(b.const()))
        if op == "BitAnd" and b.const() == 1:
            return tmod(a, lift(2))
        if op == "BitAnd" and a.const() == 1:
            return tmod(b, lift(2))
        if op == "Cmp":
            return self.models.ordering(a, b)
        if it and a.const() is not None and b.const() is not None and op in ("BitAnd", "BitOr", "BitXor"):
            x, y = int(a.const()), int(b.const())
            return lift(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        return uf(op, a, b, sort="i" if it else "r")

    def cast(self, st, c, a, ft, tt):
        if c in ("IntToFloat", "FloatToFloat"):
            if isinstance(a, B):
                return b2i(a)
            return a
        if c == "IntToInt":
            if isinstance(a, B):
                a = b2i(a)
            if not isinstance(a, P):
                d = self.discr(a)
                return d if isinstance(d, P) else Unk
            cc = a.const()
            lo, hi = INTS.get(tt.get("n"), (None, None))
            if cc is not None and lo is not None:
                w = hi - lo + 1
                return lift((int(cc) - lo) % w + lo)
            if self.widths and lo is not None:
                return ite(inrange(a, tt["n"]), a, uf("wrap", a, lift(lo), lift(hi), sort="i"))
            if lo == 0 and ft["k"] == "int":
                d = st.decide(ge(a))
                if d is True:
                    return a
                return ite(ge(a), a, uf("wrapneg", a, sort="i"))
            return a
        if c == "FloatToInt":
            if not isinstance(a, P):
                return Unk
            r = trunc(a)
            if tt["k"] == "uint":
                return ite(ge(r), r, ZERO)
            return r
        if c == "Transmute":
            if tt["k"] in ("uint", "int") and not isinstance(a, P):
                return unknown("addr", "i")
            return a
        return a

    # ---- execution
    def merge_at(self, fr, b, sts):
        if len(sts) == 1:
            return sts[0]
        live = fr.cfg.live.get(b)
        bor_ = fr.cfg.borrowed
        inv = fr.inv

        def keep(c):
            l = inv.get(c)
            return l is None or l in live or l in bor_ or l == 0
        return merge_states(sts, keep if live is not None else None)

    def exec_region(self, fr, entry, st, blocks, is_loop):
        """-> (backs, exits[(target, state)], returns)"""
        cfg = fr.cfg
        incoming = {entry: [st]}
        backs, exits, rets = [], [], []
        skip = set()

        def route(t, s):
            if is_loop and t == entry:
                backs.append(s)
            elif t not in blocks:
                exits.append((t, s))
            else:
                incoming.setdefault(t, []).append(s)

        for b in cfg.rpo:
            if b not in blocks or b in skip or b not in incoming:
                continue
            s = self.merge_at(fr, b, incoming.pop(b))
            if b in cfg.loops and not (is_loop and b == entry):
                L = cfg.loops[b]
                skip |= L
                for (t, s2) in self.mir_loop(fr, b, s, L):
                    if t == "ret":
                        rets.append(s2)
                    else:
                        route(t, s2)
                continue
            try:
                out = self.block(fr, b, s)
            except Diverge:
                continue
            for t, s2 in out:
                if t == "ret":
                    rets.append(s2)
                else:
                    route(t, s2)
        return backs, exits, rets

    def mir_loop(self, fr, h, st, L):
        self.nloops += 1

        def body(s):
            backs, exits, rets = self.exec_region(fr, h, s, L, True)
            return backs, exits + [("ret", r) for r in rets]
        return summarize(self, st, body, fr, h)

    def block(self, fr, b, st):
        bb = fr.body["bbs"][b]
        for s in bb["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], None)
                self.assign(fr, st, s[1], v)
            elif s[0] == "sd":
                r = self.place(fr, st, s[1])
                old = self.read(st, r)
                if isv(old, "enum"):
                    d = {k: old.kids[1 + i].kids for i, k in enumerate(old.key[1])}
                    self.write(st, r, Enum(old.key[0], s[2], d))
                else:
                    self.write(st, r, Unk)
        t = bb["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "assert":
            if t["m"].startswith(("Misaligned", "NullPointer")):
                return [(t["t"], st)]
            if self.wraps and t["m"].startswith("overflow"):
                return [(t["t"], st)]       # a build without overflow checks goes on (C01)
            c = self.operand(fr, st, t["o"])
            if isinstance(c, B):
                require(st, c if t["e"] else bnot(c))
            else:
                st.add("A", B.mk("buf", ("?assert", unknown("assert"))))
            return [(t["t"], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            v = self.call(fr, st, t)
            self.assign(fr, st, t["d"], v)
            if t["t"] is None:
                raise Diverge()
            return [(t["t"], st)]
        raise Diverge()

    def assign(self, fr, st, p, v):
        if not p["p"]:
            st.mem[fr.cells[p["l"]]] = v
        else:
            self.write(st, self.place(fr, st, p), v)

    def switch(self, fr, st, t):
        o = self.operand(fr, st, t["o"])
        cfg = fr.cfg
        edges = []
        ty = tysub(t["ty"], fr.tyenv)
        if isv(o, "cond"):
            d = o
            if isinstance(d.kids[1], (P, B)) and isinstance(d.kids[2], (P, B)):
                x = [b2i(z) if isinstance(z, B) else z for z in d.kids[1:]]
                o = ite(d.kids[0], *x)
        if isinstance(o, B):
            neg = []
            for v, tgt in t["v"]:
                c = o if int(v) else bnot(o)
                edges.append((c, tgt))
                neg.append(bnot(c))
            edges.append((band(*neg), t["else"]))
        elif isinstance(o, P):
            neg = []
            for v, tgt in t["v"]:
                val = bits_val(v, ty)
                if val is None:
                    val = lift(int(v))
                c = eq(o, val)
                edges.append((c, tgt))
                neg.append(bnot(c))
            edges.append((band(*neg), t["else"]))
        else:
            u = unknown("switch", "i")
            for i, (v, tgt) in enumerate(t["v"]):
                edges.append((eq(u, i), tgt))
            edges.append((band(*[bnot(eq(u, i)) for i in range(len(t["v"]))]), t["else"]))
        edges = [(c, x) for c, x in edges if x not in cfg.unreach and c is not F]
        if len(edges) >= 2 and t["else"] in cfg.unreach:
            c, x = edges[-1]
            edges[-1] = (band(*[bnot(y) for y, _ in edges[:-1]]), x)
        # group by target
        live = []
        for c, x in edges:
            d = st.decide(c)
            if d is False:
                continue
            live.append((T if d is True else c, x))
            if d is True:
                live = [(T, x)]
                break
        if not live:
            raise Diverge()
        if len(live) == 1:
            return [(live[0][1], st)]
        # edges leading only to panics become assertions
        good = [(c, x) for c, x in live if x in cfg.canret]
        bad = [(c, x) for c, x in live if x not in cfg.canret]
        if not good:
            raise Diverge()
        for c, x in bad:
            st.add("A", bnot(c))
        if len(good) == 1:
            return [(good[0][1], st)]
        out = []
        for c, x in good:
            s2 = st.copy()
            s2.add("G", c)
            out.append((x, s2))
        return out

    def run_body(self, fn, body, tyenv, args, st):
        """run in st (mutated); returns the value"""
        if len(self.stack) > self.MAXDEPTH:
            raise Giveup("call depth")
        cfg = self.cfg(body)
        cells = []
        for i in range(len(body["locals"])):
            self._cell += 1
            cells.append(self._cell)
        for i, a in enumerate(args):
            st.mem[cells[1 + i]] = a
        fr = Frame(fn, body, cells, tyenv, cfg, fn["uid"])
        self.covered.add(fn["uid"])
        self.stack.append(fn["uid"])
        try:
            backs, exits, rets = self.exec_region(fr, 0, st.copy(), set(cfg.rpo), False)
        finally:
            self.stack.pop()
        if not rets:
            raise Diverge()
        r = merge_states(rets)
        ret = r.mem.get(cells[0], Unit)
        # drop the frame's cells unless they can be referenced from the result (promoteds, temporaries)
        st.mem, st.pc, st.taint = r.mem, r.pc, r.taint
        st._f = None
        if body is fn["body"]:
            for c in cells:
                if c in st.mem:
                    del st.mem[c]
        return ret

    recurse = None  # value of a recursive call by its meaning (induction hypothesis)
    summ = {}       # uid -> summary of a public function whose own behaviour another property decides

    def call_uid(self, uid, tyenv, args, st):
        f = self.fns[uid]
        n = self.stack.count(uid)
        sm = self.summ.get(uid) if self.stack else None
        if sm:
            r = sm(self, st, args)
            if r is not None:
                self.calls += 1
                return r
        rs = getattr(self, "recsum", None)
        if rs and n:
            # induction: the recursive call returns what the specification says, provided the outermost
            # activation of this function received exactly the entry point's arguments
            if self.rec_root == uid:
                return rs(args)
        if n and self.recurse:
            self.called = uid
            r = self.recurse(self, st, args)
            if r is not None:
                return r
        if n >= 6:
            raise Giveup("recursion " + uid)
        self.calls += 1
        root = False
        if rs and not n and self.rec_root is None and self.stack and len(args) == len(self.entry_args) and \
                all(x is y or (isinstance(x, P) and isinstance(y, P) and same(x, y)) for x, y in zip(args, self.entry_args)):
            self.rec_root, root = uid, True
        r = self.run_body(f, f["body"], tyenv, args, st)
        if root:
            if self.rec_ret is None:
                self.rec_ret = r
        return r

    def call_value(self, f, args, st):
        """call a closure / fn item / reference to one"""
        selfref = None
        while isv(f, "ref"):
            selfref = f
            f = self.read(st, f)
        if isv(f, "cond"):
            a, b = branch(st, f.kids[0])
            outs = []
            for s, g in ((a, f.kids[1]), (b, f.kids[2])):
                if s is None:
                    continue
                try:
                    s = s.copy()
                    v = self.call_value(g, args, s)
                except Diverge:
                    continue
                c = self.newcell(s, v)
                outs.append((s, c))
            if not outs:
                raise Diverge()
            if len(outs) == 2:
                outs[1][0].mem[outs[0][1]] = outs[1][0].mem.pop(outs[1][1])
            m = merge_states([s for s, c in outs])
            st.mem, st.pc, st.taint, st._f = m.mem, m.pc, m.taint, None
            return st.mem[outs[0][1]]
        if isv(f, "clo"):
            uid, env = f.key
            fn = self.fns[uid]
            env = json.loads(env)
            if self.stack.count(uid) >= 6:
                raise Giveup("recursion")
            t1 = fn["body"]["locals"][1]
            if t1["k"] == "ref":
                if selfref is None:
                    selfref = Ref(self.newcell(st, f))
                a1 = selfref
            else:
                a1 = f
            return self.run_body(fn, fn["body"], env, [a1] + list(args), st)
        if isv(f, "fn"):
            t = json.loads(f.key[1])
            return self.call_def(t, list(args), [None] * len(args), st, None, None)
        self.note("call of unknown function value")
        for a in args:
            self.havoc(st, a)
        return Unk

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def havoc(self, st, a):
        if isinstance(a, Val):
            if a.kind == "ref":
                self.write(st, a, Unk)
            for k in a.kids:
                if isinstance(k, Val):
                    self.havoc(st, k)

    def call(self, fr, st, t):
        self.site = t.get("s")
        args = [self.operand(fr, st, a) for a in t["a"]]
        ft = tysub(t["fty"], fr.tyenv)
        at = [tysub(x, fr.tyenv) for x in t["at"]]
        if ft["k"] != "fndef":
            f = self.operand(fr, st, t["f"])
            return self.call_value(f, args, st)
        dty = tysub(fr.body["locals"][t["d"]["l"]], fr.tyenv) if not t["d"]["p"] else None
        return self.call_def(ft, args, at, st, dty, t)

    def call_def(self, ft, args, at, st, dty, t):
        n = ft["n"]
        r = ft.get("r")
        if n.startswith(("std::ops::Fn", "core::ops::Fn")) and len(args) == 2 and isv(args[1], "rec"):
            return self.call_value(args[0], list(args[1].kids), st)     # the arguments come as one tuple
        if r and r["u"] in self.fns:
            fn = self.fns[r["u"]]
            ra = r["a"]
            # r["a"] is in terms of the caller's generics: substitute through ft's own args is done in tysub
            env = self.callee_env(fn, ft, r)
            return self.call_uid(r["u"], env, args, st)
        if ft["u"] in self.fns and not r:
            fn = self.fns[ft["u"]]
            env = dict(zip(fn["gens"], ft["a"]))
            if fn["impl"] or fn["kind"] == "Fn":
                return self.call_uid(ft["u"], env, args, st)
        imp = self.find_impl(ft)
        if imp is not None:
            fn, env = imp
            return self.call_uid(fn["uid"], env, args, st)
        if t is not None:
            self.site = t.get("s", self.site)
        return self.models.call_model(self, st, ft, args, at, dty)

    def callee_env(self, fn, ft, r):
        return dict(zip(fn["gens"], r["a"]))

    def find_impl(self, ft):
        n = ft["n"]
        if "::" not in n or not ft["a"]:
            return None
        tr, m = n.rsplit("::", 1)
        selfty = ft["a"][0]
        for f in self.fns.values():
            im = f["impl"]
            if im and im["trait"] == tr and f["path"].endswith("::" + m):
                env = {}
                if unify(im["self"], selfty, env):
                    return f, {g: env[g] for g in f["gens"] if g in env}
        return None


def unify(pat, t, env):
    if pat["k"] == "param":
        env[pat["n"]] = t
        return True
    if pat["k"] != t["k"]:
        return False
    k = pat["k"]
    if k in ("int", "uint", "float"):
        return pat["n"] == t["n"]
    if k == "adt":
        return pat["n"] == t["n"] and len(pat["a"]) == len(t["a"]) and all(unify(a, b, env) for a, b in zip(pat["a"], t["a"]))
    if k in ("ref", "slice"):
        return unify(pat["e"], t["e"], env)
    if k == "tuple":
        return len(pat["a"]) == len(t["a"]) and all(unify(a, b, env) for a, b in zip(pat["a"], t["a"]))
    return json.dumps(pat, sort_keys=True) == json.dumps(t, sort_keys=True)


def trunc(a):
    a = lift(a)
    if a.isint:
        return a
    c = a.const()
    if c is not None:
        return lift(int(c))
    # x / const of an integer polynomial
    den = 1
    ok = True
    for m, co in a.t:
        if any(x.sort != "i" or e < 0 for x, e in m):
            ok = False
            break
        den = den * co.denominator // math.gcd(den, co.denominator)
    if ok:
        return tdiv(a * den, lift(den))
    # single division of integers  p * q^-1
    return uf("trunc", a, sort="i")


from loops import summarize  # noqa: E402
