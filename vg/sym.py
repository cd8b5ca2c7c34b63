"""Symbolic inputs for the public functions, and the entry-point lookup used by the specifications."""
import json
from terms import *
import terms as TM
from values import *
from interp import Interp, St, Diverge, Giveup, INTS
from facts import decide, simp


class Missing(Exception):
    """a public entry point the property is stated about is gone"""


def real(name):
    return V(name, "r")


def nat(name):
    return V("#" + name, "i")


def rseq(name, n):
    av = AV(name)
    return mkseq(n, lambda i: sel(av, (), [i]))


def rfix(name, n):
    return Arr([V("%s%d" % (name, i), "r") for i in range(n)])


def cseq(name, n):
    a, b = AV(name + ".re"), AV(name + ".im")
    return mkseq(n, lambda i: Cx(sel(a, (), [i]), sel(b, (), [i])))


def sos_at(av, k):
    f = lambda name, i: sel(av, (name, i), [k])
    return Rec("Sos", (Arr([f("b", i) for i in range(3)]), Arr([f("a", i) for i in range(3)]), f("z", 0), f("z", 1)))


def sosseq(name, n):
    av = AV(name)
    return mkseq(n, lambda k: sos_at(av, k))


def iterof(seqval):
    n = seqlen(seqval)
    return ISeq(n, lambda i: seqget(seqval, i))


def zpk(z, p, k):
    return Rec("ZpkFormatFilter", (z, p, k))


def enumv(name, idx, pays=None):
    return Enum(name, idx, pays or {})


class World:
    """one analysis run: interpreter + state + helpers"""

    def __init__(self, data):
        self.I = Interp(data)
        self.st = St()

    def cell(self, v):
        return Ref(self.I.newcell(self.st, v))

    def assume(self, *bs):
        for b in bs:
            self.st.add("P", b)

    def find(self, suffix, private=False):
        c = [f for f in self.I.fns.values() if (f["pub"] or private) and f["kind"] in ("Fn", "AssocFn") and
             (f["path"] == suffix or f["path"].endswith("::" + suffix) or f["path"].endswith(suffix))]
        if not c:
            raise Missing("public function %s is no longer defined" % suffix)
        return min(c, key=lambda f: len(f["path"]))

    def call(self, suffix, args, tyenv=None):
        f = self.find(suffix) if isinstance(suffix, str) else suffix
        env = {g: {"k": "param", "n": g} for g in f["gens"]}
        env.update(tyenv or {})
        return self.I.call_uid(f["uid"], env, args, self.st)

    def get(self, r):
        return self.I.read(self.st, r)


def pay(v, variant):
    """first payload field of an enum value for a variant (None: the value has no such payload)"""
    for i, q in enumerate(v.key[1]):
        if q == variant:
            return v.kids[1 + i].kids[0]
    return Unk
