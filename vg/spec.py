"""Framework for specifications: each property is a function(ctx) that analyses public entry points
and emits obligations.  See prove.py for the verdicts."""
import json, os, signal, sys, time, traceback
from sym import *
import prove
from prove import expand, decide_ob, Ob, Shape, Sampler, Any, norm
import hints as HN
from interp import Giveup, Diverge


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class Ctx:
    def __init__(self, pid, data, tier="quick"):
        self.pid, self.data, self.tier = pid, data, tier
        self.obs = []          # dicts
        self.entries = []
        self.covered = set()
        self.notes = []
        self.trace = False
        self.deadline = None

    def left(self, most):
        """seconds this step may take"""
        return most if self.deadline is None else max(1, min(most, int(self.deadline - time.time())))

    # ---- entry points
    def run(self, label, fn, build, tyenv=None, assume=None, timeout=120, recsum=None, summ=None):
        """analyse one public function; -> Res or None (undecided / missing, already reported)"""
        w = World(self.data)
        t0 = time.time()
        if recsum:
            w.I.recsum = recsum
            w.I.rec_root = w.I.rec_ret = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.left(timeout))
        try:
            f = w.find(fn) if isinstance(fn, str) else fn(w)
            for k, v in (summ or {}).items():
                try:
                    w.I.summ = dict(w.I.summ, **{w.find(k, True)["uid"]: v})
                except Missing:
                    pass
            args = build(w)
            w.I.entry_args = args
            if assume:
                w.assume(*(assume(w) if callable(assume) else assume))
            npc = len(w.st.pc)
            r = Res(self, label, w, f)
            r.npc = npc
            try:
                r.value = w.call(f, args, tyenv)
            except Diverge:
                r.value = None
            r.args = args
            if recsum and w.I.rec_root and not (isinstance(w.I.rec_ret, P) and isinstance(r.value, P) and same(w.I.rec_ret, r.value)):
                w.st.taint = "recursive function is not the entry point's own function"
            return r
        except Missing as e:
            self.obs.append({"id": label, "verdict": "VIOLATION", "detail": str(e), "function": str(fn)})
        except Timeout:
            self.und(label, fn, "analysis time limit")
        except Giveup as e:
            self.und(label, fn, "gave up: %s" % e)
        except RecursionError:
            self.und(label, fn, "recursion limit")
        except Exception as e:
            if self.trace:
                traceback.print_exc()
            self.und(label, fn, "%s: %s" % (type(e).__name__, e))
        finally:
            signal.alarm(0)
            self.covered |= w.I.covered
            self.entries.append({"entry": label, "seconds": round(time.time() - t0, 2), "loops": w.I.nloops, "calls": w.I.calls,
                                 "notes": w.I.notes[:6]})
        return None

    def variant(self, adt, name):
        """index of an enum variant by name"""
        for a in self.data["adts"]:
            if a["n"].split("::")[-1] == adt:
                for i, v in enumerate(a["v"]):
                    if v["n"] == name:
                        return i
        raise Missing("enum variant %s::%s is no longer defined" % (adt, name))

    def und(self, label, fn, why):
        self.obs.append({"id": label, "verdict": "UNDECIDED", "detail": why, "function": str(fn)})

    def ok(self, label, function, detail=""):
        self.obs.append({"id": label, "verdict": "PROVED", "function": function, "detail": detail})

    def bad(self, label, function, detail):
        self.obs.append({"id": label, "verdict": "VIOLATION", "function": function, "detail": detail})


def align(facts, code):
    """write sums in the facts with the bound variables the code uses"""
    cs, fs = [], []
    HN.collect(code, ("sum",), cs, set())
    HN.collect(tuple(facts), ("sum",), fs, set())
    by = {TM.fp(x): x for x in cs}
    mp = {x: lift(by[TM.fp(x)]) for x in fs if TM.fp(x) in by and by[TM.fp(x)] is not x}
    if not mp:
        return facts
    return tuple(HN.rewrite(f, lambda a: mp.get(a)) for f in facts)


class Res:
    def __init__(self, ctx, label, w, f):
        self.ctx, self.label, self.w, self.f = ctx, label, w, f
        self.value = None

    @property
    def diverges(self):
        return self.value is None

    def facts(self, kinds="GAP"):
        out = []
        for k, b in self.w.st.pc:
            if k in kinds:
                out.extend(b.a if b.k == "and" else (b,))
        return tuple(out)

    def returns(self, spec, sampler=None, name="returns", hints=(), facts=()):
        """returns normally iff spec (under the assumptions)"""
        pre = tuple(b for k, b in self.w.st.pc[:self.npc]) + tuple(facts)
        if self.diverges:
            code = F
        else:
            code = band(*[b for k, b in self.w.st.pc[self.npc:] if k in "AG"])
        if facts:
            pre = align(pre, code)
        # P facts discovered on the way hold only when execution reaches them; they are not used here
        self.emit(name, [Ob(name, pre, code, spec, hints)], sampler)

    def equal(self, name, code, spec, facts=(), sampler=None, hints=(), precond=T, alts=()):
        """code value equals spec value whenever the call returns"""
        if self.diverges:
            self.ctx.bad("%s/%s" % (self.label, name), self.f["path"], "the call never returns normally")
            return
        if isinstance(code, str):
            code = self.value
        out = []
        try:
            expand(name, self.facts() + tuple(facts), code, spec, out, hints)
        except Shape as e:
            self.ctx.obs.append({"id": "%s/%s" % (self.label, name), "verdict": "UNDECIDED", "detail": str(e), "function": self.f["path"]})
            return
        def al():
            r = []
            for a in alts:
                o2 = []
                try:
                    expand(name, self.facts() + tuple(facts), code, a() if callable(a) else a, o2, hints)
                except Shape:
                    continue
                if [x.where for x in o2] == [x.where for x in out]:
                    r.append(o2)
            return r
        self.emit(name, out, sampler, memo(al) if alts else None)

    def defect(self, name, code, spec, asis, facts=(), sampler=None):
        """a part of the property that is known not to hold.  asis: what the code computes instead, so that the
        known defect is one obligation and a further change of this part is a different violation"""
        sub = Ctx(self.ctx.pid, self.ctx.data, self.ctx.tier)
        sub.deadline = self.ctx.deadline
        me, self.ctx = self.ctx, sub
        try:
            self.equal(name, code, spec, facts, sampler)
            first = sub.obs
            sub.obs = []
            if any(o["verdict"] == "VIOLATION" for o in first):
                self.equal(name, code, asis, facts, sampler)
            second = sub.obs
        finally:
            self.ctx = me
        bad = [o for o in first if o["verdict"] == "VIOLATION"]
        if not bad:
            self.ctx.obs += first
            return
        new = [o for o in second if o["verdict"] == "VIOLATION"]
        if new:
            for o in new:
                o["id"] += " (other than the known defect)"
            self.ctx.obs += new
            return
        o = dict(bad[0])
        o["id"] = "%s/%s" % (self.label, name)
        self.ctx.obs.append(o)

    def emit(self, name, obs, sampler, alts=None):
        """alts: equivalent forms of the specification; proving any one of them suffices"""
        for n, ob in enumerate(obs):
            if sum(o["verdict"] == "VIOLATION" for o in self.ctx.obs) >= 12:
                break       # enough to report
            al = (lambda n=n: [a[n] for a in alts()]) if alts else None
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(self.ctx.left(90))
            try:
                taint = self.w.st.taint
                decide_ob(ob, sampler or Sampler(), al)
                if taint and ob.verdict != "PROVED":
                    ob.verdict, ob.detail = "UNDECIDED", "state not fully tracked: %s" % taint
                elif taint:
                    ob.verdict, ob.detail = "UNDECIDED", "state not fully tracked: %s" % taint
            except Timeout:
                ob.verdict, ob.detail = "UNDECIDED", "comparison time limit"
            except RecursionError:
                ob.verdict, ob.detail = "UNDECIDED", "recursion limit"
            except Exception as e:
                if self.ctx.trace:
                    traceback.print_exc()
                ob.verdict, ob.detail = "UNDECIDED", "%s: %s" % (type(e).__name__, e)
            finally:
                signal.alarm(0)
            v = "VIOLATION" if ob.verdict == "REFUTED" else ob.verdict
            d = {"id": "%s/%s" % (self.label, ob.where), "verdict": v, "function": self.f["path"], "at": self.f["span"]}
            if v == "VIOLATION":
                d["detail"] = {"witness": ob.detail, "code": str(norm_safe(ob.a, ob.facts))[:1500], "spec": str(ob.b)[:1500],
                               "facts": [str(x)[:200] for x in ob.facts][:20]}
            elif ob.detail:
                d["detail"] = str(ob.detail)[:max(1500, 4 * prove.SHOW)]
            self.ctx.obs.append(d)


def memo(f):
    c = []

    def g():
        if not c:
            c.append(f())
        return c[0]
    return g


def norm_safe(a, f):
    try:
        return norm(a, f)
    except Exception:
        return a
