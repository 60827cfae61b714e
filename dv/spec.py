"""Framework for property specifications: obligations, their discharge and their report."""
import time, traceback
from . import term as tm
from . import prove as pv
from .term import T, TRUE, FALSE, intc
from .exec import Exec, Prog, St, FpDom, RealDom, decide, simp
from .values import *
from .contracts import find_fn


class Ob:
    __slots__ = ("name", "status", "backend", "detail", "wall")

    def __init__(self, name, status, backend, detail, wall):
        self.name, self.status, self.backend, self.detail, self.wall = name, status, backend, detail, wall

    def js(self):
        return {"name": self.name, "status": self.status, "backend": self.backend, "detail": self.detail, "wall_s": round(self.wall, 3)}


class Lost(Exception):
    """the function a specification is attached to was not found"""


class Ctx:
    def __init__(self, prog, seed=1, tier="quick", deadline=None):
        self.p = prog
        self.seed = seed
        self.tier = tier
        self.obs = []
        self.functions = set()
        self.contracts = set()
        self.models = set()
        self.opaque = set()
        self.assumptions = []
        self.unsupported = []
        self.deadline = deadline or time.time() + 600
        self.findings = []

    # ---- running code -------------------------------------------------------
    def exec(self, dom=None, **kw):
        ex = Exec(self.p, dom)
        for k, v in kw.items():
            setattr(ex, k, v)
        return ex

    def done(self, ex):
        self.functions |= set(ex.inlined)
        self.models |= set(ex.used_models)
        self.contracts |= set(ex.used_contracts)
        self.opaque |= set(ex.opaque_methods)

    def body(self, names, params=None, ret=None, pick=None):
        if isinstance(names, str):
            names = [names]
        bs = find_fn(self.p, names, params, ret)
        if pick:
            bs = [b for b in bs if pick(b)]
        if not bs:
            raise Lost(names[0])
        gen = [b for b in bs if b["id"].endswith("@" + b["path"])]
        return (gen or bs)[0]

    def run(self, ex, b, args, st=None):
        """value of a call; the path condition excludes panics"""
        res = ex.run_body(b, args, st or St({}, ()))
        self.done(ex)
        if not res:
            raise Unsupported("%s never returns" % b["path"])
        return res[0]

    # ---- obligations -----------------------------------------------------------
    def ob(self, name, goal, hyps=(), hints=None, tries=400, timeout=10000, nl=True, lemmas=(), use=None, backend=None):
        t0 = time.time()
        hyps = [h for h in hyps if h is not TRUE]
        if any(h is FALSE for h in hyps):
            self.obs.append(Ob(name, "unknown", "-", "the hypotheses are contradictory", 0.0))
            return False
        b0 = dict(pv.STATS)
        try:
            ok = pv.prove(goal, tuple(hyps) + tuple(lemmas), timeout=timeout, nl=nl)
        except (tm.NonFinite, RecursionError) as e:
            ok = False
        if ok:
            be = "z3" if pv.STATS["z3"] > b0["z3"] else "ring"
            self.obs.append(Ob(name, "proved", be, "", time.time() - t0))
            return True
        env = pv.refute(goal, list(hyps), tries=tries, seed=self.seed, hints=hints) or pv.refute_near(goal, list(hyps), seed=self.seed, hints=hints)
        if env is not None:
            self.obs.append(Ob(name, "refuted", "numeric countermodel", {"model": {k: v for k, v in list(env.show().items())[:60]}, "goal": tm.show(goal)[:3000]}, time.time() - t0))
        else:
            self.obs.append(Ob(name, "unknown", "-", {"goal": tm.show(goal)[:3000]}, time.time() - t0))
        return False

    def ob_or_finding(self, name, goal, hyps, finding, **kw):
        """an obligation that fails in one recorded way (known finding); any other failure is reported"""
        t0 = time.time()
        try:
            ok = pv.prove(goal, tuple(h for h in hyps if h is not TRUE), timeout=5000)
        except (tm.NonFinite, RecursionError):
            ok = False
        if not ok:
            try:
                k = finding()
            except Unsupported:
                k = None
            if k is not None:
                self.findings.append(k)
                self.obs.append(Ob(name, "known", "ring", "known finding %s: %s" % k, time.time() - t0))
                return False
        return self.ob(name, goal, hyps, **kw)

    def eq(self, name, a, b, hyps=(), **kw):
        """equality of two values of the same shape"""
        if isinstance(a, T) and isinstance(b, T):
            return self.ob(name, tm.eq(a, b), hyps, **kw)
        fa, fb = [], []
        flatten(a, fa)
        flatten(b, fb)
        if len(fa) != len(fb):
            self.obs.append(Ob(name, "unknown", "-", "values of different shapes", 0.0))
            return False
        return self.ob(name, tm.and_(*[tm.eq(x, y) for x, y in zip(fa, fb)]), hyps, **kw)

    def seq_eq(self, name, s, n, at, hyps=(), **kw):
        """sequence s has length n and elements at(i)"""
        i = tm.fresh("ix", "I")
        r1 = self.ob(name + " length", tm.eq(s.n, n), hyps, **kw)
        h = list(hyps) + [tm.le(intc(0), i), tm.lt(i, n)]
        r2 = self.eq(name + " elements", s.at(i), at(i), h, **kw)
        return r1 and r2

    def part(self, name, fn, *a):
        """one part of a specification; a part that cannot be verified leaves the others standing"""
        try:
            return fn(*a)
        except (Lost, Unsupported, tm.NonFinite, RecursionError) as e:
            self.unsupported.append("%s: %s" % (name, (str(e) or type(e).__name__)[:300]))
            return None

    def vacuity(self, name, hyps, hints=None):
        """the hypotheses of a group of obligations have a model"""
        t0 = time.time()
        ok = pv.consistent([h for h in hyps if h is not TRUE], hints=hints)
        self.obs.append(Ob("non-vacuous: " + name, "proved" if ok else "unknown", "numeric model", "", time.time() - t0))
        return ok

    def note(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def with_len(v, n):
    """all vectors inside v have length n"""
    if isinstance(v, SeqV):
        return SeqV(n, v.at)
    if isinstance(v, Tup):
        return Tup(v.ty, [with_len(x, n) for x in v.fields])
    if isinstance(v, VRef):
        return VRef(with_len(v.v, n))
    if isinstance(v, BoxV):
        return BoxV(with_len(v.v, n))
    return v


def method(ex, st, trait, name, obj, args, dty):
    """the value of a method of a user-supplied component"""
    fl = []
    flatten(ex.strip(st, obj), fl)
    for a in args:
        flatten(ex.strip(st, a), fl)
    fl = [simp(st.pc, x) for x in fl]
    return ex.uf(dty, "%s::%s" % (trait, name), fl)


def trapz(n, x, y):
    """trapezoidal integral of y over x for n points"""
    return tm.binder("sum", tm.sub(n, intc(1)), lambda i: tm.mul(tm.num("1/2"), tm.add(y(i), y(tm.add(i, intc(1)))), tm.sub(x(tm.add(i, intc(1))), x(i))))
