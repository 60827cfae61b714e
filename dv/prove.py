"""Discharging obligations: ring normal form with case splits, then z3; numeric search for
counterexamples of obligations that do not go through."""
import itertools, math, random, hashlib, time
from fractions import Fraction
import mpmath
from . import term as tm
from .term import T, TRUE, FALSE, intc
from .exec import decide, simp, any_ite

mpmath.mp.dps = 50
STATS = {"ring": 0, "z3": 0, "split": 0, "z3_s": 0.0, "queries": 0}


# ---- numeric evaluation ---------------------------------------------------------
class Undefined(Exception):
    pass


def h01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:8], "big") / 2.0**64


class Env:
    """an interpretation of all symbols: variables by sampling, functions by hashing"""

    def __init__(self, seed, hints=None, n=None):
        self.seed = seed
        self.vals = {}
        self.hints = hints or {}
        self.rng = random.Random(seed)
        self.mode = self.rng.random()
        self.n = n
        self.over = {}  # chosen values, by (name, sort, arguments)
        self.trace = None  # the values an evaluation asked for

    def rand(self, name, sort, key):
        k = (name, sort, key)
        if self.trace is not None and k not in self.trace:
            self.trace.append(k)
        if k in self.over:
            return self.over[k]
        u = h01(self.seed, name, key)
        base = name.split("!")[0]
        for pat, f in self.hints.items():
            if pat == name or (pat.endswith("*") and name.startswith(pat[:-1])) or (pat.startswith("*") and name.endswith(pat[1:])):
                r = f(u)
                return r if not isinstance(r, float) else mpmath.mpf(r)
        if sort == "B":
            return u < 0.5
        if sort == "I":
            if base.endswith(".len") or base.endswith("len"):
                return 2 + int(u * 3)
            if base.endswith("#"):
                return int(u * 2)
            return int(u * 5)
        if sort == "R":
            v = h01(self.seed, name, key, "s")
            x = 0.1 + 2.5 * u
            if v < 0.3 * (self.mode > 0.4):
                x = -x
            return mpmath.mpf(x)
        return ("O", name, key)

    def ev(self, t, bv=None, memo=None):
        memo = {} if memo is None else memo
        bv = bv or {}

        def go(t):
            if t in memo:
                return memo[t]
            r = self.step(t, go, bv)
            memo[t] = r
            return r

        return go(t)

    def step(self, t, go, bv):
        o = t.op
        if o == "num":
            v = t.args[0]
            if t.sort == "I":
                return int(v)
            return mpmath.mpf(v.numerator) / v.denominator
        if o == "bool":
            return t.args[0]
        if o == "var":
            if t is tm.PI:
                return mpmath.pi
            k = t.args[0]
            if self.trace is not None or self.over:
                self.vals[k] = self.rand(k, t.sort, ())
            elif k not in self.vals:
                self.vals[k] = self.rand(k, t.sort, ())
            return self.vals[k]
        if o == "bv":
            return bv[t]
        if o == "app":
            args = tuple(go(a) for a in t.args[1:])
            nm = t.args[0]
            if nm.startswith("linsolve"):
                return self.linsolve(int(nm[8:]), args)
            if nm == "ode.count":
                return int(mpmath.floor(args[0] + mpmath.mpf(10) ** -30)) + 1
            if nm == "idiv":
                if args[1] == 0:
                    raise Undefined()
                return int(args[0] / args[1])
            if nm.startswith("ode.y") and abs(args[-1] - args[-5]) < mpmath.mpf(10) ** -30:
                return args[-5 - args[-2] + int(nm[5:])]
            key = tuple(mpmath.nstr(a, 25) if isinstance(a, mpmath.mpf) else a for a in args)
            if nm in ("inv_zero", "nan"):
                raise Undefined()
            return self.rand(nm, t.sort, key)
        if o == "add":
            return sum((go(a) for a in t.args), 0 if t.sort == "I" else mpmath.mpf(0))
        if o == "mul":
            r = go(t.args[0])
            for a in t.args[1:]:
                r = r * go(a)
            return r
        if o in ("div", "pinv"):
            b = go(t.args[-1])
            a = go(t.args[0]) if o == "div" else mpmath.mpf(1)
            if abs(b) < mpmath.mpf(10) ** -25:
                raise Undefined()
            return a / b
        if o == "i2r":
            return mpmath.mpf(go(t.args[0]))
        if o == "abs":
            return abs(go(t.args[0]))
        if o == "sqrt":
            x = go(t.args[0])
            if x < 0:
                raise Undefined()
            return mpmath.sqrt(x)
        if o == "sin":
            return mpmath.sin(go(t.args[0]))
        if o == "cos":
            return mpmath.cos(go(t.args[0]))
        if o == "exp":
            x = go(t.args[0])
            if abs(x) > 10000:
                raise Undefined()
            return mpmath.exp(x)
        if o == "ln":
            x = go(t.args[0])
            if x <= 0:
                raise Undefined()
            return mpmath.log(x)
        if o == "ite":
            return go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        if o == "not":
            return not go(t.args[0])
        if o == "and":
            return all([go(a) for a in t.args])
        if o == "or":
            return any([go(a) for a in t.args])
        if o in ("eq", "lt", "le"):
            a, b = go(t.args[0]), go(t.args[1])
            if isinstance(a, tuple) or isinstance(b, tuple):
                return a == b
            if isinstance(a, mpmath.mpf) or isinstance(b, mpmath.mpf):
                close = abs(a - b) <= mpmath.mpf(10) ** -28 * (1 + abs(a) + abs(b))
                if o == "eq":
                    return bool(close)
                if close:
                    return o == "le"
            return a == b if o == "eq" else a < b if o == "lt" else a <= b
        if o in ("sum", "maxs", "mins", "lam"):
            n = go(t.args[0])
            b = tm.mk("bv", (int(tm.nval(t.args[2])),), "I")
            if n < 0 or n > 64:
                raise Undefined()
            vals = []
            for i in range(n):
                e = dict(bv)
                e[b] = i
                vals.append(self.ev(t.args[1], e, {}))
            if o == "sum":
                return sum(vals, mpmath.mpf(0))
            if o == "lam":
                return tuple(mpmath.nstr(v, 25) if isinstance(v, mpmath.mpf) else v for v in vals)
            if not vals:
                raise Undefined()
            return max(vals) if o == "maxs" else min(vals)
        if o == "isinf":
            return False
        if o in ("inf", "ninf"):
            raise Undefined()
        raise Undefined(o)

    def linsolve(self, j, args):
        n = int(round((-1 + math.sqrt(1 + 4 * len(args))) / 2))
        key = tuple(mpmath.nstr(a, 30) for a in args)
        c = self.vals.setdefault("#lin", {})
        if key not in c:
            A = mpmath.matrix(n, n)
            for jj in range(n):
                for i in range(n):
                    A[i, jj] = args[jj * n + i]
            b = mpmath.matrix([args[n * n + i] for i in range(n)])
            try:
                c[key] = mpmath.lu_solve(A, b)
            except ZeroDivisionError:
                raise Undefined()
        return c[key][j]

    def show(self):
        out = {}
        for k, v in self.vals.items():
            if k.startswith("#"):
                continue
            out[k] = float(v) if isinstance(v, mpmath.mpf) else v
        return out


def refute(goal, hyps=(), tries=300, seed=1, hints=None):
    """an interpretation with all hyps true and goal false, or None"""
    got = 0
    for i in range(tries):
        env = Env("%s/%d" % (seed, i), hints)
        try:
            if not all(env.ev(h) for h in hyps):
                continue
            got += 1
            if not env.ev(goal):
                return env
        except (Undefined, KeyError):
            continue
        if got >= 40:
            break
    return None


def thresholds(ts):
    """the comparisons in ts with the non-zero numbers in them; equality tests in guards"""
    seen, out = set(), []

    def consts(t, acc):
        if t.op == "num":
            if t.args[0] != 0:
                acc.append(abs(t.args[0]))
        elif t.op not in ("app", "sum", "maxs", "mins", "lam", "ite"):
            for a in t.args:
                if isinstance(a, T):
                    consts(a, acc)

    def go(t, guard):
        if (t, guard) in seen or t.op in ("sum", "maxs", "mins", "lam"):
            return
        seen.add((t, guard))
        if t.op in ("lt", "le", "eq") and t.args[0].sort in ("R", "I"):
            cs = []
            consts(t.args[0], cs)
            consts(t.args[1], cs)
            if (t.op == "eq" and guard) or (cs and t.op != "eq"):
                out.append((t, cs))
        for i, a in enumerate(t.args):
            if isinstance(a, T):
                go(a, guard or t.op == "ite" and i == 0)

    for t in ts:
        go(t, False)
    return out


def refute_near(goal, hyps=(), tries=300, seed=1, hints=None, seconds=12):
    """like refute, with values moved next to the numbers that guards compare with"""
    at = thresholds([goal] + list(hyps))
    if not at:
        return None
    real = [x for x in at if x[0].args[0].sort == "R"]
    t0 = time.time()
    for i in range(tries):
        if time.time() - t0 > seconds:
            return None
        env = Env("near%s/%d" % (seed, i), hints)
        rng = random.Random("near%s/%d" % (seed, i))
        try:
            for _ in range(1 if rng.random() < 0.7 else 2):
                t, cs = rng.choice(real if real and rng.random() < 0.8 else at)
                k = mpmath.mpf(1) if not cs else min(mpmath.mpf(c.numerator) / c.denominator for c in cs)
                if t.args[0].sort == "I":
                    to = 0 if t.op == "eq" else rng.choice([-2, -1, 0, 1, 2, int(k) // 2, -(int(k) // 2)])
                else:
                    to = mpmath.mpf(0) if t.op == "eq" else k * mpmath.mpf(rng.choice([-3, -0.5, -0.1, 0.1, 0.5, 3]))
                reach(env, t, to, rng)
            if all(env.ev(h) for h in hyps) and not env.ev(goal):
                return env
        except (Undefined, KeyError, OverflowError, ZeroDivisionError):
            continue
    return None


def reach(env, t, to, rng):
    """change one value so that the two sides of the comparison t differ by `to`"""
    d = lambda: env.ev(t.args[0]) - env.ev(t.args[1])
    env.trace = []
    env.over.setdefault(None, 0)
    d0 = d()
    ls = [k for k in env.trace if k[1] == t.args[0].sort]
    env.trace = None
    rng.shuffle(ls)
    for k in ls[:4]:
        old = env.over.get(k)
        x0 = env.rand(*k)
        if k[1] == "I":
            env.over[k] = x0 + 1
            s = d() - d0
            if s in (1, -1):
                env.over[k] = x0 + (to - d0) * s
                if d() == to:
                    return
        else:
            a, fa, b = x0, d0 - to, x0 + mpmath.mpf("0.01")
            for _ in range(12):
                env.over[k] = b
                fb = d() - to
                if abs(fb) < mpmath.mpf(10) ** -32 * (1 if to == 0 else abs(to)):
                    return
                if fb == fa:
                    break
                a, fa, b = b, fb, b - fb * (b - a) / (fb - fa)
        if old is None:
            env.over.pop(k, None)
        else:
            env.over[k] = old


def consistent(hyps, tries=400, seed=7, hints=None):
    """some interpretation satisfies the hypotheses: the obligation is not vacuous"""
    for i in range(tries):
        env = Env("c%s/%d" % (seed, i), hints)
        try:
            if all(env.ev(h) for h in hyps):
                return True
        except (Undefined, KeyError):
            continue
    return False


# ---- case splits ------------------------------------------------------------------
def first_cond(t, seen=None, out=None):
    """an innermost if-then-else condition occurring in t (not below a binder)"""
    seen = set() if seen is None else seen
    if t in seen or not any_ite(t):
        return None
    seen.add(t)
    if t.op in ("sum", "maxs", "mins", "lam"):
        return first_cond(t.args[0], seen)
    if t.op == "ite":
        c = first_cond(t.args[0], seen)
        if c is not None:
            return c
        return t.args[0]
    for a in t.args:
        if isinstance(a, T):
            c = first_cond(a, seen)
            if c is not None:
                return c
    return None


def atoms(c):
    """an atomic formula of c"""
    while c.op in ("not", "and", "or"):
        c = c.args[0]
    return c


def assume(pc, c):
    if c.op == "and":
        for x in c.args:
            pc = assume(pc, x)
        return pc
    return pc if c in pc or c is TRUE else pc + (c,)


def prove(goal, hyps=(), depth=0, timeout=10000, use_z3=True, nl=True, limit=None):
    """True if the obligation is discharged"""
    limit = limit if limit is not None else [4000]
    limit[0] -= 1
    if limit[0] < 0:
        return False
    hyps = tuple(hyps)
    if FALSE in hyps:
        return True
    if depth == 0:
        if goal.op == "eq" and ring_true(goal):
            STATS["ring"] += 1
            return True
        goal = signed(peel_ends(goal, hyps), hyps)
    goal = simp(hyps, goal)
    goal = decide(hyps, goal)
    if goal is TRUE:
        STATS["ring"] += 1
        return True
    if goal.op == "and":
        return all(prove(g, hyps, depth, timeout, use_z3, nl, limit) for g in goal.args)
    if goal.op == "or" and depth < 40:
        neg = [tm.not_(g) for g in goal.args]
        # prove the last disjunct that is not a plain hypothesis under the negation of the others
        eqs = [g for g in goal.args if g.op == "eq" and g.args[0].sort == "R"] or list(goal.args[-1:])
        g = eqs[0]
        h = hyps
        for x in goal.args:
            if x is not g:
                h = assume(h, tm.not_(x))
        return prove(g, h, depth + 1, timeout, use_z3, nl, limit)
    c = first_cond(goal)
    if c is None and goal.op not in ("lt", "le", "eq", "not", "or"):
        c = None
    if c is not None and depth < 40:
        a = atoms(c)
        STATS["split"] += 1
        na = tm.not_(a)
        h1, h2 = assume(hyps, a), assume(hyps, na)
        return prove_case(goal, h1, depth, timeout, use_z3, nl, limit) and prove_case(goal, h2, depth, timeout, use_z3, nl, limit)
    if ring_true(goal):
        STATS["ring"] += 1
        return True
    if use_z3:
        return z3_prove(goal, hyps, timeout, nl)
    return False


def prove_case(goal, hyps, depth, timeout, use_z3, nl, limit):
    # simplify hypotheses that became decided
    new = []
    for i, h in enumerate(hyps):
        if h.op in ("or", "ite", "not") and h not in new:
            d = decide(tuple(x for j, x in enumerate(hyps) if j != i), h)
            if d is FALSE:
                return True
            if d is not h:
                if d is not TRUE:
                    new.extend(d.args if d.op == "and" else [d])
                continue
        new.append(h)
    hyps = tuple(dict.fromkeys(new))
    m = pinched(hyps)
    if m:
        goal = tm.subst(goal, m)
        hyps = tuple(dict.fromkeys(hyps + tuple(tm.subst(h, m) for h in hyps)))
    return prove(goal, hyps, depth + 1, timeout, use_z3, nl, limit)


def peel_ends(goal, hyps):
    """sums and extrema whose first or last element has a case of its own: that element apart"""
    m = {}
    for t in tm.subterms(goal):
        if t.op not in ("maxs", "mins", "sum"):
            continue
        n, b, d = t.args
        bv = tm.mk("bv", (int(tm.nval(d)),), "I")
        if bv in tm.free(n):
            continue
        last = tm.canon(tm.sub(n, intc(1)))
        end = None
        for s in tm.subterms(b):
            if s.op == "ite":
                for c in tm.conjuncts_of(s.args[0]):
                    if c.op == "eq" and bv in c.args:
                        x = tm.canon(c.args[0] if c.args[1] is bv else c.args[1])
                        end = x if x is intc(0) or x is last else end
        if end is None or decide(hyps, tm.le(intc(1), last)) is not TRUE:
            continue
        v = tm.fresh("i", "I")
        one = tm.subst(b, {bv: end})
        rest = tm.binder_of(t.op, last, v, tm.subst(b, {bv: tm.add(v, intc(1)) if end is intc(0) else v}))
        m[t] = tm.add(one, rest) if t.op == "sum" else tm.ite(tm.lt(one, rest) if t.op == "maxs" else tm.lt(rest, one), rest, one)
    return tm.subst(goal, m) if m else goal


def pinched(hyps):
    """x <= c and c <= x: x = c"""
    les = set()
    for h in hyps:
        if h.op == "le":
            les.add(h.args)
        elif h.op == "not" and h.args[0].op == "lt":
            les.add((h.args[0].args[1], h.args[0].args[0]))
        elif h.op == "eq" and h.args[0].sort == "I":
            les.update((h.args, h.args[::-1]))
    return {a: b for a, b in les if tm.isnum(b) and a.op in ("var", "app") and (b, a) in les}


def ring_true(goal):
    try:
        if goal.op == "eq" and goal.args[0].sort in "RI" and goal.args[1].sort in "RI":
            a, b = goal.args
            if a.op in ("inf", "ninf") or b.op in ("inf", "ninf"):
                return False
            ok, _ = tm.ring_equal(a, b)
            return ok
        return tm.canon(goal) is TRUE
    except tm.NonFinite:
        return False


def valid(goal, hyps=()):
    return prove(goal, hyps, timeout=2000)


# ---- z3 ---------------------------------------------------------------------------
def z3_prove(goal, hyps, timeout=10000, nl=True, lemmas=()):
    import z3

    t0 = time.time()
    STATS["queries"] += 1
    for mode in (("lin", "nl") if nl else ("lin",)):
        try:
            tr = Z3(z3, mode)
            s = z3.Solver() if mode == "lin" else z3.SolverFor("QF_UFNRA") if False else z3.Solver()
            s.set("timeout", timeout)
            s.set("random_seed", 1)
            for h in hyps:
                e = tr.b(h)
                if e is not None:
                    s.add(e)
            for h in lemmas:
                s.add(tr.b(h))
            g = tr.b(goal)
            s.add(z3.Not(g))
            for e in tr.side:
                s.add(e)
            r = s.check()
        except (tm.NonFinite, z3.Z3Exception, NotImplementedError, RecursionError):
            continue
        if r == z3.unsat:
            STATS["z3"] += 1
            STATS["z3_s"] += time.time() - t0
            return True
    STATS["z3_s"] += time.time() - t0
    return False


def z3_sat(hyps, timeout=10000):
    """all of hyps are translated and z3 finds a model"""
    import z3

    try:
        tr = Z3(z3, "lin")
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("random_seed", 1)
        for h in hyps:
            e = tr.b(h)
            if e is None:
                return False
            s.add(e)
        for e in tr.side:
            s.add(e)
        return s.check() == z3.sat
    except (tm.NonFinite, z3.Z3Exception, NotImplementedError, RecursionError):
        return False


class Z3:
    def __init__(self, z3, mode):
        self.z3 = z3
        self.mode = mode
        self.memo = {}
        self.names = {}
        self.side = []

    def atom(self, a, sort="R"):
        k = ("atom", a)
        r = self.memo.get(k)
        if r is None:
            z3 = self.z3
            n = "a%d" % a.id
            r = z3.Real(n) if sort == "R" else z3.Int(n) if sort == "I" else z3.Bool(n)
            self.memo[k] = r
            if a.op == "exp":
                self.side.append(r > 0)
            elif a.op == "abs":
                self.side.append(r >= 0)
                x = self.r(a.args[0])
                self.side.append(z3.Or(r == x, r == -x))
            elif a.op == "sqrt":
                self.side.append(r >= 0)
                x = self.r(a.args[0])
                if self.mode == "nl":
                    self.side.append(z3.Implies(x >= 0, r * r == x))
                self.side.append(z3.Implies(x > 0, r > 0))
            elif a.op in ("sin", "cos"):
                self.side.append(r <= 1)
                self.side.append(r >= -1)
                if self.mode == "nl":
                    o = tm.mk("cos" if a.op == "sin" else "sin", a.args, "R")
                    self.memo.setdefault(("trig", a.args), False)
                    if not self.memo[("trig", a.args)]:
                        self.memo[("trig", a.args)] = True
                        q = self.atom(o)
                        self.side.append(r * r + q * q == 1)
            elif a is tm.PI:
                self.side.append(r > z3.RealVal("3.14159"))
                self.side.append(r < z3.RealVal("3.1416"))
            elif a.op == "pinv":
                x = self.r(a.args[0])
                if self.mode == "nl":
                    self.side.append(z3.Implies(x != 0, r * x == 1))
                self.side.append(z3.Implies(x > 0, r > 0))
                self.side.append(z3.Implies(x < 0, r < 0))
            elif a.op == "ite":
                self.side.append(z3.If(self.b(a.args[0]), r == self.r(a.args[1]), r == self.r(a.args[2])))
        return r

    def inv(self, a):
        """reciprocal of an atom"""
        k = ("inv", a)
        r = self.memo.get(k)
        if r is None:
            z3 = self.z3
            r = z3.Real("inv%d" % a.id)
            self.memo[k] = r
            x = self.atom(a)
            self.side.append(z3.Implies(x > 0, r > 0))
            self.side.append(z3.Implies(x < 0, r < 0))
            if self.mode == "nl":
                self.side.append(z3.Implies(x != 0, r * x == 1))
        return r

    def r(self, t):
        if t.op == "ite" and t.sort in "RI":
            z3 = self.z3
            return z3.If(self.b(t.args[0]), self.r(t.args[1]), self.r(t.args[2]))
        if t.sort == "I":
            return self.i(t)
        z3 = self.z3
        p = tm.norm(t)
        out = []
        for m, c in p.d.items():
            cv = z3.RealVal(str(c))
            if not m:
                out.append(cv)
                continue
            if self.mode == "lin" and (len(m) > 1 or m[0][1] != 1):
                k = ("mono", tuple((a.id, e) for a, e in m))
                x = self.memo.get(k)
                if x is None:
                    x = z3.Real("m" + "_".join("%d^%d" % (a.id, e) for a, e in m))
                    self.memo[k] = x
                    # even powers are not negative; products of signs
                    if all(e % 2 == 0 for _, e in m):
                        self.side.append(x >= 0)
                    elif len(m) <= 4:
                        fs = [self.atomR(a) for a, e in m]
                        self.side.append(z3.Implies(z3.And(*[f > 0 for f in fs]), x > 0))
                        if len(m) == 2 and all(e % 2 for _, e in m):
                            self.side.append(z3.Implies(z3.And(fs[0] > 0, fs[1] < 0), x < 0))
                            self.side.append(z3.Implies(z3.And(fs[0] < 0, fs[1] > 0), x < 0))
                            self.side.append(z3.Implies(z3.And(fs[0] < 0, fs[1] < 0), x > 0))
                            if all(e > 0 for _, e in m):
                                self.side.append(z3.Implies(fs[0] == 0, x == 0))
                                self.side.append(z3.Implies(fs[1] == 0, x == 0))
                out.append(cv * x)
                continue
            y = cv
            for a, e in m:
                if e > 0:
                    for _ in range(e):
                        y = y * self.atomR(a)
                else:
                    for _ in range(-e):
                        y = y * self.inv(a)
            out.append(y)
        if not out:
            return z3.RealVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def atomR(self, a):
        if a.sort == "I":
            return self.z3.ToReal(self.atom(a, "I"))
        return self.atom(a)

    def i(self, t):
        z3 = self.z3
        if t.op == "ite":
            return z3.If(self.b(t.args[0]), self.i(t.args[1]), self.i(t.args[2]))
        p = tm.norm(t)
        out = []
        for m, c in p.d.items():
            if c.denominator != 1:
                raise NotImplementedError()
            y = z3.IntVal(int(c))
            for a, e in m:
                if e < 0:
                    raise NotImplementedError()
                if a.op == "ite":
                    v = self.i(a)
                else:
                    v = self.atom(a, "I")
                for _ in range(e):
                    y = y * v
            out.append(y)
        return z3.Sum(out) if out else z3.IntVal(0)

    def b(self, t):
        k = ("b", t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.b_(t)
        return r

    def b_(self, t):
        z3 = self.z3
        o = t.op
        if o == "bool":
            return z3.BoolVal(t.args[0])
        if o == "not":
            return z3.Not(self.b(t.args[0]))
        if o == "and":
            return z3.And(*[self.b(a) for a in t.args])
        if o == "or":
            return z3.Or(*[self.b(a) for a in t.args])
        if o in ("eq", "lt", "le"):
            a, b = t.args
            if a.sort == "O" or b.sort == "O":
                return self.atom(t, "B")
            if a.op in ("inf", "ninf") or b.op in ("inf", "ninf"):
                raise tm.NonFinite()
            if a.sort == "I" and b.sort == "I":
                x, y = self.i(a), self.i(b)
            elif any_ite(a) or any_ite(b):
                x, y = self.r(a), self.r(b)
            else:
                x, y = self.r(tm.sub(a, b)), z3.RealVal(0)
            return x == y if o == "eq" else x < y if o == "lt" else x <= y
        if o == "ite":
            return z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        return self.atom(tm.canon(t) if t.op == "app" else t, "B")


# ---- signs -------------------------------------------------------------------
class Signs:
    """signs of real terms from the signs of their atoms: 1 positive, 2 not negative, -1 negative, -2 not positive"""

    def __init__(self, hyps):
        self.known = []
        self.memo = {}
        for h in hyps:
            strict = True
            if h.op == "not" and h.args[0].op in ("lt", "le"):
                strict = h.args[0].op == "le"
                a, b = h.args[0].args[1], h.args[0].args[0]
            elif h.op in ("lt", "le"):
                strict = h.op == "lt"
                a, b = h.args
            else:
                continue
            if a.sort != "R" or b.sort != "R":
                continue
            try:
                p = tm.norm(tm.sub(b, a))
            except tm.NonFinite:
                continue
            if p.d:
                k = abs(tm.lead(p))
                self.known.append(({m: v / k for m, v in p.d.items()}, 1 if strict else 2))

    def poly(self, p):
        if not p.d:
            return 0
        k = abs(tm.lead(p))
        d = {m: v / k for m, v in p.d.items()}
        for e, s in self.known:
            if e == d:
                return s
            if len(e) == len(d) and all(e.get(m) == -v for m, v in d.items()):
                return -s
        out = None
        for m, v in p.d.items():
            s = self.mono(m, v)
            if s is None or (out is not None and (s > 0) != (out > 0)):
                return None
            out = s if out is None or abs(s) < abs(out) else out
        return out

    def mono(self, m, v):
        strict, sg = True, 1 if v > 0 else -1
        for a, e in m:
            s = self.atom(a)
            if s == 0:
                return None
            if e % 2 == 0:
                # a square: not negative, and not zero where the atom is not
                if s is None or abs(s) == 2:
                    if e < 0:
                        return None
                    strict = False
                continue
            if s is None:
                return None
            if abs(s) == 2:
                if e < 0:
                    return None
                strict = False
            sg = sg if s > 0 else -sg
        return sg * (1 if strict else 2)

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        self.memo[a] = None
        s = None
        one = {((a, 1),): 1}
        for e, k in self.known:
            if e == one:
                s = k if s is None or abs(k) < abs(s) else s
            elif len(e) == 1 and e.get(((a, 1),)) == -1:
                s = -k if s is None or abs(k) < abs(s) else s
        if s is None:
            if a is tm.PI or a.op == "exp":
                s = 1
            elif a.op == "sqrt":
                s = 1 if self.of(a.args[0]) == 1 else 2
            elif a.op == "abs":
                s = 1 if self.of(a.args[0]) in (1, -1) else 2
            elif a.op == "pinv":
                k = self.of(a.args[0])
                s = k if k in (1, -1) else None
            elif a.op == "ite" and a.sort == "R":
                x, y = self.of(a.args[1]), self.of(a.args[2])
                if x and y and (x > 0) == (y > 0):
                    s = x if abs(x) == 2 else y
        self.memo[a] = s
        return s

    def of(self, t):
        try:
            return self.poly(tm.norm(t))
        except tm.NonFinite:
            return None


def has_op(t, ops, memo):
    r = memo.get(t)
    if r is None:
        r = t.op in ops or any(isinstance(a, T) and has_op(a, ops, memo) for a in t.args)
        memo[t] = r
    return r


def signed(goal, hyps):
    """goal with the magnitudes and the comparisons in it that the signs of their parts decide"""
    memo = {}
    if not has_op(goal, ("abs", "ite"), memo):
        return goal
    S = Signs(hyps)
    done = {}

    def go(t, bound):
        if not has_op(t, ("abs", "ite"), memo) and not (bound and t.op in ("lt", "le", "not", "and", "or")):
            return t
        k = (t, bound)
        r = done.get(k)
        if r is not None:
            return r
        na = tuple(go(a, t.op == "ite" and i == 0 or (bound and t.sort == "B")) if isinstance(a, T) else a for i, a in enumerate(t.args))
        r = t if na == t.args else tm.rebuild(t.op, na, t.sort)
        if r.op == "abs":
            s = S.of(r.args[0])
            if s:
                r = r.args[0] if s > 0 else tm.neg(r.args[0])
        elif bound and r.op in ("lt", "le") and r.args[0].sort == "R":
            s = S.of(tm.sub(r.args[1], r.args[0])) if not any(x.op in ("inf", "ninf") for x in r.args) else None
            if s:
                if s == 1 or (s == 2 and r.op == "le"):
                    r = TRUE
                elif s == -1 or (s == -2 and r.op == "lt"):
                    r = FALSE
        done[k] = r
        return r

    return go(goal, False)
