"""Bit-exact reasoning about machine doubles.

Proofs: every floating-point operation is replaced by its IEEE-754 specification over the reals
(classes NaN / infinities / finite, correct rounding characterised by the relative error bound,
gradual underflow, monotonicity with respect to representable numbers) and the negated
obligation is given to z3.  The relaxation admits every IEEE result, so an unsatisfiable query is
a proof for all machine numbers.  Countermodels are searched for with native doubles."""
import math, random, struct
from fractions import Fraction
from . import term as tm
from .values import Unsupported

MAX = (2 - Fraction(1, 2**52)) * Fraction(2) ** 1023
OVER = Fraction(2) ** 1024 - Fraction(2) ** 970
U = Fraction(1, 2**53)
ETA = Fraction(1, 2**1075)
FIN, PINF, NINF, NAN = 0, 1, 2, 3


class FpProof:
    def __init__(self, variables):
        import z3

        self.z3 = z3
        self.side = []
        self.memo = {}
        self.floats = []
        self.n = 0
        self.vars = {}
        for v in variables:
            self.vars[v] = self.fresh(v.args[0])
        self.zero = (z3.IntVal(FIN), z3.RealVal(0))
        self.late = []

    def q(self, x):
        return self.z3.RealVal(str(Fraction(x)))

    def fresh(self, name):
        z3 = self.z3
        self.n += 1
        k, v = z3.Int("k%d_%s" % (self.n, name)), z3.Real("v%d_%s" % (self.n, name))
        self.side += [k >= 0, k <= 3, z3.Implies(k == FIN, z3.And(v <= self.q(MAX), v >= self.q(-MAX)))]
        r = (k, v)
        self.floats.append(r)
        return r

    def const(self, bits):
        x = struct.unpack("<d", struct.pack("<Q", bits))[0]
        z3 = self.z3
        if x != x:
            return (z3.IntVal(NAN), z3.RealVal(0))
        if math.isinf(x):
            return (z3.IntVal(PINF if x > 0 else NINF), z3.RealVal(0))
        r = (z3.IntVal(FIN), self.q(Fraction(x)))
        self.floats.append(r)
        return r

    def rounded(self, e, exact_small):
        """a double that is the correctly rounded real e"""
        z3 = self.z3
        r = self.fresh("r")
        k, v = r
        a = z3.If(e >= 0, e, -e)
        eta = self.q(0) if exact_small else self.q(ETA)
        self.side += [
            z3.Or(k == FIN, z3.And(k == PINF, e >= self.q(OVER)), z3.And(k == NINF, e <= self.q(-OVER))),
            z3.Implies(k == FIN, z3.And(v - e <= self.q(U) * a + eta, e - v <= self.q(U) * a + eta)),
            z3.Implies(z3.And(k == FIN, e >= 0), v >= 0),
            z3.Implies(z3.And(k == FIN, e <= 0), v <= 0),
        ]
        if exact_small:
            self.side.append(z3.Implies(z3.And(k == FIN, v == 0), e == 0))
        self.late.append((r, e))
        return r

    def monotone(self):
        z3 = self.z3
        for (k, v), e in self.late:
            for fk, fv in self.floats:
                if v is fv:
                    continue
                for w in (fv, -fv):
                    self.side.append(z3.Implies(z3.And(fk == FIN, e >= w), z3.Or(k == PINF, z3.And(k == FIN, v >= w))))
                    self.side.append(z3.Implies(z3.And(fk == FIN, e <= w), z3.Or(k == NINF, z3.And(k == FIN, v <= w))))

    def sgn(self, a):
        """sign including infinities (zero counts as positive: only used where zero is excluded)"""
        z3 = self.z3
        k, v = a
        return z3.If(k == PINF, 1, z3.If(k == NINF, -1, z3.If(v < 0, -1, 1)))

    def f(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.f_(t)
        return r

    def f_(self, t):
        z3 = self.z3
        o = t.op
        if t in self.vars:
            return self.vars[t]
        if o == "f.const":
            return self.const(t.args[0])
        if o == "ite":
            c = self.b(t.args[0])
            a, b = self.f(t.args[1]), self.f(t.args[2])
            return (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))
        if o == "f.neg":
            k, v = self.f(t.args[0])
            return (z3.If(k == PINF, NINF, z3.If(k == NINF, PINF, k)), -v)
        if o == "f.abs":
            k, v = self.f(t.args[0])
            return (z3.If(k == NINF, PINF, k), z3.If(v >= 0, v, -v))
        if o in ("f.max", "f.min"):
            a, b = self.f(t.args[0]), self.f(t.args[1])
            lt = self.lt(a, b) if o == "f.max" else self.lt(b, a)
            pick_b = z3.Or(a[0] == NAN, z3.And(b[0] != NAN, lt))
            return (z3.If(pick_b, b[0], a[0]), z3.If(pick_b, b[1], a[1]))
        if o in ("f.add", "f.sub"):
            a, b = self.f(t.args[0]), self.f(t.args[1])
            if o == "f.sub":
                b = (z3.If(b[0] == PINF, NINF, z3.If(b[0] == NINF, PINF, b[0])), -b[1])
            r = self.rounded(a[1] + b[1], True)
            ai, bi = z3.Or(a[0] == PINF, a[0] == NINF), z3.Or(b[0] == PINF, b[0] == NINF)
            k = z3.If(z3.Or(a[0] == NAN, b[0] == NAN), NAN, z3.If(z3.And(ai, bi), z3.If(a[0] == b[0], a[0], NAN), z3.If(ai, a[0], z3.If(bi, b[0], r[0]))))
            return (k, r[1])
        if o in ("f.mul", "f.div") and t.args[0].op == "f.abs" and t.args[1].op == "f.abs":
            # |x| / |y| is |x / y|, signed zeros included
            return self.f(tm.mk("f.abs", (tm.mk(o, (t.args[0].args[0], t.args[1].args[0]), t.sort),), t.sort))
        if o in ("f.mul", "f.div"):
            a, b = self.f(t.args[0]), self.f(t.args[1])
            self.n += 1
            e = z3.Real("e%d" % self.n)
            ai, bi = z3.Or(a[0] == PINF, a[0] == NINF), z3.Or(b[0] == PINF, b[0] == NINF)
            az, bz = z3.And(a[0] == FIN, a[1] == 0), z3.And(b[0] == FIN, b[1] == 0)
            nan = z3.Or(a[0] == NAN, b[0] == NAN)
            # a zero operand may carry either sign: the sign of an infinite result is then unknown
            self.n += 1
            anysign = z3.Bool("s%d" % self.n)
            sg = z3.If(self.sgn(a) * self.sgn(b) > 0, PINF, NINF)
            if o == "f.mul":
                self.side.append(z3.Implies(z3.And(a[0] == FIN, b[0] == FIN), e == a[1] * b[1]))
                r = self.rounded(e, False)
                k = z3.If(z3.Or(nan, z3.And(ai, bz), z3.And(az, bi)), NAN, z3.If(z3.Or(ai, bi), sg, r[0]))
                return (k, r[1])
            self.side.append(z3.Implies(z3.And(a[0] == FIN, b[0] == FIN, z3.Not(bz)), e * b[1] == a[1]))
            # signs and magnitudes of the quotient, which help the solver
            self.side.append(z3.Implies(z3.And(a[0] == FIN, b[0] == FIN, z3.Not(bz), a[1] == 0), e == 0))
            r = self.rounded(e, False)
            k = z3.If(
                z3.Or(nan, z3.And(ai, bi), z3.And(az, bz)),
                NAN,
                z3.If(ai, z3.If(bz, z3.If(anysign, PINF, NINF), sg), z3.If(bi, FIN, z3.If(bz, z3.If(anysign, PINF, NINF), r[0]))),
            )
            return (k, z3.If(bi, self.q(0), r[1]))
        raise Unsupported("machine operation " + o)

    def lt(self, a, b):
        z3 = self.z3
        return z3.And(a[0] != NAN, b[0] != NAN, z3.Or(z3.And(a[0] == NINF, b[0] != NINF), z3.And(b[0] == PINF, a[0] != PINF), z3.And(a[0] == FIN, b[0] == FIN, a[1] < b[1])))

    def eq(self, a, b):
        z3 = self.z3
        return z3.And(a[0] != NAN, b[0] != NAN, a[0] == b[0], z3.Implies(a[0] == FIN, a[1] == b[1]))

    def b(self, t):
        z3 = self.z3
        o = t.op
        if o == "bool":
            return z3.BoolVal(t.args[0])
        if o == "not":
            return z3.Not(self.b(t.args[0]))
        if o == "and":
            return z3.And(*[self.b(a) for a in t.args])
        if o == "or":
            return z3.Or(*[self.b(a) for a in t.args])
        if o == "ite":
            return z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        if o in ("f.lt", "f.le", "f.eq"):
            a, b = self.f(t.args[0]), self.f(t.args[1])
            l, e = self.lt(a, b), self.eq(a, b)
            return l if o == "f.lt" else e if o == "f.eq" else z3.Or(l, e)
        if o == "f.isnan":
            return self.f(t.args[0])[0] == NAN
        if o == "f.isinf":
            k = self.f(t.args[0])[0]
            return z3.Or(k == PINF, k == NINF)
        if o == "f.isfinite":
            return self.f(t.args[0])[0] == FIN
        if o == "var" and t.sort == "B":
            return z3.Bool(t.args[0])
        raise Unsupported("machine predicate " + o)


def nat(t, env, memo=None):
    """evaluate with native doubles"""
    memo = {} if memo is None else memo

    def go(t):
        if t in memo:
            return memo[t]
        o = t.op
        a = [go(x) for x in t.args if isinstance(x, tm.T)]
        if o == "var":
            r = env[t.args[0]]
        elif o == "bool":
            r = t.args[0]
        elif o == "f.const":
            r = struct.unpack("<d", struct.pack("<Q", t.args[0]))[0]
        elif o == "not":
            r = not a[0]
        elif o == "and":
            r = all(a)
        elif o == "or":
            r = any(a)
        elif o == "ite":
            r = a[1] if a[0] else a[2]
        elif o == "f.add":
            r = a[0] + a[1]
        elif o == "f.sub":
            r = a[0] - a[1]
        elif o == "f.mul":
            r = a[0] * a[1]
        elif o == "f.div":
            r = fdiv(a[0], a[1])
        elif o == "f.neg":
            r = -a[0]
        elif o == "f.abs":
            r = abs(a[0])
        elif o == "f.max":
            r = a[1] if a[0] != a[0] else a[0] if a[1] != a[1] else max(a[0], a[1])
        elif o == "f.min":
            r = a[1] if a[0] != a[0] else a[0] if a[1] != a[1] else min(a[0], a[1])
        elif o == "f.sqrt":
            r = math.sqrt(a[0]) if a[0] >= 0 else math.nan
        elif o == "f.lt":
            r = a[0] < a[1]
        elif o == "f.le":
            r = a[0] <= a[1]
        elif o == "f.eq":
            r = a[0] == a[1]
        elif o == "f.isnan":
            r = a[0] != a[0]
        elif o == "f.isinf":
            r = math.isinf(a[0])
        elif o == "f.isfinite":
            r = math.isfinite(a[0])
        elif o == "f.signneg":
            r = math.copysign(1.0, a[0]) < 0
        else:
            raise Unsupported("machine operation " + o)
        memo[t] = r
        return r

    return go(t)


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.inf * math.copysign(1, a) * math.copysign(1, b)
    if math.isinf(b) and math.isinf(a):
        return math.nan
    return a / b


SPECIAL = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-300, 1e300, 1e-6, 300.0, -300.0]


def samples(seed, n):
    """(abs, rel, old, new) tuples: special values, and values near the acceptance boundary"""
    rng = random.Random(seed)
    sp = SPECIAL
    for o in sp:
        for w in sp:
            for a, r in ((1e-3, 1e-6), (math.inf, math.inf), (1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (1.0, -1.0), (math.nan, 1.0), (1.0, math.nan), (1e300, 1e300), (5e-324, 5e-324)):
                yield a, r, o, w
    for _ in range(n):
        e = rng.choice([rng.uniform(-3, 4), rng.uniform(-300, 300), rng.uniform(-20, 20)])
        o = rng.choice([1, -1]) * 10**e * rng.uniform(0.1, 1)
        re = rng.choice([rng.uniform(-12, 1), rng.uniform(-16, 0), rng.uniform(-300, 300)])
        d = o * 10**re * rng.choice([1, -1]) * rng.uniform(0.1, 1) if re + e < 300 else o
        w = o + d
        ad = abs(w - o)
        rd = abs(fdiv(w - o, o))
        k = rng.random()
        nx = lambda x: rng.choice([x, math.nextafter(x, math.inf), math.nextafter(x, 0.0), x * 2, x / 2, x * 10, x * 1.5, x * 0.7]) if math.isfinite(x) else x
        a = nx(ad) if k < 0.7 else 10 ** rng.uniform(-8, 8)
        r = nx(rd) if k > 0.3 else 10 ** rng.uniform(-12, 3)
        yield a, r, o, w
