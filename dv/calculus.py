"""Symbolic differentiation of terms, and rewriting of square roots of squares."""
from . import term as tm
from .term import T, num, add, mul, div, sub, neg


class NoDerivative(Exception):
    pass


def diff(t, x):
    """partial derivative of t with respect to the variable x"""
    memo = {}

    def go(t):
        if t is x:
            return tm.ONE
        if x not in tm.free(t):
            return tm.ZERO
        r = memo.get(t)
        if r is None:
            r = memo[t] = step(t)
        return r

    def step(t):
        o, a = t.op, t.args
        if o == "add":
            return add(*[go(y) for y in a])
        if o == "mul":
            out = []
            for i, y in enumerate(a):
                d = go(y)
                if not (tm.isnum(d) and tm.nval(d) == 0):
                    out.append(mul(d, *[z for j, z in enumerate(a) if j != i]))
            return add(*out) if out else tm.ZERO
        if o == "div":
            u, v = a
            return div(sub(mul(go(u), v), mul(u, go(v))), mul(v, v))
        if o == "sqrt":
            return div(go(a[0]), mul(num(2), t))
        if o == "sin":
            return mul(go(a[0]), tm.fn("cos", a[0]))
        if o == "cos":
            return neg(mul(go(a[0]), tm.fn("sin", a[0])))
        if o == "exp":
            return mul(go(a[0]), t)
        if o == "ln":
            return div(go(a[0]), a[0])
        raise NoDerivative(o)

    return go(t)


def roots(t):
    return [s for s in tm.subterms(t) if s.op == "sqrt"]


def sqrt_of_squares(t, cands):
    """replace sqrt(p) by a where a is a candidate known to be >= 0 and p = a*a"""
    m = {}
    for s in roots(t):
        for a in cands:
            if tm.ring_equal(s.args[0], mul(a, a))[0]:
                m[s] = a
                break
    return tm.subst(t, m) if m else t
