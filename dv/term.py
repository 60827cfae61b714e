"""Hash-consed terms (sorts R real, I integer, B bool, O:<name> opaque) and
their rational-function normal form."""
from fractions import Fraction
import itertools
import math

_table = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "_norm", "_bvd", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args=(), sort="R"):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_cnt)
        t._norm = None
        t._bvd = None
        t._fv = None
        _table[k] = t
    return t


TRUE = mk("bool", (True,), "B")
FALSE = mk("bool", (False,), "B")
INF = mk("inf", (), "R")
NINF = mk("ninf", (), "R")
PI = mk("var", ("pi",), "R")


class NonFinite(Exception):
    """arithmetic on an infinity that the real model cannot express"""


def num(x):
    return mk("num", (Fraction(x),), "R")


def intc(x):
    return mk("num", (Fraction(x),), "I")


ZERO = num(0)
ONE = num(1)


def var(name, sort="R"):
    return mk("var", (name,), sort)


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(args), sort)


def isnum(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


def boolc(b):
    return TRUE if b else FALSE


_fresh = itertools.count()


def fresh(name, sort="R"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def _chk(*ts):
    for t in ts:
        if t.op in ("inf", "ninf"):
            raise NonFinite()


def add(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    _chk(*ts)
    sort = "I" if all(t.sort == "I" for t in ts) else "R"
    c = Fraction(0)
    out = []
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for u in t.args:
                if u.op == "num":
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(mk("num", (c,), sort))
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), sort)


def mul(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    if any(t.op in ("inf", "ninf") for t in ts):
        raise NonFinite()
    sort = "I" if all(t.sort == "I" for t in ts) else "R"
    c = Fraction(1)
    out = []
    for t in ts:
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for u in t.args:
                if u.op == "num":
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return mk("num", (Fraction(0),), sort)
    if not out:
        return mk("num", (c,), sort)
    if c != 1:
        out.insert(0, mk("num", (c,), sort))
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(out), sort)


def neg(t):
    if t is INF:
        return NINF
    if t is NINF:
        return INF
    return mul(mk("num", (Fraction(-1),), t.sort), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if b in (INF, NINF):
        _chk(a)
        return ZERO
    _chk(a)
    if isnum(b) and nval(b) != 0:
        return mul(num(1 / nval(b)), a)
    if isnum(a) and nval(a) == 0 and not isnum(b):
        pass
    return mk("div", (a, b), "R")


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    return mul(*([a] * n)) if n > 1 else a


def fn(name, a):
    if name == "abs":
        if a in (INF, NINF):
            return INF
        if isnum(a):
            return num(abs(nval(a)))
    _chk(a)
    if isnum(a):
        v = nval(a)
        if name == "sqrt" and v in (0, 1):
            return a
        if v == 0:
            if name == "sin":
                return ZERO
            if name in ("cos", "exp"):
                return ONE
        if v == 1 and name == "ln":
            return ZERO
    return mk(name, (a,), "R")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    sort = a.sort if a.sort == b.sort else "R"
    return mk("ite", (c, a, b), sort)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,), "B")


def and_(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    out = []
    seen = set()
    for c in cs:
        for x in c.args if c.op == "and" else (c,):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            if not_(x) in seen:
                return FALSE
            seen.add(x)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    out = []
    seen = set()
    for c in cs:
        for x in c.args if c.op == "or" else (c,):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in seen:
                continue
            if not_(x) in seen:
                return TRUE
            seen.add(x)
            out.append(x)
    # absorption: (a) or (a and b)
    out2 = []
    for x in out:
        if x.op == "and" and any(y in seen for y in x.args):
            continue
        out2.append(x)
    out = out2
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a in (INF, NINF) or b in (INF, NINF):
        # the other side is a finite real in this model
        return FALSE
    if isnum(a) and isnum(b):
        return boolc(nval(a) == nval(b))
    if a.sort == "I" and b.sort == "I":
        c = norm(sub(a, b)).const()
        if c is not None:
            return boolc(c == 0)
    if isnum(b) and a.op == "ite":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if isnum(a) and b.op == "ite":
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def lt(a, b):
    if a is b:
        return FALSE
    if a is NINF or b is INF:
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    if isnum(a) and isnum(b):
        return boolc(nval(a) < nval(b))
    if a.sort == "I" and b.sort == "I":
        d = norm(sub(b, a))
        c = d.const()
        if c is not None:
            return boolc(c > 0)
    a, b = _flip(a, b)
    return mk("lt", (a, b), "B")


def le(a, b):
    if a is b:
        return TRUE
    if a is NINF or b is INF:
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    if isnum(a) and isnum(b):
        return boolc(nval(a) <= nval(b))
    if a.sort == "I" and b.sort == "I":
        d = norm(sub(b, a))
        c = d.const()
        if c is not None:
            return boolc(c >= 0)
        return mk("le", (a, b), "B")
    a, b = _flip(a, b)
    return mk("le", (a, b), "B")


def _flip(a, b):
    """-x against a number: compare x"""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isnum(y) and x.op == "mul" and isnum(x.args[0]) and nval(x.args[0]) < 0 and x.sort == "R" and y.sort == "R":
            c = nval(x.args[0])
            x2, y2 = mul(*x.args[1:]) if len(x.args) > 2 else x.args[1], num(nval(y) / c)
            return (y2, x2) if not sw else (x2, y2)
    return a, b


def i2r(a):
    if isnum(a):
        return num(nval(a))
    return mk("i2r", (a,), "R")


# ---- binders -------------------------------------------------------------
def bvdepth(t):
    """largest bound-variable number occurring in t, or -1"""
    if t._bvd is None:
        if t.op == "bv":
            t._bvd = t.args[0]
        else:
            d = -1
            for a in t.args:
                if isinstance(a, T):
                    d = max(d, bvdepth(a))
            t._bvd = d
    return t._bvd


def binder(op, n, f, sort="R"):
    """op(n, lambda i. f(i)) for i in 0..n"""
    v = fresh("i", "I")
    body = f(v)
    return binder_of(op, n, v, body, sort)


def binder_of(op, n, v, body, sort="R"):
    if not occurs(v, body):
        if op == "sum":
            return mul(i2r(n), body)
    d = bvdepth(body) + 1
    bv = mk("bv", (d,), "I")
    b = in_range(subst(body, {v: bv}), bv, n)
    return mk(op, (n, b, intc(d)), sort)


_RNG = {}


def in_range(b, bv, n):
    """choices in the body of a binder that 0 <= bv < n settles"""
    key = (b, bv, n)
    r = _RNG.get(key)
    if r is not None:
        return r
    m = {}
    for s in subterms(b):
        if s.op != "ite":
            continue
        for c in conjuncts_of(s.args[0]):
            if c in m or c.op not in ("lt", "le", "eq") or c.args[0].sort != "I" or bv not in free(c):
                continue
            if c.op == "eq":
                x, y = c.args
                v = False if any(_settled(mk("lt", z, "B"), bv, n) is True for z in ((x, y), (y, x))) else None
            else:
                v = _settled(c, bv, n)
            if v is not None:
                m[c] = v if isinstance(v, T) else TRUE if v else FALSE
    r = subst(b, m) if m else b
    _RNG[key] = r
    return r


def conjuncts_of(c):
    st, out = [c], []
    while st:
        x = st.pop()
        if x.op in ("and", "or", "not"):
            st.extend(x.args)
        else:
            out.append(x)
    return out


def _settled(c, bv, n):
    try:
        # g >= 0 <=> c
        g = padd(norm(c.args[1]), norm(c.args[0]), -1)
        if c.op == "lt":
            g = padd(g, pconst(Fraction(1)), -1)
        k = g.d.get(((bv, 1),))
        if k is None or any(a is bv or bv in free(a) for mm in g.d for a, e in mm if mm != ((bv, 1),)):
            return None
        base = Poly({mm: v for mm, v in g.d.items() if mm != ((bv, 1),)})
        lo = base
        hi = padd(base, padd(norm(n), pconst(Fraction(1)), -1), k)
        if k < 0:
            lo, hi = hi, lo

        def const(p):
            return p.d.get((), Fraction(0)) if not p.d or set(p.d) == {()} else None

        a, z = const(lo), const(hi)
        if a is not None and a >= 0:
            return True
        if z is not None and z < 0:
            return False
        # all but the first or the last index: by equality
        first, last = intc(0), canon(sub(n, intc(1)))
        if k == 1 and a == -1:
            return not_(eq(intc(0), bv))
        if k == -1 and a == -1:
            return not_(eq(last, bv))
        if k == -1 and z == 0:
            return eq(intc(0), bv)
        if k == 1 and z == 0:
            return eq(last, bv)
    except NonFinite:
        pass
    return None


def open_binder(t, v):
    n, b, d = t.args
    return subst(b, {mk("bv", (int(nval(d)),), "I"): v})


def occurs(v, t, _memo=None):
    return v in free(t)


def free(t):
    if t._fv is None:
        if t.op in ("var", "bv"):
            t._fv = frozenset([t])
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    f = free(a)
                    if not f <= r:
                        r = r | f
            if t.op in ("sum", "maxs", "mins", "lam"):
                r = r - {mk("bv", (int(nval(t.args[2])),), "I")}
            t._fv = r
    return t._fv


BUILD = {}


def rebuild(op, args, sort):
    """smart-construct"""
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op in ("abs", "sqrt", "sin", "cos", "exp", "ln"):
        return fn(op, args[0])
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "i2r":
        return i2r(args[0])
    if op == "isinf":
        return isinf(args[0])
    if op in ("sum", "maxs", "mins", "lam"):
        return mk(op, (args[0], in_range(args[1], mk("bv", (int(nval(args[2])),), "I"), args[0]), args[2]), sort)
    return mk(op, tuple(args), sort)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif not t.args or not any(isinstance(a, T) for a in t.args):
            r = t
        else:
            na = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = t if na == t.args else rebuild(t.op, na, t.sort)
        memo[t] = r
        return r

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def isinf(t):
    """is the extended real t infinite? (symbols stand for finite reals)"""
    if t in (INF, NINF):
        return TRUE
    if t.op == "num":
        return FALSE
    return mk("isinf", (t,), "B")


def show(t, depth=0):
    o = t.op
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1)
    if o == "num":
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f)
    if o == "var":
        return t.args[0]
    if o == "bv":
        return "#%d" % t.args[0]
    if o == "bool":
        return "true" if t.args[0] else "false"
    if o == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if o == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if o == "mul":
        return "*".join(s(a) for a in t.args)
    if o == "div":
        return "(%s / %s)" % (s(t.args[0]), s(t.args[1]))
    if o in ("eq", "lt", "le"):
        return "(%s %s %s)" % (s(t.args[0]), {"eq": "==", "lt": "<", "le": "<="}[o], s(t.args[1]))
    if o in ("and", "or"):
        return "(" + (" && " if o == "and" else " || ").join(s(a) for a in t.args) + ")"
    if o == "i2r":
        return s(t.args[0])
    if o in ("sum", "maxs", "mins"):
        return "%s(#%d<%s: %s)" % (o, int(nval(t.args[2])), s(t.args[0]), s(t.args[1]))
    return "%s(%s)" % (o, ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args))


# ---- rational normal form --------------------------------------------------
class Poly:
    """sum of coeff * prod atom^exp (exponents may be negative)"""

    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in self.d.items()))
        return self._h


def pconst(c):
    return Poly({(): Fraction(c)} if c else {})


def patom(a, e=1):
    return Poly({((a, e),): Fraction(1)})


def padd(p, q, k=1):
    d = dict(p.d)
    for m, c in q.d.items():
        v = d.get(m, 0) + k * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def needs_reduce(m):
    for a, e in m:
        if a.op == "sqrt" and (e >= 2 or e < 0):
            return True
        if a.op == "sin" and e >= 2:
            return True
        if a.op == "abs" and (e >= 2 or e <= -2):
            return True
        if a.op == "pinv" and e > 0:
            l = linear_pinv(a)
            if l is not None and any(x is l[0] and k > 0 for x, k in m):
                return True
    return False


_linear = {}


def linear_pinv(a):
    """(x, b) for the inverse of x + b with x an atom and b a constant"""
    if a not in _linear:
        _linear[a] = None
        p = norm(a.args[0])
        if len(p.d) == 2 and () in p.d:
            (m,) = [m for m in p.d if m]
            if len(m) == 1 and m[0][1] == 1 and p.d[m] == 1:
                _linear[a] = (m[0][0], p.d[()])
    return _linear[a]


def pmul(p, q):
    d = {}
    red = False
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mmul(m1, m2)
            if not red and needs_reduce(m):
                red = True
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    r = Poly(d)
    return reduce_(r) if red else r


def reduce_(p):
    """sqrt(x)^2 -> x, sin^2 -> 1-cos^2, |x|^2 -> x^2"""
    out = Poly({})
    for m, c in p.d.items():
        if not needs_reduce(m):
            out = padd(out, Poly({m: c}))
            continue
        rest = []
        fac = pconst(c)
        div = None
        for a, e in m:
            if a.op == "pinv" and e > 0:
                l = linear_pinv(a)
                if l is not None and any(x is l[0] and k > 0 for x, k in m):
                    div = (a, l)
                    break
        if div is not None:
            # x/(x+b) = 1 - b/(x+b)
            a, (x, b) = div
            lower = dict(m)
            lower[x] -= 1
            m2 = tuple((k, v) for k, v in sorted(lower.items(), key=lambda u: u[0].id) if v)
            lower[a] -= 1
            m1 = tuple((k, v) for k, v in sorted(lower.items(), key=lambda u: u[0].id) if v)
            out = padd(out, reduce_(Poly({m1: c})))
            out = padd(out, reduce_(Poly({m2: -b * c})))
            continue
        for a, e in m:
            if a.op == "sqrt" and (e >= 2 or e < 0):
                x = norm(a.args[0])
                h, r = divmod(e, 2)
                fac = pmul(fac, ppow(x, h))
                if r:
                    rest.append((a, r))
            elif a.op == "sin" and e >= 2:
                h, r = divmod(e, 2)
                cs = mk("cos", a.args, "R")
                fac = pmul(fac, ppow(padd(pconst(1), patom(cs, 2), -1), h))
                if r:
                    rest.append((a, r))
            elif a.op == "abs" and (e >= 2 or e <= -2):
                x = norm(a.args[0])
                s = 1 if e > 0 else -1
                h, r = divmod(abs(e), 2)
                fac = pmul(fac, ppow(x, 2 * h * s))
                if r:
                    rest.append((a, r * s))
            else:
                rest.append((a, e))
        rest = tuple(sorted(rest, key=lambda x: x[0].id))
        out = padd(out, pmul(fac, Poly({rest: Fraction(1)})))
    return out


def ppow(p, n):
    if n < 0:
        return pinv(ppow(p, -n))
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


_polyatoms = {}


def lead(p):
    """deterministic leading coefficient"""
    m = min(p.d, key=lambda m: tuple((-e, a.id) for a, e in m) if m else ((0, 0),))
    return p.d[m]


def pinv(p):
    if not p.d:
        # 1/0: an unspecified constant
        return patom(app("inv_zero", (), "R"))
    if len(p.d) == 1:
        ((m, c),) = p.d.items()
        r = Poly({tuple((a, -e) for a, e in m): 1 / c})
        return reduce_(r) if any(needs_reduce(m) for m in r.d) else r
    # pull out common monomial factors and the leading coefficient
    common = None
    for m in p.d:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if (e > 0) == (d[a] > 0) and e > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else 0) for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
    # also clear negative exponents
    negs = {}
    for m in p.d:
        for a, e in m:
            if e < 0 and a.op != "pinv":
                negs[a] = min(negs.get(a, 0), e)
    f = dict(common)
    for a, e in negs.items():
        f[a] = e
    fm = tuple(sorted(((a, e) for a, e in f.items() if e), key=lambda x: x[0].id))
    if fm:
        inv = Poly({tuple((a, -e) for a, e in fm): Fraction(1)})
        q = pmul(p, inv)
        return pmul(pinv_core(q), inv)
    return pinv_core(p)


def pinv_core(p):
    if len(p.d) <= 1:
        return pinv(p)
    c = lead(p)
    q = Poly({m: v / c for m, v in p.d.items()})
    t = from_poly(q)
    a = mk("pinv", (t,), "R")
    return Poly({((a, 1),): 1 / c})


def norm(t):
    if t._norm is not None:
        return t._norm
    # iterative deepening avoided; recursion depth ok for our sizes
    o = t.op
    if o == "num":
        r = pconst(t.args[0])
    elif o == "add":
        d = {}
        for a in t.args:
            for m, c in norm(a).d.items():
                v = d.get(m, 0) + c
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        r = Poly(d)
    elif o == "mul":
        r = pconst(1)
        for a in t.args:
            r = pmul(r, norm(a))
    elif o == "div":
        r = pmul(norm(t.args[0]), pinv(norm(t.args[1])))
    elif o == "i2r":
        r = norm(t.args[0])
    elif o == "pinv":
        r = pinv(norm(t.args[0]))
    elif o == "sum":
        r = norm_sum(t)
    elif o in ("sin", "cos"):
        r = norm_trig(t)
    elif o == "exp":
        p = norm(t.args[0])
        r = patom(t)
        if not p.d:
            r = pconst(1)
        else:
            c = lead(p)
            if c < 0:
                q = Poly({m: -v for m, v in p.d.items()})
                r = patom(mk("exp", (from_poly(q),), "R"), -1)
            else:
                r = patom(mk("exp", (from_poly(p),), "R"))
    elif o == "sqrt":
        p = norm(t.args[0])
        r = patom(mk("sqrt", (from_poly(p),), "R"))
    elif o == "abs":
        p = norm(t.args[0])
        if p.const() is not None:
            r = pconst(abs(p.const()))
        else:
            c = lead(p)
            q = Poly({m: v / c for m, v in p.d.items()})
            r = Poly({((mk("abs", (from_poly(q),), "R"), 1),): abs(c)})
    elif o == "ite" and t.sort == "R" and as_abs(t) is not None:
        r = norm(fn("abs", as_abs(t)))
    elif o in ("var", "bv", "inf", "ninf"):
        r = patom(t)
    elif o == "ite" and as_one(t) is not None:
        r = norm(as_one(t))
    elif o == "app" and t.args[0].startswith("ode.y"):
        a = canon_atom(t)
        n, j = int(nval(a.args[-2])), int(a.args[0][5:])
        # the trajectory at the time it starts from
        r = norm(a.args[-5 - n + j]) if a.args[-1] == a.args[-5] else patom(a)
    else:
        r = patom(canon_atom(t))
    t._norm = r
    return r


def as_one(t):
    """b when t is (if x = c then a else b) and a is what b is at c"""
    c, a, b = t.args
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if c.op != "eq" or c.args[0].sort != "I" or t.sort != "R":
        return None
    for x, v in (c.args, c.args[::-1]):
        if x.op in ("var", "bv") and x in free(b) and x not in free(v):
            try:
                b1 = subst(b, {x: v})
                if norm(b1).d == norm(a).d:
                    return b
            except NonFinite:
                pass
    return None


def as_abs(t):
    """x when t is (if x < 0 then -x else x) in one of its spellings"""
    c, a, b = t.args
    if c.op not in ("lt", "le"):
        return None
    x, y = c.args
    if isnum(x) and nval(x) == 0:
        e, up = y, True  # 0 <= e: a must be |e|
    elif isnum(y) and nval(y) == 0:
        e, up = x, False
    else:
        return None
    if a.op in ("inf", "ninf") or b.op in ("inf", "ninf"):
        return None
    na, nb = norm(a), norm(b)
    if padd(na, nb).d or not na.d:
        return None
    ne = norm(e)
    if set(ne.d) != set(na.d):
        return None
    # na = k * ne
    k = None
    for m, v in ne.d.items():
        q = na.d[m] / v
        if k is not None and q != k:
            return None
        k = q
    return a if (k > 0) == up else None


def canon_atom(t):
    na = tuple(canon(a) if isinstance(a, T) else a for a in t.args)
    if na == t.args:
        return t
    return mk(t.op, na, t.sort)


def canonb(t):
    """canonicalise a boolean"""
    if t.op in ("bool", "var", "bv"):
        return t
    if t.op in ("lt", "le", "eq") and t.args[0].sort in "RI":
        p = norm(sub(t.args[1], t.args[0])) if not (t.args[0].op in ("inf", "ninf") or t.args[1].op in ("inf", "ninf")) else None
        if p is not None:
            c = p.const()
            if c is not None:
                return boolc(c > 0 if t.op == "lt" else c >= 0 if t.op == "le" else c == 0)
            l = lead(p)
            if t.args[0].sort == "I":
                # an integer comparison stays one
                den = 1
                for v in p.d.values():
                    den = den * v.denominator // math.gcd(den, v.denominator)
                g = 0
                for v in p.d.values():
                    g = math.gcd(g, int(v * den))
                s = Fraction(den, g) * (1 if t.op != "eq" or l > 0 else -1)
                return mk(t.op, (intc(0), from_poly(Poly({m: v * s for m, v in p.d.items()}), "I")), "B")
            if t.op == "eq":
                q = Poly({m: v / l for m, v in p.d.items()})
                return mk("eq", (ZERO, from_poly(q)), "B")
            s = abs(l)
            q = Poly({m: v / s for m, v in p.d.items()})
            return mk(t.op, (ZERO, from_poly(q)), "B")
    na = tuple(canon(a) if isinstance(a, T) else a for a in t.args)
    return rebuild(t.op, na, t.sort)


def canon(t):
    if t.sort == "B":
        return canonb(t)
    if t.sort not in ("R", "I"):
        return canon_atom(t)
    if t.op in ("inf", "ninf"):
        return t
    return from_poly(norm(t), t.sort)


def from_poly(p, sort="R"):
    ts = []
    for m, c in sorted(p.d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
        numr, den = [], []
        for a, e in m:
            (numr if e > 0 else den).extend([a] * abs(e))
        x = numr if numr else []
        f = [mk("num", (c,), sort)] + x if c != 1 or not x else x
        t = f[0] if len(f) == 1 else mk("mul", tuple(f), sort)
        if den:
            dd = den[0] if len(den) == 1 else mk("mul", tuple(den), "R")
            t = mk("div", (t, dd), "R")
        ts.append(t)
    if not ts:
        return mk("num", (Fraction(0),), sort)
    r = ts[0] if len(ts) == 1 else mk("add", tuple(ts), sort)
    if r._norm is None:
        r._norm = p
    return r


def norm_sum(t):
    n, b, d = t.args
    bv = mk("bv", (int(nval(d)),), "I")
    p = norm(in_range(b, bv, n))
    cn = canon(n)
    out = Poly({})
    for m, c in p.d.items():
        inside = tuple((a, e) for a, e in m if bv in free(a))
        outside = tuple((a, e) for a, e in m if bv not in free(a))
        if not inside:
            q = pmul(Poly({outside: c}), norm(n))
        else:
            body = from_poly(Poly({inside: Fraction(1)}))
            # renumber binder depth canonically
            v = fresh("i", "I")
            ob = subst(body, {bv: v})
            s = binder_of("sum", cn, v, ob)
            q = pmul(Poly({outside: c}), patom(s))
        out = padd(out, q)
    return out


def norm_trig(t):
    """periodicity and parity: canonical argument"""
    p = norm(t.args[0])
    sign = 1
    op = t.op
    # integer multiples of pi/2 and known integer symbols times 2*pi
    d = dict(p.d)
    kpi = ((PI, 1),)
    for m in list(d):
        mm = dict(m)
        if mm.get(PI) == 1:
            others = [(a, e) for a, e in m if a is not PI]
            if others and all(a.sort == "I" and e > 0 for a, e in others) and (d[m] / 2).denominator == 1:
                del d[m]
            elif not others:
                c = d[m]
                # reduce modulo 2
                q = c - 2 * (c / 2).__floor__()
                h = q * 2
                k = h.__floor__()
                rest = (h - k) / 2
                for _ in range(k):
                    if op == "cos":
                        op = "sin"
                        sign = -sign
                    else:
                        op = "cos"
                if rest:
                    d[m] = rest
                else:
                    del d[m]
    p = Poly(d)
    if not p.d:
        return pconst(sign if op == "cos" else 0)
    if lead(p) < 0:
        p = Poly({m: -v for m, v in p.d.items()})
        if op == "sin":
            sign = -sign
    a = mk(op, (from_poly(p),), "R")
    return Poly({((a, 1),): Fraction(sign)})


def clear(p):
    """multiply by all denominators; returns polynomial with no negative exponents and the
    list of denominators used"""
    dens = []
    for _ in range(20):
        mx = {}
        for m in p.d:
            for a, e in m:
                if a.op == "pinv" and e > 0:
                    mx[a] = max(mx.get(a, 0), e)
                elif e < 0:
                    mx[a] = max(mx.get(a, 0), -e)
        if not mx:
            return p, dens
        a = min(mx, key=lambda a: a.id)
        k = mx[a]
        if a.op == "pinv":
            base = norm(a.args[0])
            dens.append(a.args[0])
            out = Poly({})
            for m, c in p.d.items():
                dd = dict(m)
                e = dd.pop(a, 0)
                q = Poly({tuple(sorted(dd.items(), key=lambda x: x[0].id)): c})
                out = padd(out, pmul(q, ppow(base, k - e)))
            p = out
        else:
            dens.append(a)
            p = pmul(p, patom(a, k))
    return p, dens


def ring_equal(a, b):
    """a == b as rational functions; returns (bool, residual)"""
    p = padd(norm(a), norm(b), -1)
    if not p.d:
        return True, p
    q, dens = clear(p)
    if not q.d:
        return True, q
    if any(a.op in ("sin", "cos") for m in q.d for a, _ in m) and not fourier(q).d:
        return True, Poly({})
    return False, q


def fourier(p, limit=4000):
    """products of sines and cosines as sums (one frequency per monomial)"""
    out = Poly({})
    for m, c in p.d.items():
        rest, trig = [], []
        for a, e in m:
            if a.op in ("sin", "cos") and e > 0:
                trig += [a] * e
            else:
                rest.append((a, e))
        if len(trig) > 8 or len(out.d) > limit:
            return p
        # terms: (kind, argument polynomial, coefficient)
        ts = [("cos", Poly({}), Fraction(1))]
        for a in trig:
            x = norm(a.args[0])
            nt = []
            for kind, y, k in ts:
                s_, d_ = padd(y, x), padd(y, x, -1)
                h = k / 2
                if kind == "cos" and a.op == "cos":
                    nt += [("cos", d_, h), ("cos", s_, h)]
                elif kind == "sin" and a.op == "sin":
                    nt += [("cos", d_, h), ("cos", s_, -h)]
                elif kind == "sin":
                    nt += [("sin", s_, h), ("sin", d_, h)]
                else:
                    nt += [("sin", s_, h), ("sin", d_, -h)]
            ts = nt
        base = Poly({tuple(rest): c})
        for kind, y, k in ts:
            out = padd(out, pmul(base, norm_trig(mk(kind, (from_poly(y),), "R"))), k)
    return out
