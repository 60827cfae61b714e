"""Contracts assumed for the standard library, nalgebra, itertools, anyhow and ode_solvers.
Everything in this file is part of the trusted base and is listed in the evidence."""
from . import term as tm
from .term import T, TRUE, FALSE, intc
from .values import *
from .exec import Unsupported, FpDom, RealDom, St, CoordV, decide, simp, merge_all, mm

MODELS = {}
NALG = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def nalg(*names):
    def d(f):
        for n in names:
            NALG[n] = f
        return f

    return d


def install(ex):
    ex.models = MODELS
    ex.nalg = NALG
    ex.ode_model = ode_model


def pure(f):
    """model of a function whose result only depends on its (dereferenced) arguments"""

    def g(ex, st, args, fn, dty):
        r = f(ex, *[ex.strip(st, a) for a in args])
        if r is NotImplemented:
            return r
        return [(st, r)]

    return g


def isT(*xs):
    return all(isinstance(x, T) for x in xs)


# ---- floating point -------------------------------------------------------
F = ["std::f64::<impl f64>::", "core::f64::<impl f64>::", "std::f64::", "core::f64::"]


def fm(name):
    return [p + name for p in F]


def _un(name):
    def g(ex, a):
        return ex.dom.fn(name, a)

    return pure(g)


for _n in ("abs", "sqrt", "sin", "cos", "exp", "ln"):
    model(*fm(_n))(_un(_n))
model("core::f64::math::abs", "core::f64::math::sqrt")(None)
MODELS["core::f64::math::abs"] = _un("abs")
MODELS["core::f64::math::sqrt"] = _un("sqrt")


def realonly(f):
    def g(ex, *a):
        if not isinstance(ex.dom, RealDom):
            raise Unsupported("function outside the machine-arithmetic model")
        return f(ex, *a)

    return pure(g)


MODELS.update({n: realonly(lambda ex, a: tm.div(tm.fn("sin", a), tm.fn("cos", a))) for n in fm("tan")})
MODELS.update({n: realonly(lambda ex, a: Tup("tuple", [tm.fn("sin", a), tm.fn("cos", a)])) for n in fm("sin_cos")})
MODELS.update({n: realonly(lambda ex, a: tm.sub(tm.fn("exp", a), tm.ONE)) for n in fm("exp_m1")})
MODELS.update({n: realonly(lambda ex, a: tm.fn("ln", tm.add(a, tm.ONE))) for n in fm("ln_1p")})
MODELS.update({n: pure(lambda ex, a: ex.dom.div(one(ex), a)) for n in fm("recip")})
MODELS.update({n: realonly(lambda ex, a, b: tm.fn("sqrt", tm.add(tm.mul(a, a), tm.mul(b, b)))) for n in fm("hypot")})
MODELS.update({n: realonly(lambda ex, a, b, c: tm.add(tm.mul(a, b), c)) for n in fm("mul_add")})
MODELS.update({n: realonly(lambda ex, a: tm.mul(a, tm.div(tm.PI, tm.num(180)))) for n in fm("to_radians")})
MODELS.update({n: realonly(lambda ex, a: tm.mul(a, tm.div(tm.num(180), tm.PI))) for n in fm("to_degrees")})
MODELS.update({n: realonly(lambda ex, a: tm.ite(tm.lt(a, tm.ZERO), tm.num(-1), tm.ONE)) for n in fm("signum")})
def _hyp(k):
    def g(ex, a):
        p, q = tm.fn("exp", a), tm.fn("exp", tm.neg(a))
        if k == "tanh":
            return tm.div(tm.sub(p, q), tm.add(p, q))
        return tm.div(tm.sub(p, q) if k == "sinh" else tm.add(p, q), tm.num(2))

    return realonly(g)


for _n in ("sinh", "cosh", "tanh"):
    MODELS.update({n: _hyp(_n) for n in fm(_n)})
MODELS.update({n: realonly(lambda ex, a, b: tm.ite(tm.lt(b, tm.ZERO), tm.neg(tm.fn("abs", a)), tm.fn("abs", a))) for n in fm("copysign")})
for _n in ("asin", "acos", "atan", "cbrt", "floor", "ceil", "round", "trunc", "fract", "log10", "log2", "exp2"):
    MODELS.update({n: realonly(lambda ex, a, _n=_n: tm.app(_n, (a,))) for n in fm(_n)})
for _n in ("atan2", "rem_euclid", "div_euclid", "log"):
    MODELS.update({n: realonly(lambda ex, a, b, _n=_n: tm.app(_n, (a, b))) for n in fm(_n)})


def one(ex):
    return tm.ONE if isinstance(ex.dom, RealDom) else ex.dom.const(0x3FF0000000000000)


def m_powi(ex, a, n):
    if not tm.isnum(n):
        if isinstance(ex.dom, RealDom):
            return tm.app("powi", (a, n))
        raise Unsupported("powi")
    k = int(tm.nval(n))
    if k >= 1 << 31:
        k -= 1 << 32  # the exponent is an i32
    if isinstance(ex.dom, RealDom):
        if abs(k) > 64:
            raise Unsupported("powi %d" % k)
        return tm.powi(a, k)
    if k == 2:
        return ex.dom.mul(a, a)
    raise Unsupported("powi")


model(*fm("powi"))(pure(m_powi))


def m_powf(ex, a, b):
    if tm.isnum(b):
        v = tm.nval(b)
        if v.denominator == 1 and abs(v) < 50:
            return tm.powi(a, int(v))
        if v.denominator == 2 and abs(v) < 50:
            n = v.numerator
            return tm.powi(tm.fn("sqrt", a), n)
    return tm.app("powf", (a, b))


model(*fm("powf"))(realonly(m_powf))


def m_max(ex, a, b):
    if isinstance(ex.dom, FpDom):
        return tm.mk("f.max", (a, b), "R")
    return mm("maxs", a, b)


def m_min(ex, a, b):
    if isinstance(ex.dom, FpDom):
        return tm.mk("f.min", (a, b), "R")
    return mm("mins", a, b)


model(*fm("max"))(pure(m_max))
model(*fm("min"))(pure(m_min))
model(*fm("clamp"))(realonly(lambda ex, a, l, h: mm("mins", mm("maxs", a, l), h)))


def m_isinf(ex, a):
    if isinstance(ex.dom, FpDom):
        return tm.mk("f.isinf", (a,), "B")
    return tm.isinf(a)


def m_isnan(ex, a):
    if isinstance(ex.dom, FpDom):
        return tm.mk("f.isnan", (a,), "B")
    return FALSE


def m_isfin(ex, a):
    if isinstance(ex.dom, FpDom):
        return tm.mk("f.isfinite", (a,), "B")
    return tm.not_(tm.isinf(a))


model(*fm("is_infinite"))(pure(m_isinf))
model(*fm("is_nan"))(pure(m_isnan))
model(*fm("is_finite"))(pure(m_isfin))
model(*fm("is_sign_negative"))(pure(lambda ex, a: tm.mk("f.signneg", (a,), "B") if isinstance(ex.dom, FpDom) else tm.lt(a, tm.ZERO)))
model(*fm("is_sign_positive"))(pure(lambda ex, a: tm.not_(tm.mk("f.signneg", (a,), "B")) if isinstance(ex.dom, FpDom) else tm.le(tm.ZERO, a)))
model(*fm("total_cmp"))(realonly(lambda ex, a, b: ex.ordering(tm.lt(a, b), tm.eq(a, b))))


def some(ex, dty, v):
    return ex.enum(dty, "Some", v)


@model("std::cmp::PartialOrd::partial_cmp", "core::cmp::PartialOrd::partial_cmp")
def m_partial_cmp(ex, st, args, f, dty):
    a, b = [ex.strip(st, x) for x in args]
    if not isT(a, b) or not isinstance(ex.dom, RealDom) and "R" in (a.sort, b.sort):
        return NotImplemented
    r = some(ex, dty, ex.ordering(tm.lt(a, b), tm.eq(a, b)))
    if ex.panics is not None and a.sort == "R":
        # who asks about panics has to allow for a NaN
        ok = tm.app("comparable", (a, b), "B")
        return [(st, opt(ex, dty, ok, ex.ordering(tm.lt(a, b), tm.eq(a, b))))]
    return [(st, r)]


def cmpop(k):
    def g(ex, st, args, f, dty):
        a, b = [ex.strip(st, x) for x in args]
        if not isT(a, b):
            return NotImplemented
        D = ex.dom if "R" in (a.sort, b.sort) else tm
        r = {"lt": lambda: D.lt(a, b), "le": lambda: D.le(a, b), "gt": lambda: D.lt(b, a), "ge": lambda: D.le(b, a)}[k]()
        return [(st, r)]

    return g


for _k in ("lt", "le", "gt", "ge"):
    MODELS["std::cmp::PartialOrd::" + _k] = cmpop(_k)


def m_eq(neg):
    def g(ex, st, args, f, dty):
        a, b = [ex.strip(st, x) for x in args]
        if isT(a, b):
            D = ex.dom if "R" in (a.sort, b.sort) else tm
            r = D.eq(a, b)
        elif isinstance(a, EnumV) and isinstance(b, EnumV):
            t = ex.p.ty(a.ty)
            if not t or t["k"] != "adt" or any(v["fields"] for v in t["variants"]):
                return NotImplemented
            r = tm.eq(a.disc, b.disc)
        elif isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            r = tm.eq(a.t, b.t) if a.t is b.t else tm.app("opaque_eq", (a.t, b.t), "B")
        else:
            return NotImplemented
        return [(st, tm.not_(r) if neg else r)]

    return g


MODELS["std::cmp::PartialEq::eq"] = m_eq(False)


@model("std::cmp::PartialEq::ne")
def m_ne(ex, st, args, f, dty):
    r = m_eq(True)(ex, st, args, f, dty)
    if r is not NotImplemented:
        return r
    a = ex.strip(st, args[0])
    ty = getattr(a, "ty", None)
    imp = ex.p.impl("std::cmp::PartialEq", "eq", ty) if ty else None
    if imp is None:
        return NotImplemented
    return [(s, tm.not_(v)) for s, v in ex.call_body(imp["id"], args, st)]


def m_ordmax(op):
    def g(ex, st, args, f, dty):
        a, b = args
        if not isT(a, b):
            return NotImplemented
        return [(st, mm(op, a, b))]

    return g


for _p in ("std::cmp::Ord::", "std::cmp::"):
    MODELS[_p + "max"] = m_ordmax("maxs")
    MODELS[_p + "min"] = m_ordmax("mins")

for _t in ("usize", "u32", "u64", "i32", "i64"):
    for _p in ("core::num::<impl %s>::" % _t, "std::num::<impl %s>::" % _t):
        MODELS[_p + "saturating_sub"] = pure(lambda ex, a, b: tm.sub(a, b) if ex.nonneg(tm.sub(a, b)) else tm.ite(tm.le(b, a), tm.sub(a, b), intc(0)))
        for _w, _o in (("wrapping_add", tm.add), ("wrapping_sub", tm.sub), ("wrapping_mul", tm.mul), ("saturating_add", tm.add)):
            MODELS[_p + _w] = pure(lambda ex, a, b, _o=_o: _o(a, b))


# ---- operators --------------------------------------------------------------
def elementwise(ex, op, a, b):
    if isT(a, b):
        return op(a, b)
    if isinstance(a, MatV) and isinstance(b, MatV):
        if (a.r, a.c) != (b.r, b.c):
            raise Unsupported("matrix shapes")
        return MatV(a.r, a.c, [op(x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, MatV) and isinstance(b, T):
        return MatV(a.r, a.c, [op(x, b) for x in a.d])
    if isinstance(a, T) and isinstance(b, MatV):
        return MatV(b.r, b.c, [op(a, x) for x in b.d])
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        # nalgebra panics unless the lengths agree
        n = a.n
        if tm.canon(a.n) is not tm.canon(b.n):
            ex.len_eqs.append((a.n, b.n))
            ex.need(St({}, ()), tm.eq(a.n, b.n), "nalgebra: element-wise operation on vectors of different lengths")
        return SeqV(n, lambda i: op(a.at(i), b.at(i)))
    if isinstance(a, SeqV) and isinstance(b, T):
        return SeqV(a.n, lambda i: op(a.at(i), b))
    if isinstance(a, T) and isinstance(b, SeqV):
        return SeqV(b.n, lambda i: op(a, b.at(i)))
    return NotImplemented


def arith(name):
    def g(ex, st, args, f, dty):
        a, b = [ex.strip(st, x) for x in args]
        fl = not (isT(a, b) and a.sort == "I" and b.sort == "I")
        D = ex.dom if fl else tm
        if name == "mul" and not isT(a, b) and not isinstance(a, T) and not isinstance(b, T):
            if isinstance(a, MatV) and isinstance(b, MatV) and a.c == b.r:
                d = [tm.add([tm.mul(a.get(i, k), b.get(k, j)) for k in range(a.c)]) for j in range(b.c) for i in range(a.r)]
                return [(st, MatV(a.r, b.c, d))]
            return NotImplemented
        if name == "div" and not isT(a, b) and not isinstance(b, T):
            return NotImplemented
        if name in ("add", "sub") and isinstance(a, T) != isinstance(b, T):
            return NotImplemented
        if name == "div" and not fl:
            return NotImplemented
        r = elementwise(ex, getattr(D, name), a, b)
        return r if r is NotImplemented else [(st, r)]

    return g


for _n in ("Add::add", "Sub::sub", "Mul::mul", "Div::div"):
    MODELS["std::ops::" + _n] = arith(_n.split("::")[1])


@model("std::ops::Rem::rem")
def m_rem(ex, st, args, f, dty):
    a, b = [ex.strip(st, x) for x in args]
    if not isT(a, b) or a.sort == "I":
        return NotImplemented
    return [(st, ex.dom.rem(a, b))]


@model("std::ops::Neg::neg")
def m_neg(ex, st, args, f, dty):
    a = ex.strip(st, args[0])
    if isinstance(a, T):
        return [(st, ex.dom.neg(a) if a.sort == "R" else tm.neg(a))]
    if isinstance(a, MatV):
        return [(st, MatV(a.r, a.c, [tm.neg(x) for x in a.d]))]
    if isinstance(a, SeqV):
        return [(st, SeqV(a.n, lambda i: tm.neg(a.at(i))))]
    return NotImplemented


@model("std::ops::Not::not")
def m_not(ex, st, args, f, dty):
    a = ex.strip(st, args[0])
    if isinstance(a, T) and a.sort == "B":
        return [(st, tm.not_(a))]
    return NotImplemented


def arith_assign(name):
    def g(ex, st, args, f, dty):
        r = args[0]
        if not isinstance(r, RefV):
            return NotImplemented
        a, b = ex.rd(st, r.cell, r.path), ex.strip(st, args[1])
        if isinstance(a, RefV):
            return g(ex, st, [a, b], f, dty)
        D = tm if isT(a, b) and a.sort == "I" and b.sort == "I" else ex.dom
        if name == "mul" and not isinstance(b, T):
            return NotImplemented
        v = elementwise(ex, getattr(D, name), a, b)
        if v is NotImplemented:
            return v
        st = st.fork()
        ex.wr(st, r.cell, r.path, v)
        return [(st, UNIT)]

    return g


for _n in ("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign"):
    MODELS["std::ops::" + _n] = arith_assign(_n.split("::")[1].split("_")[0])


def idx_path(ex, v, ix):
    """path element for container v and index ix"""
    if isinstance(v, MatV):
        if isinstance(ix, Tup):
            i, j = ix.fields
            if not (tm.isnum(i) and tm.isnum(j)):
                raise Unsupported("symbolic matrix index")
            i, j = int(tm.nval(i)), int(tm.nval(j))
            if i >= v.r or j >= v.c:
                return None
            return ("m", j * v.r + i)
        if isinstance(ix, T) and tm.isnum(ix):
            i = int(tm.nval(ix))
            return ("m", i) if i < v.r * v.c else None
        raise Unsupported("symbolic matrix index")
    if isinstance(v, (SeqV, Tup)) and isinstance(ix, T):
        return ("i", ix)
    if isinstance(v, SeqV) and isinstance(ix, Tup) and len(ix.fields) == 2 and isT(*ix.fields) and tm.isnum(ix.fields[1]) and tm.nval(ix.fields[1]) == 0:
        return ("i", ix.fields[0])
    return None


def rng(ex, v, r):
    """sub-slice v[r]"""
    s = ex.seq(v)
    if not isinstance(r, Tup):
        return None
    ty = r.ty
    if "RangeFull" in ty:
        return s
    if "RangeFrom" in ty:
        lo, hi = r.fields[0], s.n
    elif "RangeToInclusive" in ty:
        lo, hi = intc(0), tm.add(r.fields[0], intc(1))
    elif "RangeTo" in ty:
        lo, hi = intc(0), r.fields[0]
    elif "RangeInclusive" in ty:
        lo, hi = r.fields[0], tm.add(r.fields[1], intc(1))
    elif "Range" in ty:
        lo, hi = r.fields[0], r.fields[1]
    else:
        return None
    return SeqV(tm.sub(hi, lo), lambda i: s.at(tm.add(lo, i)))


@model("std::ops::Index::index")
def m_index(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    ix = args[1]
    if isinstance(ix, Tup) and "Range" in ix.ty and isinstance(v, (SeqV, Tup)):
        r = rng(ex, v, ix)
        return NotImplemented if r is None else [(st, VRef(r))]
    p = idx_path(ex, v, ix)
    if p is None:
        return NotImplemented
    inside(ex, st, v, ix)
    return [(st, VRef(ex.get1(st, v, p)))]


def inside(ex, st, v, ix):
    if ex.panics is None or not isinstance(v, SeqV):
        return
    if isT(ix) and ix.sort == "I":
        ex.need(st, tm.lt(ix, v.n), "index out of range")
    else:
        ex.need(st, FALSE, "index out of range")


@model("std::ops::IndexMut::index_mut")
def m_index_mut(ex, st, args, f, dty):
    r = args[0]
    while isinstance(r, RefV):
        v = ex.rd(st, r.cell, r.path)
        if isinstance(v, RefV):
            r = v
            continue
        p = idx_path(ex, v, args[1])
        if p is None:
            return NotImplemented
        inside(ex, st, v, args[1])
        return [(st, RefV(r.cell, r.path + (p,)))]
    return NotImplemented


# ---- conversion, cloning, references -----------------------------------------
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec")
def m_clone(ex, st, args, f, dty):
    v = ex.deref(st, args[0]) if isinstance(args[0], (VRef, RefV)) else args[0]
    if isinstance(v, (VRef, RefV)) and f["path"].endswith(("to_vec", "to_owned")):
        v = ex.strip(st, v)
    if isinstance(v, CellV):
        raise Unsupported("clone of a cell")
    return [(st, v)]


@model("std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::vec::Vec::<T, A>::as_slice", "std::borrow::Borrow::borrow", "std::boxed::Box::<T, A>::as_ref")
def m_deref(ex, st, args, f, dty):
    if "nalgebra::coordinates::" in str(dty):
        v = ex.strip(st, args[0])
        return [(st, VRef(CoordV(v)))] if isinstance(v, MatV) else NotImplemented
    return [(st, VRef(ex.strip(st, args[0])))]


@model("std::ops::DerefMut::deref_mut", "std::vec::Vec::<T, A>::as_mut_slice", "std::convert::AsMut::as_mut")
def m_deref_mut(ex, st, args, f, dty):
    r = args[0]
    if isinstance(r, RefV):
        v = ex.rd(st, r.cell, r.path)
        if "nalgebra::coordinates::" in str(dty):
            r, v = target(ex, st, r)
            return [(st, RefV(r.cell, r.path + (("coord",),)))] if isinstance(v, MatV) else NotImplemented
        if isinstance(v, RefV):
            return [(st, v)]
        if isinstance(v, BoxV):
            return [(st, RefV(r.cell, r.path + (("box",),)))]
        return [(st, r)]
    return NotImplemented


@model("std::boxed::Box::<T>::new")
def m_box(ex, st, args, f, dty):
    return [(st, BoxV(args[0]))]


@model("std::convert::From::from", "std::convert::Into::into")
def m_from(ex, st, args, f, dty):
    if f.get("id") in ex.p.bodies:
        return NotImplemented
    v = args[0]
    t = ex.p.ty(dty)
    if dty and "anyhow::Error" in dty:
        return [(st, OpaqueV(dty, tm.var("anyhow", "O")))]
    if isinstance(v, T) and t and t["k"] == "float" and v.sort == "I":
        return [(st, tm.i2r(v))]
    if isinstance(v, T) and t and t["k"] in ("int", "float"):
        return [(st, v)]
    if isinstance(v, SeqV) and t and t["k"] == "adt" and (t["path"].endswith("vec::Vec") or "Matrix" in t["path"]):
        return [(st, v)]
    if isinstance(v, Tup) and t and t["k"] == "adt" and t["path"].endswith("vec::Vec"):
        return [(st, SeqV.of(v.fields))]
    if isinstance(v, MatV) and t and t["k"] == "array":
        if t["len"] == v.r * v.c and v.c == 1:
            return [(st, Tup(dty, list(v.d)))]
        return NotImplemented
    if isinstance(v, Tup) and t and t["k"] == "adt" and "Matrix" in t["path"] and (v.ty.startswith("[") or v.ty == "array"):
        d = shape(ex, dty)
        if d not in (None, "dyn") and d[1] == 1 and d[0] == len(v.fields):
            return [(st, MatV(d[0], 1, list(v.fields)))]
    return NotImplemented


# ---- calls of function values ---------------------------------------------------
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_fncall(ex, st, args, f, dty):
    a = args[1]
    if not isinstance(a, Tup):
        return NotImplemented
    return ex.call_value(args[0], list(a.fields), st, dty)


# ---- cells ------------------------------------------------------------------
for _c in ("std::cell::RefCell::<T>::", "std::cell::Cell::<T>::", "core::cell::RefCell::<T>::"):

    @model(_c + "new")
    def m_cell_new(ex, st, args, f, dty):
        st = st.fork()
        return [(st, CellV(ex.alloc(st, args[0])))]

    @model(_c + "borrow", _c + "get")
    def m_borrow(ex, st, args, f, dty):
        c = ex.strip(st, args[0])
        if not isinstance(c, CellV):
            return NotImplemented
        v = st.cells[c.cell]
        return [(st, v if f["path"].endswith("::get") else VRef(v))]

    @model(_c + "replace", _c + "set")
    def m_replace(ex, st, args, f, dty):
        c = ex.strip(st, args[0])
        if not isinstance(c, CellV):
            return NotImplemented
        st = st.fork()
        old = st.cells[c.cell]
        st.cells[c.cell] = args[1]
        return [(st, UNIT if f["path"].endswith("::set") else old)]

    @model(_c + "take")
    def m_cell_take(ex, st, args, f, dty):
        c = ex.strip(st, args[0])
        v = st.cells.get(c.cell) if isinstance(c, CellV) else None
        t = ex.p.ty(dty)
        if v is None or t is None or not t["k"] == "adt" or not t["path"].endswith("option::Option"):
            return NotImplemented
        st = st.fork()
        n = ex.p.variant_index(dty, "None")
        st.cells[c.cell] = EnumV(dty, intc(n), {n: ()})
        return [(st, v)]

    @model(_c + "borrow_mut")
    def m_borrow_mut(ex, st, args, f, dty):
        c = ex.strip(st, args[0])
        if not isinstance(c, CellV):
            return NotImplemented
        return [(st, RefV(c.cell))]

    @model(_c + "into_inner")
    def m_cell_inner(ex, st, args, f, dty):
        c = ex.strip(st, args[0])
        if not isinstance(c, CellV):
            return NotImplemented
        return [(st, st.cells[c.cell])]


@model("std::mem::replace", "core::mem::replace")
def m_mem_replace(ex, st, args, f, dty):
    r = args[0]
    if not isinstance(r, RefV):
        return NotImplemented
    st = st.fork()
    old = ex.rd(st, r.cell, r.path)
    ex.wr(st, r.cell, r.path, args[1])
    return [(st, old)]


@model("std::mem::swap", "core::mem::swap")
def m_mem_swap(ex, st, args, f, dty):
    a, b = args
    if not (isinstance(a, RefV) and isinstance(b, RefV)):
        return NotImplemented
    st = st.fork()
    x, y = ex.rd(st, a.cell, a.path), ex.rd(st, b.cell, b.path)
    ex.wr(st, a.cell, a.path, y)
    ex.wr(st, b.cell, b.path, x)
    return [(st, UNIT)]


@model("std::mem::drop", "core::mem::drop", "std::mem::forget")
def m_drop(ex, st, args, f, dty):
    return [(st, UNIT)]


# ---- vectors --------------------------------------------------------------------
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T>::new")
def m_vec_new(ex, st, args, f, dty):
    return [(st, SeqV.of([]))]


@model("std::default::Default::default")
def m_default(ex, st, args, f, dty):
    return [(st, SeqV.of([]))] if str(dty).startswith("std::vec::Vec<") else NotImplemented


def target(ex, st, r):
    while isinstance(r, RefV):
        v = ex.rd(st, r.cell, r.path)
        if not isinstance(v, RefV):
            return r, v
        r = v
    raise Unsupported("mutable reference expected")


@model("std::vec::Vec::<T, A>::push")
def m_push(ex, st, args, f, dty):
    r, v = target(ex, st, args[0])
    v = ex.seq(v)
    st = st.fork()
    x = args[1]
    n0 = v.n

    def at(i):
        return merge_val(tm.eq(i, n0), x, v.at(i)) if not (tm.isnum(n0) and tm.nval(n0) == 0) else x

    if tm.isnum(n0):
        nv = SeqV.of([v.at(intc(j)) for j in range(int(tm.nval(n0)))] + [x])
    else:
        nv = SeqV(tm.add(n0, intc(1)), at)
    ex.wr(st, r.cell, r.path, nv)
    return [(st, UNIT)]


def extend(ex, st, r, items):
    r, v = target(ex, st, r)
    v = ex.seq(v)
    st = st.fork()
    n0 = v.n
    if tm.isnum(n0) and tm.nval(n0) == 0:
        nv = items
    else:
        nv = SeqV(tm.add(n0, items.n), lambda i: merge_val(tm.lt(i, n0), v.at(i), items.at(tm.sub(i, n0))))
    ex.wr(st, r.cell, r.path, nv)
    return [(st, UNIT)]


@model("std::iter::Extend::extend")
def m_extend(ex, st, args, f, dty):
    it = to_iter(ex, st, args[1])
    if it is None or it.eff:
        return NotImplemented
    it = norm_iter(it)
    return extend(ex, st, args[0], SeqV(it.n, lambda i: strip_copy(ex, st, it.at(i))))


def strip_copy(ex, st, v):
    return v.v if isinstance(v, VRef) and isinstance(v.v, T) else v


@model("std::vec::Vec::<T, A>::extend_from_slice")
def m_extend_slice(ex, st, args, f, dty):
    return extend(ex, st, args[0], ex.seq(ex.strip(st, args[1])))


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::iter::ExactSizeIterator::len")
def m_len(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if isinstance(v, IterV):
        return [(st, norm_iter(v).n)]
    return [(st, ex.seq(v).n)]


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_is_empty(ex, st, args, f, dty):
    return [(st, tm.eq(ex.seq(ex.strip(st, args[0])).n, intc(0)))]


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit")
def m_nop(ex, st, args, f, dty):
    return [(st, UNIT)]


def opt(ex, dty, cond, v):
    i0, i1 = ex.p.variant_index(dty, "None"), ex.p.variant_index(dty, "Some")
    return EnumV(dty, tm.ite(cond, intc(i1), intc(i0)), {i0: (), i1: (v,)})


def pos(ex, n):
    """0 < n"""
    if ex.nonneg(tm.sub(n, intc(1))):
        return TRUE
    return tm.lt(intc(0), n)


@model("core::slice::<impl [T]>::first")
def m_first(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    return [(st, opt(ex, dty, pos(ex, s.n), VRef(s.at(intc(0)))))]


@model("core::slice::<impl [T]>::last")
def m_last(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    return [(st, opt(ex, dty, pos(ex, s.n), VRef(s.at(tm.sub(s.n, intc(1))))))]


@model("core::slice::<impl [T]>::get")
def m_get(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    i = args[1]
    if not isinstance(i, T):
        return NotImplemented
    c = TRUE if ex.nonneg(tm.sub(tm.sub(s.n, i), intc(1))) else tm.lt(i, s.n)
    return [(st, opt(ex, dty, decide(st.pc, c), VRef(s.at(i))))]


@model("std::vec::Vec::<T, A>::pop")
def m_pop(ex, st, args, f, dty):
    r, v = target(ex, st, args[0])
    v = ex.seq(v)
    if pos(ex, v.n) is not TRUE:
        return NotImplemented
    st = st.fork()
    n1 = tm.sub(v.n, intc(1))
    ex.wr(st, r.cell, r.path, SeqV(n1, v.at))
    return [(st, opt(ex, dty, TRUE, v.at(n1)))]


@model("std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::remove")
def m_insert(ex, st, args, f, dty):
    r, v = target(ex, st, args[0])
    v = ex.seq(v)
    k = args[1]
    if not isinstance(k, T) or tm.canon(k) is not intc(0):
        return NotImplemented
    st = st.fork()
    if f["path"].endswith("remove"):
        if pos(ex, v.n) is not TRUE:
            return NotImplemented
        ex.wr(st, r.cell, r.path, SeqV(tm.sub(v.n, intc(1)), lambda i: v.at(tm.add(i, intc(1)))))
        return [(st, v.at(k))]
    x = args[2]

    def at(i):
        if tm.isnum(i):
            return x if tm.nval(i) == 0 else v.at(tm.sub(i, intc(1)))
        return merge_val(tm.eq(i, intc(0)), x, v.at(tm.sub(i, intc(1))))

    ex.wr(st, r.cell, r.path, SeqV(tm.add(v.n, intc(1)), at))
    return [(st, UNIT)]


@model("std::vec::from_elem", "alloc::vec::from_elem")
def m_from_elem(ex, st, args, f, dty):
    return [(st, SeqV(args[1], lambda i: args[0]))]


@model("std::slice::from_ref", "core::slice::from_ref")
def m_from_ref(ex, st, args, f, dty):
    return [(st, VRef(SeqV.of([ex.deref(st, args[0])])))]


@model("core::slice::<impl [T]>::swap", "core::slice::<impl [T]>::reverse")
def m_uns(ex, st, args, f, dty):
    if f["path"].endswith("reverse"):
        r, v = target(ex, st, args[0])
        v = ex.seq(v)
        st = st.fork()
        ex.wr(st, r.cell, r.path, SeqV(v.n, lambda i: v.at(tm.sub(tm.sub(v.n, intc(1)), i))))
        return [(st, UNIT)]
    return NotImplemented


# ---- iterators --------------------------------------------------------------------
def norm_iter(it):
    if tm.isnum(it.start) and tm.nval(it.start) == 0:
        return it
    return IterV(tm.sub(it.n, it.start), lambda i: it.at(tm.add(it.start, i)), None, it.eff)


def to_iter(ex, st, v, byref=False):
    """iterator over a value; None if not iterable here"""
    if isinstance(v, IterV):
        return v
    if isinstance(v, VRef):
        return to_iter(ex, st, v.v, True)
    if isinstance(v, RefV):
        w = ex.rd(st, v.cell, v.path)
        return w if isinstance(w, IterV) else None
    if isinstance(v, BoxV):
        return to_iter(ex, st, v.v, byref)
    if isinstance(v, (SeqV, MatV)):
        s = ex.seq(v)
        return IterV(s.n, (lambda i: VRef(s.at(i))) if byref else s.at)
    if isinstance(v, Tup):
        t = v.ty if isinstance(v.ty, str) else ""
        if "ops::RangeInclusive<" in t or "range::RangeInclusive<" in t:
            lo, hi = v.fields[0], tm.add(v.fields[1], intc(1))
        elif "ops::Range<" in t or "range::Range<" in t:
            lo, hi = v.fields[0], v.fields[1]
        elif t.startswith("[") or t == "array":
            s = SeqV.of(v.fields)
            return IterV(s.n, (lambda i: VRef(s.at(i))) if byref else s.at)
        else:
            return None
        if not isT(lo, hi):
            return None
        n = tm.sub(hi, lo)
        if tm.isnum(n):
            n = intc(max(0, int(tm.nval(n))))
        elif not ex.nonneg(n):
            n = tm.ite(tm.le(lo, hi), n, intc(0))
            n = simp(st.pc, n)
        return IterV(n, lambda i: tm.add(lo, i))
    return None


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(ex, st, args, f, dty):
    it = to_iter(ex, st, args[0])
    if it is None and isinstance(args[0], RefV):
        # for x in &mut collection
        it = iter_mut(ex, st, args[0]) if "IterMut" in str(dty) else None
        if it is None:
            v = ex.strip(st, args[0])
            it = to_iter(ex, st, VRef(v))
    if it is None:
        return NotImplemented
    return [(st, it)]


@model("core::slice::<impl [T]>::iter")
def m_slice_iter(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    return [(st, IterV(s.n, lambda i: VRef(s.at(i))))]


@model("core::slice::<impl [T]>::windows")
def m_windows(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    w = args[1]
    m = tm.sub(tm.add(s.n, intc(1)), w)
    if not ex.nonneg(m):
        m = tm.ite(tm.le(intc(0), m), m, intc(0))
    return [(st, IterV(m, lambda i: VRef(SeqV(w, lambda j: s.at(tm.add(i, j))))))]


def iter_mut(ex, st, r):
    """unique references to the elements of the collection behind r"""
    try:
        r, v = target(ex, st, r)
    except Unsupported:
        return None
    while isinstance(v, BoxV):
        r = RefV(r.cell, r.path + (("box",),))
        v = v.v
    if isinstance(v, SeqV):
        return IterV(v.n, lambda i: RefV(r.cell, r.path + (("i", i),)))
    if isinstance(v, Tup):
        return IterV(intc(len(v.fields)), lambda i: RefV(r.cell, r.path + (("i", i),)))
    if isinstance(v, MatV):

        def at(i):
            if not tm.isnum(i):
                raise Unsupported("symbolic matrix index")
            return RefV(r.cell, r.path + (("m", int(tm.nval(i))),))

        return IterV(intc(len(v.d)), at)
    return None


@model("core::slice::<impl [T]>::iter_mut")
def m_iter_mut(ex, st, args, f, dty):
    it = iter_mut(ex, st, args[0])
    return NotImplemented if it is None else [(st, it)]


@nalg("iter_mut")
def n_iter_mut(ex, st, args, f, dty):
    return m_iter_mut(ex, st, args, f, dty)


@model("std::iter::Iterator::step_by")
def m_step_by(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    w = args[1]
    if a is None or a.eff or not tm.isnum(w) or tm.nval(w) < 1:
        return NotImplemented
    a = norm_iter(a)
    w = int(tm.nval(w))
    if w == 1:
        return [(st, a)]
    if not tm.isnum(a.n):
        return NotImplemented
    return [(st, IterV(intc(-(-int(tm.nval(a.n)) // w)), lambda i: a.at(tm.mul(intc(w), i))))]


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_ends(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    n1 = tm.sub(s.n, intc(1))
    if f["path"].endswith("first"):
        v = Tup("tuple", [VRef(s.at(intc(0))), VRef(SeqV(n1, lambda i: s.at(tm.add(i, intc(1)))))])
    else:
        v = Tup("tuple", [VRef(s.at(n1)), VRef(SeqV(n1, s.at))])
    return [(st, opt(ex, dty, decide(st.pc, pos(ex, s.n)), v))]


@model("core::slice::<impl [T]>::split_at")
def m_split_at(ex, st, args, f, dty):
    s = ex.seq(ex.strip(st, args[0]))
    k = args[1]
    return [(st, Tup("tuple", [VRef(SeqV(k, s.at)), VRef(SeqV(tm.sub(s.n, k), lambda i: s.at(tm.add(i, k))))]))]


@model("std::iter::once", "core::iter::once")
def m_once(ex, st, args, f, dty):
    return [(st, IterV(intc(1), lambda i: args[0]))]


@model("std::iter::empty", "core::iter::empty")
def m_empty(ex, st, args, f, dty):
    return [(st, IterV(intc(0), lambda i: POISON))]


def recv(ex, st, v):
    """the iterator behind a value or unique reference"""
    it = to_iter(ex, st, v)
    if it is None:
        return None
    return it


@model("std::iter::Iterator::next")
def m_next(ex, st, args, f, dty):
    r, it = None, args[0]
    if isinstance(it, RefV):
        r, it = target(ex, st, it)
    it0 = it
    if isinstance(it, Tup):
        it = to_iter(ex, st, it)
    if not isinstance(it, IterV) or r is None:
        return NotImplemented
    if it.eff:
        raise Unsupported("stepping through an iterator with effects")
    if it0 is not it:
        # a range stepped in place
        if "ops::Range<" in it0.ty and isT(*it0.fields[:2]):
            lo, hi = it0.fields[:2]
            c = decide(st.pc, tm.lt(lo, hi))
            st = st.fork()
            ex.wr(st, r.cell, r.path, Tup(it0.ty, [tm.ite(c, tm.add(lo, intc(1)), lo), hi]))
            return [(st, opt(ex, dty, c, lo))]
        raise Unsupported("stepping a range in place")
    c = decide(st.pc, tm.lt(it.start, it.n))
    st = st.fork()
    v = it.at(it.start)
    nx = IterV(it.n, it.at, tm.add(it.start, intc(1)), it.eff)
    if c is TRUE:
        ex.wr(st, r.cell, r.path, nx)
    elif c is not FALSE:
        ex.wr(st, r.cell, r.path, merge_val(c, nx, it))
    return [(st, opt(ex, dty, c, v))]


def mutates_self(b):
    """does the closure body write to (or uniquely borrow) its own captures?"""
    r = b.get("_mut")
    if r is None:
        r = False
        for bl in b["blocks"]:
            for x in bl["s"]:
                if x[0] != "assign":
                    continue
                if x[1]["l"] == 1 and x[1]["p"]:
                    r = True
                if x[2][0] == "ref" and x[2][1] and x[2][2]["l"] == 1:
                    r = True
                if x[2][0] == "rawptr" and x[2][1]["l"] == 1:
                    r = True
            t = bl["t"]
            if t[0] == "call" and t[3]["l"] == 1:
                r = True
        b["_mut"] = r
    return r


def has_effects(ex, st, fv):
    while isinstance(fv, (VRef, BoxV)):
        fv = fv.v
    if isinstance(fv, RefV):
        return has_effects(ex, st, ex.rd(st, fv.cell, fv.path))
    if isinstance(fv, ClosV):
        if any(isinstance(c, RefV) for c in fv.caps):
            return True
        b = ex.p.bodies.get(fv.id)
        return b is None or mutates_self(b)
    return False


@model("std::iter::Iterator::map")
def m_map(ex, st, args, f, dty):
    it = recv(ex, st, args[0])
    if it is None or it.eff:
        return NotImplemented
    it = norm_iter(it)
    fv = args[1]
    if has_effects(ex, st, fv):
        return [(st, IterV(it.n, it.at, None, fv))]
    st0 = st.fork()
    if ex.panics is not None and not ex.quiet:
        j = tm.fresh("j", "I")
        ex.loudly(st0, fv, [it.at(j)], it.n, j)
    return [(st, IterV(it.n, lambda i: ex.pure_call(fv, [it.at(i)], st0)))]


def counting(v, other):
    """an unbounded range, as far as the other iterator goes"""
    if isinstance(v, Tup) and isinstance(v.ty, str) and ("ops::RangeFrom<" in v.ty or "range::RangeFrom<" in v.ty) and isT(v.fields[0]) and v.fields[0].sort == "I":
        return IterV(norm_iter(other).n, lambda i: tm.add(v.fields[0], i))
    return None


@model("std::iter::Iterator::zip", "std::iter::zip")
def m_zip(ex, st, args, f, dty):
    a, b = recv(ex, st, args[0]), to_iter(ex, st, args[1])
    if a is None and b is not None:
        a = counting(args[0], b)
    elif b is None and a is not None:
        b = counting(args[1], a)
    if a is None or b is None or a.eff or b.eff:
        return NotImplemented
    a, b = norm_iter(a), norm_iter(b)
    n = a.n if tm.canon(a.n) is tm.canon(b.n) else mm("mins", a.n, b.n)
    return [(st, IterV(n, lambda i: Tup("tuple", [a.at(i), b.at(i)])))]


@model("std::iter::Iterator::enumerate")
def m_enum(ex, st, args, f, dty):
    a = norm_iter(recv(ex, st, args[0]))
    if a.eff:
        return NotImplemented
    return [(st, IterV(a.n, lambda i: Tup("tuple", [i, a.at(i)])))]


@model("std::iter::Iterator::rev")
def m_rev(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    return [(st, IterV(a.n, lambda i: a.at(tm.sub(tm.sub(a.n, intc(1)), i))))]


@model("std::iter::Iterator::skip")
def m_skip(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    k = args[1]
    n = tm.sub(a.n, k)
    if tm.isnum(n):
        n = intc(max(0, int(tm.nval(n))))
    elif not ex.nonneg(n):
        n = tm.ite(tm.le(k, a.n), n, intc(0))
    return [(st, IterV(n, lambda i: a.at(tm.add(k, i))))]


@model("std::iter::Iterator::take")
def m_take(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    k = args[1]
    n = k if ex.nonneg(tm.sub(a.n, k)) else a.n if ex.nonneg(tm.sub(k, a.n)) else mm("mins", a.n, k)
    return [(st, IterV(n, a.at))]


@model("std::iter::Iterator::chain")
def m_chain(ex, st, args, f, dty):
    a, b = recv(ex, st, args[0]), to_iter(ex, st, args[1])
    if a is None or b is None or a.eff or b.eff:
        return NotImplemented
    a, b = norm_iter(a), norm_iter(b)
    return [(st, IterV(tm.add(a.n, b.n), lambda i: merge_val(tm.lt(i, a.n), a.at(i), b.at(tm.sub(i, a.n)))))]


@model("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def m_copied(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    st0 = st.fork()
    return [(st, IterV(a.n, lambda i: ex.deref(st0, a.at(i)), a.start))]


@model("std::iter::Iterator::by_ref")
def m_byref(ex, st, args, f, dty):
    return [(st, args[0])]


@model("std::iter::repeat", "core::iter::repeat")
def m_repeat(ex, st, args, f, dty):
    return [(st, IterV(tm.var("infinite.len", "I"), lambda i: args[0]))]


@model("itertools::Itertools::tuple_windows")
def m_tuple_windows(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    w = None
    for t in f.get("targs", []):
        u = ex.p.ty(t)
        if u and u["k"] == "tuple":
            w = len(u["elems"])
    if w is None:
        return NotImplemented
    m = tm.sub(a.n, intc(w - 1))
    if not ex.nonneg(m):
        m = tm.ite(tm.le(intc(0), m), m, intc(0))
    return [(st, IterV(m, lambda i: Tup("tuple", [a.at(tm.add(i, intc(j))) for j in range(w)])))]


def run_effects(ex, st, it, sink):
    """consume an iterator whose closure has effects as the loop
         for x in it { out.push(f(x)) }
    and return (state, SeqV of results)"""
    it = norm_iter(it)
    k = tm.fresh("k", "I")
    st = st.fork()
    out = ex.alloc(st, SeqV.of([]))
    fv = it.eff
    if isinstance(fv, ClosV):
        c = ex.alloc(st, fv)
        fv = RefV(c)

    def body(s):
        s = s.fork()
        s.assume(tm.lt(k, it.n))
        res = ex.call_value(fv, [it.at(k)], s)
        if not res:
            return None, None
        if len(res) > 1:
            for x, v in res:
                x.cells[("ret", 0)] = v
            x = merge_all([x for x, _ in res])
            v = x.cells.pop(("ret", 0))
        else:
            x, v = res[0]
        x = x.fork()
        if sink:
            old = ex.seq(x.cells[out])
            n0 = old.n
            x.cells[out] = SeqV(tm.add(n0, intc(1)), lambda i: merge_val(tm.eq(i, n0), v, old.at(i)))
        return x, v

    keys = [c for c in st.cells]
    H, back, v = ex.summarise(st, keys, k, body)
    # state after the last iteration
    m = {k: it.n}
    memo = {}
    cells = {}
    for c, x in H.cells.items():
        cells[c] = subst_val(x, m) if isinstance(x, (T, Tup, EnumV, VRef, BoxV, SeqV, MatV, ClosV, OpaqueV, ChoiceV, IterV)) else x
    s2 = St(cells, st.pc)
    r = s2.cells.pop(out)
    return s2, r


def collect_until(ex, st, it, dty, good):
    """collect into Result<Vec<_>, _> or Option<Vec<_>>: the loop
         for x in it { out.push(f(x)?) }"""
    it = norm_iter(it)
    k = tm.fresh("k", "I")
    st = st.fork()
    out = ex.alloc(st, SeqV.of([]))
    fv = it.eff
    if isinstance(fv, ClosV):
        fv = RefV(ex.alloc(st, fv))

    def body(s):
        s = s.fork()
        s.assume(tm.lt(k, it.n))
        res = ex.call_value(fv, [it.at(k)], s) if fv is not None else [(s, it.at(k))]
        oks, errs = [], []
        for x, v in res:
            v = ex.strip(x, v)
            if not isinstance(v, EnumV):
                raise Unsupported("collect of " + type(v).__name__)
            g = ex.p.variant_index(v.ty, good)
            c = decide(x.pc, tm.eq(ex.disc(x, v), intc(g)))
            if c is not FALSE:
                y = x.fork()
                y.assume(c)
                old = ex.seq(y.cells[out])
                n0, e = old.n, v.vs[g][0]
                y.cells[out] = SeqV(tm.add(n0, intc(1)), lambda i, old=old, n0=n0, e=e: merge_val(tm.eq(i, n0), e, old.at(i)))
                oks.append(y)
            if c is not TRUE:
                y = x.fork()
                y.assume(tm.not_(c))
                errs.append((y, v.vs.get(1 - g, ())))
        return merge_all(oks), errs

    keys = [c for c in st.cells]
    H, back, errs = ex.summarise(st, keys, k, body)
    g = ex.p.variant_index(dty, good)
    res = []
    for x, v in errs:
        x.cells.pop(out, None)
        res.append((x, EnumV(dty, intc(1 - g), {1 - g: v})))
    if back is None:
        if decide(st.pc, tm.lt(intc(0), it.n)) is not TRUE:
            raise Unsupported("collect that always fails")
        return res
    m = {k: it.n}
    cells = {c: subst_val(x, m) if isinstance(x, (T, Tup, EnumV, VRef, BoxV, SeqV, MatV, ClosV, OpaqueV, ChoiceV, IterV)) else x for c, x in H.cells.items()}
    s2 = St(cells, st.pc)
    rest = [c for c in back.pc[len(st.pc):] if c not in (tm.le(intc(0), k), tm.lt(k, it.n))]
    if rest:
        s2.assume(tm.implies(tm.and_(tm.le(intc(0), k), tm.lt(k, it.n)), tm.and_(*rest)))
    r = s2.cells.pop(out)
    return res + [(s2, EnumV(dty, intc(g), {g: (r,)}))]


@model("std::iter::Iterator::for_each")
def m_for_each(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    s, _ = run_effects(ex, st, IterV(a.n, a.at, None, args[1]), False)
    return [(s, UNIT)]


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter", "itertools::Itertools::collect_vec")
def m_collect(ex, st, args, f, dty):
    a = to_iter(ex, st, args[0])
    if a is None:
        return NotImplemented
    t = ex.p.ty(dty)
    if t is not None and t["k"] == "adt" and not (t["path"].endswith("vec::Vec") or t["path"].endswith("boxed::Box")):
        good = {"Result": "Ok", "Option": "Some"}.get(t["path"].rsplit("::", 1)[1])
        inner = ex.p.ty(t["variants"][ex.p.variant_index(dty, good)]["fields"][0]["ty"]) if good else None
        if inner is not None and inner["k"] == "adt" and inner["path"].endswith("vec::Vec"):
            return collect_until(ex, st, a, dty, good)
        raise Unsupported("collect into " + dty)
    if a.eff:
        s, r = run_effects(ex, st, a, True)
        return [(s, r)]
    a = norm_iter(a)
    s = SeqV.of([a.at(intc(i)) for i in range(int(tm.nval(a.n)))]) if tm.isnum(a.n) and tm.nval(a.n) <= 64 else SeqV(a.n, a.at)
    return [(st, s)]


@model("std::iter::Iterator::unzip")
def m_unzip(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None:
        return NotImplemented
    if a.eff:
        st, r = run_effects(ex, st, a, True)
        a = IterV(r.n, r.at)
    a = norm_iter(a)
    return [(st, Tup("tuple", [SeqV(a.n, lambda i, j=j: ex.get1(st, a.at(i), ("f", j))) for j in (0, 1)]))]


@model("std::iter::Iterator::sum", "std::iter::Sum::sum")
def m_sum(ex, st, args, f, dty):
    a = to_iter(ex, st, args[0])
    if a is None:
        return NotImplemented
    if a.eff:
        st, r = run_effects(ex, st, a, True)
        a = IterV(r.n, r.at)
    a = norm_iter(a)
    if not isinstance(ex.dom, RealDom):
        raise Unsupported("sum in machine arithmetic")
    g = lambda i: ex.term(ex.strip(st, a.at(i)))
    if tm.isnum(a.n) and tm.nval(a.n) <= 64:
        return [(st, tm.add([tm.ZERO] + [g(intc(i)) for i in range(int(tm.nval(a.n)))]))]
    return [(st, tm.binder("sum", a.n, g))]


@model("std::iter::Iterator::product")
def m_product(ex, st, args, f, dty):
    a = to_iter(ex, st, args[0])
    a = norm_iter(a)
    if a.eff or not tm.isnum(a.n):
        return NotImplemented
    return [(st, tm.mul([tm.ONE] + [ex.term(ex.strip(st, a.at(intc(i)))) for i in range(int(tm.nval(a.n)))]))]


@model("std::iter::Iterator::count")
def m_count(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    return [(st, norm_iter(a).n)]


@model("std::iter::Iterator::last")
def m_iter_last(ex, st, args, f, dty):
    a = norm_iter(recv(ex, st, args[0]))
    if a.eff:
        return NotImplemented
    return [(st, opt(ex, dty, pos(ex, a.n), a.at(tm.sub(a.n, intc(1)))))]


@model("std::iter::Iterator::nth")
def m_nth(ex, st, args, f, dty):
    a = norm_iter(recv(ex, st, args[0]))
    if a.eff or isinstance(args[0], RefV) and False:
        return NotImplemented
    return [(st, opt(ex, dty, tm.lt(args[1], a.n), a.at(args[1])))]


def allany(k):
    def g(ex, st, args, f, dty):
        a = recv(ex, st, args[0])
        if a is None or a.eff:
            return NotImplemented
        a = norm_iter(a)
        if has_effects(ex, st, args[1]):
            return NotImplemented
        if not tm.isnum(a.n):
            # none of the elements is against it: their number is zero
            zero, one = (tm.num(0), tm.num(1)) if k == "all" else (tm.num(1), tm.num(0))

            def bad(i):
                return tm.ite(ex.term(ex.pure_call(args[1], [a.at(i)], st)), zero, one)

            z = tm.eq(tm.binder("sum", a.n, bad), tm.num(0))
            return [(st, z if k == "all" else tm.not_(z))]
        cs = [ex.term(ex.pure_call(args[1], [a.at(intc(i))], st)) for i in range(int(tm.nval(a.n)))]
        return [(st, tm.and_(cs) if k == "all" else tm.or_(cs))]

    return g


MODELS["std::iter::Iterator::all"] = allany("all")
MODELS["std::iter::Iterator::any"] = allany("any")


def direction(ex, st, cmp, el, n, i):
    """True when the comparator is the order of the numbers, False when it is the opposite order"""
    from .prove import valid

    wrap = lambda t: VRef(t) if isinstance(el, VRef) else t
    core = ex.strip(st, el)
    if not isinstance(core, T) or core.sort != "R" or not isinstance(ex.dom, RealDom):
        return None
    x, y = tm.fresh("x"), tm.fresh("y")
    w2 = lambda t: VRef(wrap(t))
    r = ex.pure_call(cmp, [w2(x), w2(y)], st)
    if not isinstance(r, EnumV):
        return None
    if ex.panics is not None and not ex.quiet:
        ex.loudly(st.fork(), cmp, [w2(x), w2(y)], n, i)
    up = ex.ordering(tm.lt(x, y), tm.eq(x, y)).disc
    dn = ex.ordering(tm.lt(y, x), tm.eq(x, y)).disc
    d = tm.canon(r.disc)
    if d is tm.canon(up) or valid(tm.eq(r.disc, up)):
        return True
    if d is tm.canon(dn) or valid(tm.eq(r.disc, dn)):
        return False
    raise Unsupported("comparator is not the order of the values")


def minmax(op):
    def g(ex, st, args, f, dty):
        a = recv(ex, st, args[0])
        if a is None or a.eff:
            return NotImplemented
        a = norm_iter(a)
        i = tm.fresh("e", "I")
        el = a.at(i)
        up = direction(ex, st, args[1], el, a.n, i)
        if up is None:
            return NotImplemented
        o = op if up else "mins" if op == "maxs" else "maxs"
        m = tm.binder(o, a.n, lambda j: ex.term(ex.strip(st, a.at(j))))
        return [(st, opt(ex, dty, pos(ex, a.n), VRef(m) if isinstance(el, VRef) else m))]

    return g


@model(*["alloc::slice::<impl [T]>::" + k for k in ("sort_by",)], *["std::slice::<impl [T]>::" + k for k in ("sort_by", "sort_unstable_by")], *["core::slice::<impl [T]>::" + k for k in ("sort_by", "sort_unstable_by")])
def m_sort_by(ex, st, args, f, dty):
    """the ends of a sorted slice are its least and its greatest element; nothing is said of the others"""
    r, v = target(ex, st, args[0])
    v = ex.seq(v)
    i = tm.fresh("e", "I")
    el = v.at(i)
    up = direction(ex, st, args[1], el, v.n, i)
    if up is None or isinstance(el, VRef):
        return NotImplemented
    lo, hi = ("mins", "maxs") if up else ("maxs", "mins")

    def at(j):
        if tm.canon(j) is intc(0):
            return tm.binder(lo, v.n, v.at)
        if tm.canon(tm.sub(v.n, j)) is intc(1):
            return tm.binder(hi, v.n, v.at)
        raise Unsupported("inner element of a sorted sequence")

    st = st.fork()
    ex.wr(st, r.cell, r.path, SeqV(v.n, at))
    return [(st, UNIT)]


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copy_from_slice(ex, st, args, f, dty):
    r, v = target(ex, st, args[0])
    a, b = ex.seq(v), ex.seq(ex.strip(st, args[1]))
    if tm.canon(a.n) is not tm.canon(b.n):
        return NotImplemented
    st = st.fork()
    if isinstance(v, Tup):
        ex.wr(st, r.cell, r.path, Tup(v.ty, [strip_copy(ex, st, b.at(intc(i))) for i in range(len(v.fields))]))
    elif isinstance(v, SeqV):
        ex.wr(st, r.cell, r.path, SeqV(a.n, lambda i: strip_copy(ex, st, b.at(i))))
    else:
        return NotImplemented
    return [(st, UNIT)]


@model("itertools::Itertools::minmax", "itertools::Itertools::minmax_by")
def m_it_minmax(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    i = tm.fresh("e", "I")
    el = a.at(i)
    core = ex.strip(st, el)
    up = True
    if len(args) > 1:
        up = direction(ex, st, args[1], el, a.n, i)
    if up is None or not isinstance(core, T) or core.sort != "R" or not isinstance(ex.dom, RealDom):
        return NotImplemented
    wrap = (lambda t: VRef(t)) if isinstance(el, VRef) else (lambda t: t)
    val = lambda j: ex.term(ex.strip(st, a.at(j)))
    lo, hi = (wrap(tm.binder(o, a.n, val)) for o in (("mins", "maxs") if up else ("maxs", "mins")))
    i0, i1, i2 = (ex.p.variant_index(dty, k) for k in ("NoElements", "OneElement", "MinMax"))
    disc = tm.ite(tm.lt(intc(1), a.n), intc(i2), tm.ite(tm.eq(a.n, intc(1)), intc(i1), intc(i0)))
    return [(st, EnumV(dty, disc, {i0: (), i1: (lo,), i2: (lo, hi)}))]


@model("itertools::MinMaxResult::<T>::into_option")
def m_into_option(ex, st, args, f, dty):
    r = args[0]
    if not isinstance(r, EnumV):
        return NotImplemented
    i0, i1, i2 = (ex.p.variant_index(r.ty, k) for k in ("NoElements", "OneElement", "MinMax"))
    one, two = r.vs[i1][0], r.vs[i2]
    c = tm.eq(r.disc, intc(i1))
    v = Tup("tuple", [merge_val(c, one, two[0]), merge_val(c, one, two[1])])
    j0, j1 = ex.p.variant_index(dty, "None"), ex.p.variant_index(dty, "Some")
    return [(st, EnumV(dty, tm.ite(tm.eq(r.disc, intc(i0)), intc(j0), intc(j1)), {j0: (), j1: (v,)}))]


@model("itertools::zip_eq", "itertools::Itertools::zip_eq")
def m_zip_eq(ex, st, args, f, dty):
    a, b = to_iter(ex, st, args[0]), to_iter(ex, st, args[1])
    if a is None or b is None or a.eff or b.eff:
        return NotImplemented
    a, b = norm_iter(a), norm_iter(b)
    if tm.canon(a.n) is not tm.canon(b.n):
        return NotImplemented
    return [(st, IterV(a.n, lambda i: Tup("tuple", [a.at(i), b.at(i)])))]


MODELS["std::iter::Iterator::max_by"] = minmax("maxs")
MODELS["std::iter::Iterator::min_by"] = minmax("mins")


@model("std::iter::Iterator::fold")
def m_fold(ex, st, args, f, dty):
    a = recv(ex, st, args[0])
    if a is None or a.eff:
        return NotImplemented
    a = norm_iter(a)
    acc, fv = args[1], args[2]
    if tm.isnum(a.n) and tm.nval(a.n) <= 64:
        for i in range(int(tm.nval(a.n))):
            res = ex.call_value(fv, [acc, a.at(intc(i))], st, dty)
            if len(res) != 1:
                return NotImplemented
            st, acc = res[0]
        return [(st, acc)]
    k = tm.fresh("k", "I")
    st = st.fork()
    c = ex.alloc(st, acc)

    def body(s):
        s = s.fork()
        s.assume(tm.lt(k, a.n))
        res = ex.call_value(fv, [s.cells[c], a.at(k)], s, dty)
        if len(res) != 1:
            raise Unsupported("fold")
        x, v = res[0]
        x = x.fork()
        x.cells[c] = v
        return x, None

    H, back, _ = ex.summarise(st, list(st.cells), k, body)
    m = {k: a.n}
    cells = {q: subst_val(x, m) if isinstance(x, (T, Tup, EnumV, VRef, BoxV, SeqV, MatV, ClosV, OpaqueV, ChoiceV, IterV)) else x for q, x in H.cells.items()}
    s2 = St(cells, st.pc)
    v = s2.cells.pop(c)
    return [(s2, v)]


@model("std::array::<impl [T; N]>::map")
def m_arr_map(ex, st, args, f, dty):
    v = args[0]
    if not isinstance(v, Tup):
        return NotImplemented
    out = []
    for x in v.fields:
        res = ex.call_value(args[1] if not isinstance(args[1], ClosV) else args[1], [x], st)
        if len(res) != 1:
            return NotImplemented
        st, y = res[0]
        out.append(y)
    return [(st, Tup(dty, out))]


@model("std::array::from_fn", "core::array::from_fn")
def m_arr_from_fn(ex, st, args, f, dty):
    t = ex.p.ty(dty)
    if not t or t["k"] != "array":
        return NotImplemented
    out = []
    for i in range(t["len"]):
        res = ex.call_value(args[0], [intc(i)], st)
        if len(res) != 1:
            return NotImplemented
        st, y = res[0]
        out.append(y)
    return [(st, Tup(dty, out))]


# ---- errors and text ------------------------------------------------------------
def opaque_const(name):
    def g(ex, st, args, f, dty):
        return [(st, OpaqueV(dty, tm.var(name, "O")))]

    return g


for _p in (
    "anyhow::__private::format_err", "anyhow::__private::must_use", "anyhow::Error::msg", "anyhow::Error::new", "anyhow::error::<impl anyhow::Error>::msg",
    "anyhow::error::<impl anyhow::Error>::new", "anyhow::error::<impl anyhow::Error>::context", "anyhow::Error::context", "anyhow::private::format_err", "std::fmt::format", "alloc::fmt::format",
):
    MODELS[_p] = opaque_const("anyhow")
for _p in ("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
           "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::Arguments::<'a>::from_str_nonconst",
           "std::string::ToString::to_string"):
    MODELS[_p] = opaque_const("text")


@model("std::io::_print", "std::io::_eprint")
def m_print(ex, st, args, f, dty):
    return [(st, UNIT)]


@model("anyhow::Context::context", "anyhow::Context::with_context")
def m_context(ex, st, args, f, dty):
    v = args[0]
    err = OpaqueV("anyhow::Error", tm.var("anyhow", "O"))
    ok, er = ex.p.variant_index(dty, "Ok"), ex.p.variant_index(dty, "Err")
    if not isinstance(v, EnumV):
        return NotImplemented
    t = ex.p.ty(v.ty)
    good = ex.p.variant_index(v.ty, "Some" if t["path"].endswith("Option") else "Ok")
    vs = {er: (err,)}
    if good in v.vs:
        vs[ok] = v.vs[good]
    return [(st, EnumV(dty, tm.ite(tm.eq(v.disc, intc(good)), intc(ok), intc(er)), vs))]


# ---- nalgebra ---------------------------------------------------------------------
def shape(ex, dty):
    t = ex.p.ty(dty)
    if t is None or t["k"] != "adt":
        raise Unsupported("matrix type")
    return ex.matrix_dims(t)


@nalg("zeros")
def n_zeros(ex, st, args, f, dty):
    return filled(ex, st, args, dty, tm.ZERO)


@nalg("fill")
def n_fill(ex, st, args, f, dty):
    r, v = args[0], ex.strip(st, args[0])
    if not isinstance(r, RefV) or not isinstance(v, (MatV, SeqV)):
        return NotImplemented
    st = st.fork()
    new = MatV(v.r, v.c, [args[1]] * len(v.d)) if isinstance(v, MatV) else SeqV(v.n, lambda i: args[1])
    ex.wr(st, r.cell, r.path, new)
    return [(st, UNIT)]


@nalg("from_element", "repeat")
def n_from_element(ex, st, args, f, dty):
    return filled(ex, st, args[:-1], dty, args[-1])


def filled(ex, st, args, dty, v):
    d = shape(ex, dty)
    if d == "dyn":
        return [(st, SeqV(args[0], lambda i: v))]
    if d is None:
        return NotImplemented
    return [(st, MatV(d[0], d[1], [v] * (d[0] * d[1])))]


@nalg("identity")
def n_identity(ex, st, args, f, dty):
    d = shape(ex, dty)
    if d in (None, "dyn"):
        return NotImplemented
    return [(st, MatV(d[0], d[1], [tm.ONE if i == j else tm.ZERO for j in range(d[1]) for i in range(d[0])]))]


@nalg("new")
def n_new(ex, st, args, f, dty):
    d = shape(ex, dty)
    if d in (None, "dyn") or len(args) != d[0] * d[1] or not isT(*args):
        return NotImplemented
    # arguments are given row by row
    return [(st, MatV(d[0], d[1], [args[i * d[1] + j] for j in range(d[1]) for i in range(d[0])]))]


@nalg("from_row_slice", "from_column_slice", "from_vec", "from", "from_slice")
def n_from_slice(ex, st, args, f, dty):
    d = shape(ex, dty)
    s = ex.seq(ex.strip(st, args[0]))
    if d == "dyn":
        return [(st, s)]
    if d is None:
        return NotImplemented
    if f["path"].endswith("from_row_slice"):
        return [(st, MatV(d[0], d[1], [s.at(intc(i * d[1] + j)) for j in range(d[1]) for i in range(d[0])]))]
    return [(st, MatV(d[0], d[1], [s.at(intc(i)) for i in range(d[0] * d[1])]))]


@nalg("from_iterator")
def n_from_iter(ex, st, args, f, dty):
    it = to_iter(ex, st, args[-1])
    if it is None:
        return NotImplemented
    if it.eff:
        st, r = run_effects(ex, st, it, True)
        it = IterV(r.n, r.at)
    it = norm_iter(it)
    get = lambda i: strip_copy(ex, st, it.at(i))
    d = shape(ex, dty)
    if d == "dyn":
        return [(st, SeqV(args[0], get))]
    if d is None:
        return NotImplemented
    return [(st, MatV(d[0], d[1], [get(intc(i)) for i in range(d[0] * d[1])]))]


@nalg("from_fn")
def n_from_fn(ex, st, args, f, dty):
    d = shape(ex, dty)
    fv = args[-1]
    st0 = st.fork()
    if d == "dyn":
        return [(st, SeqV(args[0], lambda i: ex.pure_call(fv, [i, intc(0)], st0)))]
    if d is None:
        return NotImplemented
    return [(st, MatV(d[0], d[1], [ex.pure_call(fv, [intc(i), intc(j)], st0) for j in range(d[1]) for i in range(d[0])]))]


@nalg("nrows", "len")
def n_nrows(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if isinstance(v, MatV):
        return [(st, intc(v.r if f["path"].endswith("nrows") else v.r * v.c))]
    return [(st, ex.seq(v).n)]


@nalg("iter", "as_slice")
def n_iter(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    s = ex.seq(v)
    if f["path"].endswith("as_slice"):
        return [(st, VRef(s))]
    return [(st, IterV(s.n, lambda i: VRef(s.at(i))))]


@nalg("map")
def n_map(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if has_effects(ex, st, args[1]):
        return NotImplemented
    st0 = st.fork()
    if isinstance(v, MatV):
        return [(st, MatV(v.r, v.c, [ex.pure_call(args[1], [x], st0) for x in v.d]))]
    s = ex.seq(v)
    return [(st, SeqV(s.n, lambda i: ex.pure_call(args[1], [s.at(i)], st0)))]


@nalg("zip_map")
def n_zip_map(ex, st, args, f, dty):
    a, b = ex.strip(st, args[0]), ex.strip(st, args[1])
    if has_effects(ex, st, args[2]):
        return NotImplemented
    st0 = st.fork()
    r = elementwise(ex, lambda x, y: ex.pure_call(args[2], [x, y], st0), a, b)
    return r if r is NotImplemented else [(st, r)]


@nalg("zip_zip_map")
def n_zip_zip_map(ex, st, args, f, dty):
    a, b, c = (ex.strip(st, x) for x in args[:3])
    if has_effects(ex, st, args[3]):
        return NotImplemented
    st0 = st.fork()
    r = elementwise(ex, lambda x, y: Tup("tuple", [x, y]), a, b)
    if r is NotImplemented:
        return r
    r = elementwise(ex, lambda x, y: ex.pure_call(args[3], [*x.fields, y], st0), r, c)
    return r if r is NotImplemented else [(st, r)]


@nalg("component_mul", "component_div")
def n_cmul(ex, st, args, f, dty):
    a, b = ex.strip(st, args[0]), ex.strip(st, args[1])
    op = ex.dom.mul if f["path"].endswith("component_mul") else ex.dom.div
    r = elementwise(ex, op, a, b)
    return r if r is NotImplemented else [(st, r)]


@nalg("scale", "unscale")
def n_scale(ex, st, args, f, dty):
    op = ex.dom.mul if f["path"].endswith("::scale") else ex.dom.div
    r = elementwise(ex, op, ex.strip(st, args[0]), args[1])
    return r if r is NotImplemented else [(st, r)]


@nalg("add_scalar")
def n_add_scalar(ex, st, args, f, dty):
    r = elementwise(ex, ex.dom.add, ex.strip(st, args[0]), args[1])
    return r if r is NotImplemented else [(st, r)]


@nalg("sum")
def n_sum(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if isinstance(v, MatV):
        return [(st, tm.add(list(v.d)))]
    s = ex.seq(v)
    return [(st, tm.binder("sum", s.n, lambda i: ex.term(s.at(i))))]


@nalg("mean")
def n_mean(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if isinstance(v, MatV):
        return [(st, tm.div(tm.add(list(v.d)), tm.num(len(v.d))))]
    s = ex.seq(v)
    tot = tm.binder("sum", s.n, lambda i: ex.term(s.at(i)))
    return [(st, tm.ite(tm.eq(s.n, intc(0)), tm.ZERO, tm.div(tot, tm.i2r(s.n))))]


@nalg("dot")
def n_dot(ex, st, args, f, dty):
    r = elementwise(ex, ex.dom.mul, ex.strip(st, args[0]), ex.strip(st, args[1]))
    if r is NotImplemented:
        return r
    if isinstance(r, MatV):
        return [(st, tm.add(list(r.d)))]
    return [(st, tm.binder("sum", r.n, lambda i: ex.term(r.at(i))))]


def n_ext(op):
    def g(ex, st, args, f, dty):
        v = ex.strip(st, args[0])
        if isinstance(v, MatV):
            r = v.d[0]
            for x in v.d[1:]:
                r = mm(op, r, x)
            return [(st, r)]
        s = ex.seq(v)
        return [(st, tm.binder(op, s.n, lambda i: ex.term(s.at(i))))]

    return g


NALG["max"] = n_ext("maxs")
NALG["min"] = n_ext("mins")


@nalg("clone_owned", "into_owned", "column", "into")
def n_ident(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if f["path"].endswith("column"):
        return NotImplemented
    return [(st, v)]


@nalg("transpose")
def n_transpose(ex, st, args, f, dty):
    m = ex.strip(st, args[0])
    if not isinstance(m, MatV):
        return NotImplemented
    return [(st, MatV(m.c, m.r, [m.get(j, i) for i in range(m.r) for j in range(m.c)]))]


@nalg("rows")
def n_rows(ex, st, args, f, dty):
    v = ex.strip(st, args[0])
    if not isinstance(v, SeqV):
        return NotImplemented
    return [(st, SeqV(args[2], lambda i: v.at(tm.add(args[1], i))))]


class DecompV(Tup):
    """matrix decomposition: kind and the decomposed matrix"""

    __slots__ = ()


def decomp(kind):
    def g(ex, st, args, f, dty):
        a = ex.strip(st, args[0])
        if not isinstance(a, MatV) or a.r != a.c:
            return NotImplemented
        extra = [x for x in args[1:]]
        return [(st, DecompV("decomp:" + kind, [a] + extra))]

    return g


for _k in ("lu", "full_piv_lu", "qr", "col_piv_qr"):
    NALG[_k] = decomp(_k)
NALG["svd"] = decomp("svd")
NALG["svd_unordered"] = decomp("svd")


@nalg("cholesky")
def n_cholesky(ex, st, args, f, dty):
    a = ex.strip(st, args[0])
    ok = tm.app("cholesky.ok", a.d, "B")
    return [(st, opt(ex, dty, ok, DecompV("decomp:cholesky", [a])))]


def solution(ex, a, b):
    """the solution of the linear system, as uninterpreted functions of its data"""
    n = a.r
    key = tuple(a.d) + tuple(b.d)
    x = [tm.app("linsolve%d" % j, key) for j in range(n)]
    rows = [(tm.add([tm.mul(a.get(i, j), x[j]) for j in range(n)]), b.d[i]) for i in range(n)]
    return x, rows


@nalg("solve", "try_inverse", "solve_mut")
def n_solve(ex, st, args, f, dty):
    d = ex.strip(st, args[0])
    if not isinstance(d, DecompV) or f["path"].endswith("try_inverse"):
        return NotImplemented
    if f["path"].endswith("solve_mut"):
        # solves in place; the vector is unspecified when the result is false
        kind = d.ty.split(":")[1]
        r, b = target(ex, st, args[1])
        if kind not in ("lu", "full_piv_lu", "qr", "col_piv_qr") or not isinstance(b, MatV) or b.c != 1 or b.r != d.fields[0].r:
            return NotImplemented
        a = d.fields[0]
        x, rows = solution(ex, a, b)
        ok = tm.app("solve.ok:" + kind, tuple(a.d) + tuple(b.d), "B")
        ex.solves.append({"kind": kind, "a": a, "b": b, "x": x, "ok": ok, "exact": True, "rows": rows})
        junk = [tm.app("unsolved%d" % j, tuple(a.d) + tuple(b.d)) for j in range(a.r)]
        st = st.fork()
        ex.wr(st, r.cell, r.path, MatV(b.r, 1, [tm.ite(ok, u, w) for u, w in zip(x, junk)]))
        return [(st, ok)]
    kind = d.ty.split(":")[1]
    a = d.fields[0]
    b = ex.strip(st, args[1])
    if not isinstance(b, MatV) or b.r != a.r or b.c != 1:
        return NotImplemented
    x, rows = solution(ex, a, b)
    key = tuple(a.d) + tuple(b.d)
    exact = True
    if kind == "svd":
        # with a positive cut-off, singular values of a regular matrix may be dropped;
        # without U or V the solve fails
        eps = args[2]
        uv = tm.and_(*[u for u in d.fields[1:3]])
        pre = tm.app("regular", tuple(a.d), "B")
        exact = tm.isnum(eps) and tm.nval(eps) == 0
        ok = tm.and_(uv, tm.app("solve.ok:" + kind, key, "B"))
        if not exact:
            x = [tm.app("svdsolve%d" % j, key + (eps,)) for j in range(a.r)]
    elif kind == "cholesky":
        return [(st, MatV(b.r, 1, [tm.app("cholsolve%d" % j, key) for j in range(a.r)]))]
    else:
        ok = tm.app("solve.ok:" + kind, key, "B")
    ex.solves.append({"kind": kind, "a": a, "b": b, "x": x, "ok": ok, "exact": exact, "rows": rows})
    t = ex.p.ty(dty)
    res = MatV(b.r, 1, x)
    if t["path"].endswith("Option"):
        return [(st, opt(ex, dty, ok, res))]
    if t["path"].endswith("Result"):
        o, e = ex.p.variant_index(dty, "Ok"), ex.p.variant_index(dty, "Err")
        return [(st, EnumV(dty, tm.ite(ok, intc(o), intc(e)), {o: (res,), e: (VRef(StrV("")),)}))]
    return NotImplemented


# ---- ode_solvers --------------------------------------------------------------------
class OdeV(Tup):
    """Dopri5: system, x0, x_end, dx, y0, rtol, atol"""

    __slots__ = ()


def is_dopri(f, name):
    return f["crate"].startswith("ode_solvers") and f["path"].endswith("::" + name)


def ode_model(ex, st, args, f, dty):
    nm = f["path"].rsplit("::", 1)[1]
    if nm == "new" and "Dopri5" in f["path"] and len(args) == 7:
        return [(st, OdeV("dopri5", args))]
    if nm == "integrate":
        r = args[0]
        v = ex.strip(st, r)
        if not isinstance(v, OdeV):
            return NotImplemented
        key = ode_key(ex, st, v)
        ok = tm.app("ode.ok", key, "B")
        st = st.fork()
        # the system is called any number of times: what it can write is not known afterwards
        if isinstance(r, RefV):
            ex.wr(st, r.cell, r.path, OdeV("dopri5", tuple(v.fields[:7]) + (strip_sys(ex, st, v.fields[0]),)))
        for j, cell in enumerate(cells_of(ex, st, v.fields[0])):
            st.cells[cell] = unknown(ex, st.cells[cell], "ode.cell%d" % j, key)
        o, e = ex.p.variant_index(dty, "Ok"), ex.p.variant_index(dty, "Err")
        return [(st, EnumV(dty, tm.ite(ok, intc(o), intc(e)), {o: (OpaqueV("stats", tm.var("stats", "O")),), e: (OpaqueV("ode error", tm.var("odeerr", "O")),)}))]
    if nm in ("x_out", "y_out"):
        v = ex.strip(st, args[0])
        if not isinstance(v, OdeV):
            return NotImplemented
        sys_, x0, xend, dx, y0, rtol, atol = v.fields[:7]
        n = ode_count(x0, xend, dx)
        if nm == "x_out":
            return [(st, VRef(SeqV(n, lambda i: tm.add(x0, tm.mul(tm.i2r(i), dx)))))]
        y0v = ex.strip(st, y0)
        key = ode_key(ex, st, v, False)

        def at(i):
            x = tm.add(x0, tm.mul(tm.i2r(i), dx))
            ys = [tm.app("ode.y%d" % j, key + (tm.canon(x),)) for j in range(y0v.r)]
            later = MatV(y0v.r, 1, ys)
            if tm.isnum(i):
                return y0v if tm.nval(i) == 0 else later
            if ex.nonneg(tm.sub(i, intc(1))):
                return later
            return merge_val(tm.eq(i, intc(0)), y0v, later)

        ex.odes.append({"sys": sys_, "x0": x0, "xend": xend, "dx": dx, "y0": y0v, "rtol": rtol, "atol": atol, "key": key, "n": n, "st": st.fork()})
        return [(st, VRef(SeqV(n, at)))]
    return NotImplemented


def ode_count(x0, xend, dx):
    """number of output points: floor((xend - x0)/dx) + 1, named so that contracts can resolve it"""
    return tm.app("ode.count", (tm.canon(tm.div(tm.sub(xend, x0), dx)),), "I")


def ode_key(ex, st, v, with_end=True):
    """what the trajectory depends on (not the output spacing dx, nor x_end beyond the point read)"""
    sys_, x0, xend, dx, y0, rtol, atol = v.fields[:7]
    fl = []
    flatten(v.fields[7] if len(v.fields) > 7 else strip_sys(ex, st, sys_), fl)
    flatten(ex.strip(st, y0), fl)
    fl += [x0, rtol, atol, intc(len(ex.strip(st, y0).d))]
    return tuple(tm.canon(t) if t.sort in "RI" else t for t in fl)


def cells_of(ex, st, v, out=None):
    """the shared cells that a value gives access to"""
    out = [] if out is None else out
    v = ex.strip(st, v)
    if isinstance(v, CellV) and v.cell not in out:
        out.append(v.cell)
        cells_of(ex, st, st.cells[v.cell], out)
    elif isinstance(v, Tup):
        for x in v.fields:
            cells_of(ex, st, x, out)
    return out


def unknown(ex, v, name, key):
    """any value of the same type, named after what determines it"""
    if isinstance(v, T):
        return tm.app(name, key, v.sort)
    if isinstance(v, OpaqueV):
        return OpaqueV(v.ty, tm.app(name, key, "O"))
    if isinstance(v, (EnumV, Tup)) and ex.p.ty(v.ty) is not None:
        return ex.uf(v.ty, name, key)
    raise Unsupported("shared state of the integrated system: " + type(v).__name__)


def strip_sys(ex, st, v):
    """structural identity of the ODE system with references removed"""
    v = ex.strip(st, v)
    if isinstance(v, Tup):
        return Tup(v.ty, [strip_sys(ex, st, x) for x in v.fields])
    if isinstance(v, CellV):
        return strip_sys(ex, st, st.cells[v.cell])
    return v
