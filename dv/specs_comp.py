"""C09 - C14, C19, C20: components built from their configurations, drives, gases, configurations,
the convergence test."""
from fractions import Fraction
from . import term as tm
from .term import T, TRUE, FALSE, intc, num, add, sub, mul, div, neg, lt, le
from .calculus import diff, sqrt_of_squares, NoDerivative
from .spec import *
from .contracts import result

TRAITS = {"ws": "ws::WorkingSpaces", "chx": "chx::ColdHeatExchanger", "regen": "regen::Regenerator", "hhx": "hhx::HotHeatExchanger"}
MODELS = {"ws": ["Sinusoidal", "Rhombic"], "chx": ["FixedApproach", "FixedConductance"], "regen": ["FixedApproach", "FixedConductance"], "hhx": ["FixedApproach", "FixedConductance"]}
HALF = num("1/2")


def pos(*ts):
    return [lt(tm.ZERO, t) for t in ts]


class Build:
    """Components::from(configuration) for one choice of models, all parameters arbitrary"""

    def __init__(self, c, **models):
        self.c = c
        self.models = {k: models.get(k, MODELS[k][0]) for k in TRAITS}
        ex = self.ex = c.exec()
        b = c.body(["<engine::Components as std::convert::From<engine::ComponentsConfig>>::from"], ["engine::ComponentsConfig"], "engine::Components")
        ccty = b["locals"][1]
        self.cfg = {}
        kw = {}
        for k in TRAITS:
            ety = [f["ty"] for f in c.p.ty(ccty)["variants"][0]["fields"] if f["name"] == k][0]
            i = c.p.variant_index(ety, self.models[k])
            pty = c.p.ty(ety)["variants"][i]["fields"][0]["ty"]
            self.cfg[k] = ex.sym(pty, k)
            kw[k] = ex.enum(ety, self.models[k], self.cfg[k])
        self.st, r = c.run(ex, b, [ex.struct(ccty, **kw)], St({}, ()))
        self.comp = {k: ex.field(r, k) for k in TRAITS}
        self.states = {k: ex.sym(k + "::State", k + "_state") for k in TRAITS}

    def P(self, comp, *names):
        return self.ex.field(self.cfg[comp], *names)

    def m(self, comp, method, args=None):
        """result of a method of the built component"""
        ex, c = self.ex, self.c
        tr = TRAITS[comp]
        obj = ex.strip(self.st, self.comp[comp])
        while isinstance(obj, (BoxV, VRef)):
            obj = obj.v
        dty = [f["output"] for f in c.p.fns if f.get("trait") == tr and f["name"] == method]
        if not dty:
            raise Lost("%s::%s" % (tr, method))
        if args is None:
            args = [] if method in ("volume", "initial_approach") else [VRef(self.states[comp])]
        f = {"path": "%s::%s" % (tr, method), "trait": tr, "method": method, "kind": "virtual", "crate": "sett_rs", "id": None}
        res = ex.call(f, [VRef(obj)] + args, self.st.fork(), dty[0])
        c.done(ex)
        if not res:
            raise Unsupported("%s never returns" % f["path"])
        self.pc = res[0][0].pc
        return res[0][1]

    def volumes(self, t):
        """((V_c, dV_c), (V_e, dV_e)) at time t"""
        ex = self.ex
        fn = self.m("ws", "volumes")
        res = ex.call_value(fn, [t], self.st.fork(), "(ws::CompVolume, ws::ExpVolume)")
        self.c.done(ex)
        if not res:
            raise Unsupported("the volume function never returns")
        v = res[0][1]
        f = ex.field
        self.vpc = list(res[0][0].pc)
        return tuple((f(v, i, "value"), f(v, i, "deriv")) for i in (0, 1))


def geom(B):
    P = lambda *a: B.P("ws", *a)
    L, e, r = P("L_conn"), P("eccentricity"), P("r_crank")
    Ap = mul(tm.PI, HALF, HALF, P("D_p"), P("D_p"))
    Ad = mul(tm.PI, HALF, HALF, P("D_d"), P("D_d"))
    return L, e, r, Ap, Ad


def theta(B, t):
    return mul(num(2), tm.PI, B.P("ws", "frequency"), t)


def spec_volumes(B, t):
    """the volumes the configuration describes"""
    P = lambda *a: B.P("ws", *a)
    th = theta(B, t)
    if B.models["ws"] == "Sinusoidal":
        ph = div(mul(P("phase_angle"), tm.PI), num(180))
        vc = add(P("V_clearance_c"), mul(HALF, P("V_swept_c"), add(tm.ONE, tm.fn("cos", th))))
        ve = add(P("V_clearance_e"), mul(HALF, P("V_swept_e"), add(tm.ONE, tm.fn("cos", add(th, ph)))))
        return vc, ve
    L, e, r, Ap, Ad = geom(B)
    b, b1, b2 = rhombic_roots(B, t)
    return (
        add(P("V_clearance_c"), mul(num(2), Ap, sub(b1, b))),
        add(P("V_clearance_e"), mul(Ad, sub(sub(b, b2), mul(r, tm.fn("sin", th))))),
    )


def sq(x):
    return mul(x, x)


def rhombic_roots(B, t):
    L, e, r, Ap, Ad = geom(B)
    b = tm.fn("sqrt", sub(sq(L), sq(add(e, mul(r, tm.fn("cos", theta(B, t)))))))
    b1 = tm.fn("sqrt", sub(sq(L), sq(sub(e, r))))
    b2 = tm.fn("sqrt", sub(sq(sub(L, r)), sq(e)))
    return b, b1, b2


def rhombic_domain(B):
    """the linkage can turn: crank and rods are long enough, offset at least the crank radius is
    not needed for this"""
    L, e, r, Ap, Ad = geom(B)
    return pos(r, e, B.P("ws", "frequency")) + [lt(add(e, r), L)]


RH_HINTS = {"ws.L_conn": lambda u: 2.0 + u, "ws.eccentricity": lambda u: 0.45 + u * 0.4, "ws.r_crank": lambda u: 0.1 + 0.34 * u, "ws.frequency": lambda u: 0.3 + u, "ws.D_*": lambda u: 0.3 + u, "ws.V_*": lambda u: 0.1 + u}


def c09(c):
    for model in MODELS["ws"]:
        B = Build(c, ws=model)
        t = tm.var("t")
        (vc, dc), (ve, de) = B.volumes(t)
        hy = list(B.vpc)
        hints = None
        if model == "Rhombic":
            hy += rhombic_domain(B)
            hints = RH_HINTS
        c.vacuity("%s drive" % model, hy, hints)
        c.ob("%s: rate of the compression volume is its time derivative" % model, tm.eq(dc, diff(vc, t)), hy, hints=hints)
        c.ob("%s: rate of the expansion volume is its time derivative" % model, tm.eq(de, diff(ve, t)), hy, hints=hints)
    c.note("rhombic drive: L_conn > eccentricity + r_crank > 0, so that the square root in the volume is positive")
    c.note("calculus: the derivative rules of sum, product, quotient, square root, sine and cosine")


def c10(c):
    # ---- sinusoidal
    B = Build(c, ws="Sinusoidal")
    P = lambda *a: B.P("ws", *a)
    t, k = tm.var("t"), tm.var("k", "I")
    f = P("frequency")
    (vc, dc), (ve, de) = B.volumes(t)
    dom = list(B.vpc) + pos(f) + [le(tm.ZERO, P(x)) for x in ("V_swept_c", "V_swept_e")]
    c.vacuity("Sinusoidal drive", dom)
    period(c, "Sinusoidal", vc, dc, ve, de, t, k, f, dom, None)
    for nm, v, cl, sw in (("compression", vc, "V_clearance_c", "V_swept_c"), ("expansion", ve, "V_clearance_e", "V_swept_e")):
        lem = trig_products(v, [P(sw)])
        c.ob("Sinusoidal: %s volume is at least the clearance volume" % nm, le(P(cl), v), dom, lemmas=lem)
        c.ob("Sinusoidal: %s volume is at most clearance plus swept volume" % nm, le(v, add(P(cl), P(sw))), dom, lemmas=lem)
    s = lambda v, x: tm.subst(v, {t: x})
    c.ob("Sinusoidal: compression volume is largest at time zero", tm.eq(s(vc, tm.ZERO), add(P("V_clearance_c"), P("V_swept_c"))), dom)
    c.ob("Sinusoidal: compression volume reaches its clearance half a period later", tm.eq(s(vc, div(HALF, f)), P("V_clearance_c")), dom)
    te = div(sub(num(180), P("phase_angle")), mul(num(360), f))
    c.ob("Sinusoidal: expansion volume reaches its clearance", tm.eq(s(ve, te), P("V_clearance_e")), dom)
    lead = add(t, div(P("phase_angle"), mul(num(360), f)))
    c.ob("Sinusoidal: the expansion space leads by the phase angle in degrees", tm.eq(mul(sub(ve, P("V_clearance_e")), P("V_swept_c")), mul(P("V_swept_e"), sub(s(vc, lead), P("V_clearance_c")))), dom)
    # ---- rhombic
    B = Build(c, ws="Rhombic")
    P = lambda *a: B.P("ws", *a)
    f = P("frequency")
    (vc, dc), (ve, de) = B.volumes(t)
    L, e, r, Ap, Ad = geom(B)
    dom = list(B.vpc) + rhombic_domain(B)
    c.vacuity("Rhombic drive", dom, RH_HINTS)
    period(c, "Rhombic", vc, dc, ve, de, t, k, f, dom, RH_HINTS)
    s = lambda v, x: tm.subst(v, {t: x})
    c.ob("Rhombic: compression volume reaches its clearance half a period after time zero", tm.eq(s(vc, div(HALF, f)), P("V_clearance_c")), dom, hints=RH_HINTS)
    # the expansion volume at the angle where crank and rod are in line
    th = theta(B, t)
    b, b1, b2 = rhombic_roots(B, t)
    cs, sn = tm.fn("cos", th), tm.fn("sin", th)
    lr = sub(L, r)
    c0, s0 = div(e, lr), div(b2, lr)
    c.ob("lemma: an angle with cos = e/(L-r) and sin = b2/(L-r) exists", tm.eq(add(sq(c0), sq(s0)), tm.ONE), dom)
    at = trig_at(ve, th, c0, s0)
    at = sqrt_of_squares(at, [mul(L, s0)])
    c.ob("Rhombic: expansion volume reaches its clearance", tm.eq(at, P("V_clearance_e")), dom, hints=RH_HINTS)
    # lower bounds: lemmas over arbitrary reals standing for L, e, r, cos, sin and the square roots
    V = lambda n: tm.var("z" + n)
    L_, e_, r_, c_, s_, b_, p_, q_, m_, w_, y_ = (V(n) for n in ("L", "e", "r", "c", "s", "b", "b1", "b2", "m", "w", "y"))
    inst = {L_: L, e_: e, r_: r, c_: cs, s_: sn, b_: b, p_: b1, q_: b2}
    I = lambda x: tm.subst(x, inst)
    w = add(e_, mul(r_, c_))
    y = sub(b_, mul(r_, s_))
    shape = pos(r_, e_) + [lt(add(e_, r_), L_)]
    circle = tm.eq(add(sq(c_), sq(s_)), tm.ONE)
    cb = [le(c_, tm.ONE), le(neg(tm.ONE), c_)]
    nonneg = [le(tm.ZERO, x) for x in (b_, p_, q_)]
    # the radicands are not negative, hence the squares of the roots are the radicands
    absq = lambda x: le(sq(x), sq(L_))
    l0 = tm.and_(le(w, L_), le(neg(L_), w))
    c.ob("lemma: |e + r c| <= L", l0, shape + cb + [le(tm.ZERO, mul(r_, sub(tm.ONE, c_))), le(tm.ZERO, mul(r_, add(tm.ONE, c_)))])
    c.ob("lemma: r (1 - c) >= 0 and r (1 + c) >= 0", tm.and_(le(tm.ZERO, mul(r_, sub(tm.ONE, c_))), le(tm.ZERO, mul(r_, add(tm.ONE, c_)))), shape + cb)
    c.ob("lemma: |x| <= L gives x^2 <= L^2", absq(w_), [le(w_, L_), le(neg(L_), w_), lt(tm.ZERO, L_)])
    c.ob("lemma: |e - r| <= L", tm.and_(le(sub(e_, r_), L_), le(neg(L_), sub(e_, r_))), shape)
    c.ob("lemma: e^2 <= (L - r)^2", le(sq(e_), sq(m_)), [le(e_, m_), lt(tm.ZERO, e_)])
    dB = tm.eq(sq(b_), sub(sq(L_), sq(w)))
    d1 = tm.eq(sq(p_), sub(sq(L_), sq(sub(e_, r_))))
    d2 = tm.eq(sq(q_), sub(sq(sub(L_, r_)), sq(e_)))
    c.ob("the roots of the volume functions satisfy the lemmas' hypotheses", tm.and_(I(dB), I(d1), I(d2)))
    # compression: 0 <= e - r <= e + r c, hence b <= b1
    off = le(r_, e_)
    c.ob("lemma: e - r <= e + r c", le(sub(e_, r_), w), shape + cb + [le(tm.ZERO, mul(r_, add(tm.ONE, c_)))])
    c.ob("lemma: 0 <= x <= y gives x^2 <= y^2", le(sq(m_), sq(w_)), [le(tm.ZERO, m_), le(m_, w_)])
    c.ob("lemma: b^2 <= b1^2", le(sq(b_), sq(p_)), [dB, d1, le(sq(sub(e_, r_)), sq(w))])
    l3 = le(b_, p_)
    c.ob("lemma: b <= b1", l3, nonneg + [le(sq(b_), sq(p_))])
    geo = dom + [le(r, e)]
    area = lambda A, D: c.ob("lemma: %s is not negative" % D, le(tm.ZERO, A))
    area(Ap, "the piston area")
    area(Ad, "the displacer area")
    c.ob("lemma: products of quantities that are not negative", le(tm.ZERO, mul(m_, w_)), [le(tm.ZERO, m_), le(tm.ZERO, w_)])
    c.ob("Rhombic: compression volume is at least the clearance volume", le(P("V_clearance_c"), vc), geo, lemmas=[I(l3), le(tm.ZERO, Ap)] + product_lemma([Ap], [sub(b1, b)]), hints=RH_HINTS)
    # expansion: with y = b - r s and w = e + r c, the triangle inequality gives e^2 + y^2 >= (L-r)^2
    rad = tm.eq(add(sq(w_), sq(b_)), sq(L_))
    c.ob("lemma: (w c + b s)^2 <= L^2 (Cauchy-Schwarz)", tm.eq(sub(mul(add(sq(w_), sq(b_)), add(sq(c_), sq(s_))), sq(add(mul(w_, c_), mul(b_, s_)))), sq(sub(mul(w_, s_), mul(b_, c_)))))
    c.ob("lemma: x^2 <= L^2 gives x <= L", le(m_, L_), [le(sq(m_), sq(L_)), lt(tm.ZERO, L_)])
    g_ = sub(L_, add(mul(w, c_), mul(b_, s_)))
    c.ob("lemma: r (L - w c - b s) >= 0", le(tm.ZERO, mul(r_, m_)), [lt(tm.ZERO, r_), le(tm.ZERO, m_)])
    z0 = tm.eq(mul(r_, r_, sub(add(sq(c_), sq(s_)), tm.ONE)), tm.ZERO)
    c.ob("lemma: r^2 (c^2 + s^2 - 1) = 0", z0, [circle])
    tri = le(sq(q_), sq(y))
    c.ob("lemma: b2^2 <= (b - r s)^2", tri, [dB, d2, z0, le(tm.ZERO, mul(r_, g_))])
    up = [le(sq(add(e_, r_)), sq(L_)), le(tm.ZERO, mul(e_, r_, sub(tm.ONE, c_)))]
    c.ob("lemma: (e + r)^2 <= L^2", le(sq(m_), sq(L_)), [lt(m_, L_), lt(tm.ZERO, m_)])
    c.ob("lemma: e r (1 - c) >= 0", le(tm.ZERO, mul(e_, r_, m_)), pos(e_, r_) + [le(tm.ZERO, m_)])
    c.ob("lemma: (r s)^2 <= b^2", le(sq(mul(r_, s_)), sq(b_)), [dB, z0] + up)
    c.ob("lemma: x^2 <= b^2 gives x <= b", le(m_, b_), [le(tm.ZERO, b_), le(sq(m_), sq(b_))])
    fin = le(q_, y)
    c.ob("lemma: b2 <= b - r s", le(q_, y_), [le(tm.ZERO, y_), le(tm.ZERO, q_), le(sq(q_), sq(y_))])
    c.ob("Rhombic: expansion volume is at least the clearance volume", le(P("V_clearance_e"), ve), dom, lemmas=[I(fin), le(tm.ZERO, Ad)] + product_lemma([Ad], [I(sub(y, q_))]), hints=RH_HINTS)
    c.note("sinusoidal drive: positive frequency and swept volumes that are not negative")
    c.note("rhombic drive: L_conn > eccentricity + r_crank; the compression bound also needs eccentricity >= r_crank")


def product_lemma(a, b):
    """x >= 0 and y >= 0 give x y >= 0; each x is pi/4 D^2, which is not negative"""
    return [tm.implies(le(tm.ZERO, y), le(tm.ZERO, mul(x, y))) for x in a for y in b]


def trig_products(v, scales):
    out = []
    for s in tm.subterms(v):
        if s.op in ("cos", "sin"):
            s = tm.canon(s)
            for q in scales:
                for sg in (1, -1):
                    out.append(tm.implies(le(tm.ZERO, q), le(tm.ZERO, mul(q, add(tm.ONE, mul(num(sg), s))))))
    return out


def trig_at(v, th, c0, s0):
    """v at an angle whose cosine and sine are given"""
    m = {}
    for s in tm.subterms(v):
        if s.op in ("cos", "sin") and tm.ring_equal(s.args[0], th)[0]:
            m[s] = c0 if s.op == "cos" else s0
    return tm.subst(v, m)


def period(c, nm, vc, dc, ve, de, t, k, f, dom, hints):
    t1 = add(t, div(tm.i2r(k), f))
    for what, v in (("compression volume", vc), ("compression rate", dc), ("expansion volume", ve), ("expansion rate", de)):
        c.ob("%s: %s repeats after any number of periods" % (nm, what), tm.eq(tm.subst(v, {t: t1}), v), dom, hints=hints)


# ---- gases -------------------------------------------------------------------------
GASES = {"helium": ("4.002602", 1), "hydrogen": ("2.01588", 1)}


class Gas:
    def __init__(self, c, name):
        self.c = c
        ex = self.ex = c.exec()
        b = c.body(["IdealGas::" + name])
        self.st, self.g = c.run(ex, b, [])
        self.Tm, self.Pr = tm.var("T"), tm.var("P")

    def __call__(self, method, *args):
        c, ex = self.c, self.ex
        f = {"path": "fluid::Fluid::" + method, "trait": "fluid::Fluid", "method": method, "kind": "virtual", "crate": "sett_rs", "id": None}
        a = args or (self.Tm, self.Pr)
        res = ex.call(f, [VRef(self.g)] + list(a), self.st.fork(), "f64")
        c.done(ex)
        if not res:
            raise Unsupported("%s never returns" % method)
        self.pc = list(res[0][0].pc)
        return res[0][1]


def poly_coefs(t, x):
    """coefficients of a polynomial with rational coefficients, or None"""
    p = tm.norm(t)
    out = {}
    for m, q in p.d.items():
        if not m:
            out[0] = q
        elif len(m) == 1 and m[0][0] is x and m[0][1] > 0:
            out[m[0][1]] = q
        else:
            return None
    return out


def recorded_enthalpy(G):
    """the enthalpy function of known finding KF1: the sum of a_i / (i+1) (T - T_ref) T^i for the
    heat capacity polynomial sum of a_i T^i"""
    co = poly_coefs(G("cp"), G.Tm)
    if co is None:
        return None
    # the coefficients are machine numbers: a_i / (i+1) is computed in machine arithmetic, exact here
    return add(*[mul(num(q / (i + 1)), sub(G.Tm, num(250)), *([G.Tm] * i)) for i, q in sorted(co.items())])


def c11(c):
    for g, (M, _) in GASES.items():
        G = Gas(c, g)
        T_, P_ = G.Tm, G.Pr
        dens, inte = G("dens"), G("inte")
        hy = pos(T_, P_) + G.pc
        c.vacuity(g, hy)
        R = div(P_, mul(dens, T_))
        r = tm.norm(R).const()
        lo, hi = Fraction("8314.4626") / Fraction(M) * Fraction("0.995"), Fraction("8314.4626") / Fraction(M) * Fraction("1.005")
        if r is not None:
            c.ob("%s: density is p / (R T) with the gas's own R" % g, tm.boolc(lo < r < hi), hy)
        else:
            c.ob("%s: density is p / (R T) with the gas's own R" % g, tm.and_(lt(num(lo), R), lt(R, num(hi)), tm.eq(mul(diff(R, T_), T_), tm.ZERO), tm.eq(diff(R, P_), tm.ZERO)), hy)
        c.ob("%s: dd_dP_T is the pressure derivative of density" % g, tm.eq(G("dd_dP_T"), diff(dens, P_)), hy)
        c.ob("%s: dd_dT_P is the temperature derivative of density" % g, tm.eq(G("dd_dT_P"), diff(dens, T_)), hy)
        c.ob("%s: du_dP_T is the pressure derivative of internal energy" % g, tm.eq(G("du_dP_T"), diff(inte, P_)), hy)
        goal = tm.eq(G("du_dT_P"), diff(inte, T_))
        nm = "%s: du_dT_P is the temperature derivative of internal energy" % g
        fail = lambda: known_energy(c, G, g, r)
        c.ob_or_finding(nm, goal, hy, fail)
    c.note("calculus: the derivative rules of sum, product and quotient")


def known_energy(c, G, g, r):
    """the discrepancy recorded as KF1, and nothing else"""
    rec = recorded_enthalpy(G)
    if g != "hydrogen" or rec is None or r is None:
        return None
    u = sub(rec, mul(num(r), sub(G.Tm, num(250))))
    want = sub(add(sub(G("cp"), diff(rec, G.Tm))), tm.ZERO)
    if tm.ring_equal(sub(G("du_dT_P"), diff(G("inte"), G.Tm)), want)[0] and near_equal(c, G("inte"), u):
        return ("KF1", "hydrogen: du_dT_P is cp - R while internal energy is sum a_i/(i+1) (T-250) T^i - R (T-250)")
    return None


def near_equal(c, a, b):
    return tm.ring_equal(a, b)[0] or coef_close(a, b)


def coef_close(a, b):
    """equal up to rounding of the coefficients"""
    p, q = tm.norm(a), tm.norm(b)
    if set(p.d) - set(q.d) or set(q.d) - set(p.d):
        pass
    for m in set(p.d) | set(q.d):
        x, y = p.d.get(m, Fraction(0)), q.d.get(m, Fraction(0))
        if abs(x - y) > Fraction(1, 10**13) * max(abs(x), abs(y)):
            return False
    return True


def c12(c):
    for g in GASES:
        G = Gas(c, g)
        T_, P_ = G.Tm, G.Pr
        h, u, cp = G("enth"), G("inte"), G("cp")
        hy = pos(T_, P_) + G.pc
        c.vacuity(g, hy)
        r = tm.norm(div(P_, mul(G("dens"), T_))).const()

        def kf1():
            rec = recorded_enthalpy(G)
            if g == "hydrogen" and rec is not None and near_equal(c, h, rec):
                return ("KF1", "hydrogen: enthalpy is sum a_i/(i+1) (T-250) T^i, whose temperature derivative is not cp")
            return None

        def kf2():
            if r is not None and tm.ring_equal(sub(h, u), mul(num(r), sub(T_, num(250))))[0]:
                return ("KF2", "%s: enthalpy - internal energy = R (T - 250) instead of p/rho = R T" % g)
            return None

        c.ob_or_finding("%s: cp is the temperature derivative of enthalpy" % g, tm.eq(cp, diff(h, T_)), hy, kf1)
        ref = {T_: num(250)}
        c.ob("%s: enthalpy vanishes at the reference temperature" % g, tm.eq(tm.subst(h, ref), tm.ZERO), hy[1:])
        c.ob("%s: enthalpy depends on temperature only" % g, tm.eq(diff(h, P_), tm.ZERO), hy)
        u0, pv = tm.subst(u, ref), div(P_, tm.subst(G("dens"), ref))
        c.ob("%s: internal energy vanishes at the reference temperature or is minus p/rho there" % g, tm.or_(tm.eq(u0, tm.ZERO), tm.eq(u0, neg(pv))), hy[1:])
        c.ob_or_finding("%s: enthalpy is internal energy plus p/rho" % g, tm.eq(h, add(u, div(P_, G("dens")))), hy, kf2)
    c.note("calculus: the derivative rules of sum, product and quotient")


# ---- components --------------------------------------------------------------------
def hx_state(B, k):
    f = B.ex.field
    s = B.states[k]
    return {x: f(s, "hxr", x) for x in ("temp", "pres", "dens", "cp", "m_dot", "Q_dot")}


def law(B, k):
    """the approach the configuration asks for"""
    f = B.ex.field
    if B.models[k] == "FixedApproach":
        return B.P(k, "DT")
    h = hx_state(B, k)
    cap = mul(h["cp"], h["m_dot"])
    ntu = div(B.P(k, "UA"), cap)
    if k == "regen":
        eff = div(ntu, add(num(2), ntu))
        return mul(sub(tm.ONE, eff), sub(f(B.states[k], "temp_hhx"), f(B.states[k], "temp_chx")))
    eff = sub(tm.ONE, tm.fn("exp", neg(ntu)))
    return mul(div(h["Q_dot"], cap), sub(div(tm.ONE, eff), tm.ONE))


def hx_dom(B, k):
    """positive conductance, capacity rate"""
    if B.models[k] == "FixedApproach":
        return []
    h = hx_state(B, k)
    return pos(B.P(k, "UA"), h["cp"], h["m_dot"])


def c13(c):
    zero = tm.ZERO
    for ws in MODELS["ws"]:
        for hx in MODELS["chx"]:
            for rg in MODELS["regen"]:
                for hh in MODELS["hhx"]:
                    combo(c, ws, hx, rg, hh)
    c.note("rhombic drive: L_conn > eccentricity + r_crank > 0")
    c.note("approach laws for positive conductance, heat capacity and mass flow")


def combo(c, ws, hx, rg, hh):
    B = Build(c, ws=ws, chx=hx, regen=rg, hhx=hh)
    f = B.ex.field
    tag = "%s/%s/%s/%s: " % (ws, hx, rg, hh)
    for k in ("chx", "regen", "hhx"):
        E = lambda nm, a, b, hy=(), **kw: c.ob(tag + "%s %s" % (k, nm), tm.eq(a, b), list(hy), **kw)
        E("volume is the configured volume", B.m(k, "volume"), B.P(k, "vol"))
        E("hydraulic resistance is the configured one", B.m(k, "hydraulic_resistance"), B.P(k, "R_hyd"))
        p = B.m(k, "parasitics")
        has = c.p.fields(B.cfg[k].ty)
        E("mechanical parasitic power is the configured one", f(p, "mechanical"), B.P(k, "W_parasitic") if "W_parasitic" in has else tm.ZERO)
        E("thermal parasitic power is the configured one", f(p, "thermal"), B.P(k, "Q_parasitic") if "Q_parasitic" in has else tm.ZERO)
        E("electrical parasitic power is zero", f(p, "electrical"), tm.ZERO)
        E("approach is the configured one or follows the configured conductance", B.m(k, "approach"), law(B, k), hx_dom(B, k))
        if B.models[k] == "FixedApproach":
            E("initial approach is the configured one", B.m(k, "initial_approach"), B.P(k, "DT"))
    P = lambda *a: B.P("ws", *a)
    E = lambda nm, a, b, hy=(), **kw: c.ob(tag + "ws %s" % nm, tm.eq(a, b), list(hy), **kw)
    E("frequency is the configured one", B.m("ws", "frequency"), P("frequency"))
    R = B.m("ws", "thermal_resistance")
    E("thermal resistance of the compression space", f(R, "comp"), P("R_c"))
    E("thermal resistance of the expansion space", f(R, "exp"), P("R_e"))
    p = B.m("ws", "parasitics")
    for a, b, v in (("comp", "mechanical", P("W_parasitic_c")), ("comp", "thermal", tm.ZERO), ("comp", "electrical", tm.ZERO), ("exp", "mechanical", P("W_parasitic_e")), ("exp", "thermal", P("Q_parasitic_e")), ("exp", "electrical", tm.ZERO)):
        E("%s parasitic power of the %s space" % (b, a), f(p, a, b), v)
    t = tm.var("t")
    (vc, dc), (ve, de) = B.volumes(t)
    sc, se = spec_volumes(B, t)
    dom = rhombic_domain(B) if ws == "Rhombic" else []
    hints = RH_HINTS if ws == "Rhombic" else None
    E("compression volume follows the configured geometry", vc, sc, dom, hints=hints)
    E("expansion volume follows the configured geometry", ve, se, dom, hints=hints)


def c19(c):
    f0 = None
    for k in ("chx", "hhx"):
        B = Build(c, **{k: "FixedConductance"})
        h = hx_state(B, k)
        a = B.m(k, "approach")
        dom = hx_dom(B, k)
        c.vacuity("%s FixedConductance" % k, dom)
        c.ob("%s: approach is Q/C (1/effectiveness - 1), effectiveness 1 - exp(-NTU)" % k, tm.eq(a, law(B, k)), dom)
        # sign and bound, for any value of exp satisfying 0 < E < 1 and 1/E >= 1 + NTU
        cap, Q, UA = mul(h["cp"], h["m_dot"]), h["Q_dot"], B.P(k, "UA")
        C_, E_, N_, Q_, A_ = (tm.var("z" + x) for x in "CENQA")
        ax = pos(C_, E_, N_) + [lt(E_, tm.ONE), le(mul(E_, add(tm.ONE, N_)), tm.ONE)]
        A = div(mul(Q_, E_), mul(C_, sub(tm.ONE, E_)))
        ztm = tm.subst(A, {})
        # the law in terms of E is this fraction
        inst = {C_: cap, Q_: Q, E_: tm.fn("exp", neg(div(UA, cap)))}
        c.ob("%s: the approach is Q E / (C (1 - E)) with E = exp(-NTU)" % k, tm.eq(a, tm.subst(A, inst)), dom)
        W = tm.var("zW")  # W = E / (C (1 - E))
        dW = tm.eq(mul(W, C_, sub(tm.ONE, E_)), E_)
        c.ob("%s: lemma: E / (C (1 - E)) is positive" % k, lt(tm.ZERO, W), ax + [dW])
        c.ob("%s: the approach has the sign of the heat flow" % k, tm.and_(tm.implies(lt(tm.ZERO, Q_), lt(tm.ZERO, mul(Q_, W))), tm.implies(lt(Q_, tm.ZERO), lt(mul(Q_, W), tm.ZERO)), tm.implies(tm.eq(Q_, tm.ZERO), tm.eq(mul(Q_, W), tm.ZERO))), [lt(tm.ZERO, W)])
        # |approach| UA <= |Q|: with N = UA / C, W UA = N E / (1 - E) <= 1
        y = tm.var("zy")
        c.ob("%s: the approach vanishes as conductance grows: |approach| <= |Q| / UA" % k, le(y, tm.ONE), ax + [tm.eq(mul(y, sub(tm.ONE, E_)), mul(N_, E_))])
    B = Build(c, regen="FixedConductance")
    h = hx_state(B, "regen")
    f = B.ex.field
    a = B.m("regen", "approach")
    dom = hx_dom(B, "regen")
    th, tc = f(B.states["regen"], "temp_hhx"), f(B.states["regen"], "temp_chx")
    c.vacuity("regen FixedConductance", dom + [lt(tc, th)])
    c.ob("regen: approach is the temperature difference times 1 - NTU/(2 + NTU)", tm.eq(a, law(B, "regen")), dom)
    cap, UA = mul(h["cp"], h["m_dot"]), B.P("regen", "UA")
    # approach = 2 C D / (2 C + UA)
    D_, C_, U_, A_ = (tm.var("z" + x) for x in "DCUA")
    c.ob("regen: the approach is 2 C dT / (2 C + UA)", tm.eq(a, div(mul(num(2), cap, sub(th, tc)), add(mul(num(2), cap), UA))), dom)
    c.ob("regen: the approach lies strictly between zero and the temperature difference", tm.and_(lt(tm.ZERO, A_), lt(A_, D_)), pos(D_, C_, U_) + [tm.eq(mul(A_, add(mul(num(2), C_), U_)), mul(num(2), C_, D_))])
    for k in ("chx", "regen", "hhx"):
        B = Build(c, **{k: "FixedApproach"})
        c.ob("%s: a fixed-approach component gives its approach for every state" % k, tm.eq(B.m(k, "approach"), B.P(k, "DT")))
        c.ob("%s: a fixed-approach component gives its approach initially" % k, tm.eq(B.m(k, "initial_approach"), B.P(k, "DT")))
    c.note("exp: 0 < exp(-N) < 1 and exp(N) >= 1 + N for N > 0")
    c.note("conductance, heat capacity and mass flow are positive")


# ---- configurations ------------------------------------------------------------------
HX_MODELS = {"ws": None, "chx": None, "regen": None, "hhx": None}


def c14(c):
    p = c.p
    b = c.body(["<config::Config as std::convert::From<config::Legacy>>::from"], ["config::Legacy"], "config::Config")
    lty, cty = b["locals"][1], b["locals"][0]
    fty = {f["name"]: f["ty"] for f in p.ty(lty)["variants"][0]["fields"]}

    def run(over):
        ex = c.exec()
        leg = ex.sym(lty, "legacy")
        fs = p.fields(lty)
        vals = list(leg.fields)
        for k, v in over.items():
            vals[fs.index(k)] = v(ex)
        leg = Tup(lty, vals)
        st, r = c.run(ex, b, [leg], St({}, ()))
        return ex, leg, st, r

    # component models and their parameters
    for k in ("ws", "chx", "regen", "hhx"):
        for v in p.variants(fty[k]):
            i = p.variant_index(fty[k], v)
            pty = p.ty(fty[k])["variants"][i]["fields"][0]["ty"]
            hold = {}

            def mk_(ex, k=k, v=v, pty=pty, hold=hold):
                hold["p"] = ex.sym(pty, "params")
                return ex.enum(fty[k], v, hold["p"])

            ex, leg, st, r = run({k: mk_})
            out = ex.field(r, "engine", "components", k)
            if not isinstance(out, EnumV):
                raise Unsupported("component configuration")
            j = p.variant_index(out.ty, v)
            c.ob("legacy %s %s: the same model" % (k, v), tm.eq(out.disc, intc(j)), list(st.pc))
            if j in out.vs:
                c.eq("legacy %s %s: the same parameters" % (k, v), out.vs[j][0], hold["p"], list(st.pc))
            else:
                c.ob("legacy %s %s: the same parameters" % (k, v), FALSE, list(st.pc))
    # fluid
    for model, mv in (("IdealGas", "IdealGas"), ("RealGasRefprop", "RefProp")):
        i = p.variant_index(fty["fluid"], model)
        pty = p.ty(fty["fluid"])["variants"][i]["fields"][0]["ty"]
        nty = {f["name"]: f["ty"] for f in p.ty(pty)["variants"][0]["fields"]}["name"]
        for gas in p.variants(nty):
            ex, leg, st, r = run({"fluid": lambda ex: ex.enum(fty["fluid"], model, Tup(pty, [ex.enum(nty, gas) if n == "name" else ex.sym(t, "x") for n, t in [(f["name"], f["ty"]) for f in p.ty(pty)["variants"][0]["fields"]]]))})
            out = ex.field(r, "engine", "fluid")
            j = p.variant_index(out.ty, gas)
            goal = tm.eq(out.disc, intc(j))
            c.ob("legacy fluid %s %s: the same gas" % (model, gas), goal, list(st.pc))
            if j in out.vs:
                m = out.vs[j][0]
                c.ob("legacy fluid %s %s: the same model" % (model, gas), tm.eq(m.disc, intc(p.variant_index(m.ty, mv))), list(st.pc))
            else:
                c.ob("legacy fluid %s %s: the same model" % (model, gas), FALSE, list(st.pc))
    ex, leg, st, r = run({"fluid": lambda ex: ex.enum(fty["fluid"], "Hydrogen")})
    out = ex.field(r, "engine", "fluid")
    j = p.variant_index(out.ty, "Hydrogen")
    c.ob("legacy fluid Hydrogen: the same gas", tm.eq(out.disc, intc(j)), list(st.pc))
    if j in out.vs:
        m = out.vs[j][0]
        c.ob("legacy fluid Hydrogen: the custom model", tm.eq(m.disc, intc(p.variant_index(m.ty, "Custom"))), list(st.pc))
    # settings and conditions
    ex, leg, st, r = run({})
    f = ex.field
    hy = list(st.pc)
    S, L = lambda *a: f(r, "solver", *a), lambda *a: f(leg, "solver", *a)
    for new, old in (("inner_loop", "inner_loop_tolerance"), ("outer_loop", "outer_loop_tolerance"), ("ode", "ode_tolerance")):
        for x in ("abs", "rel"):
            c.ob("legacy %s.%s becomes %s.tolerance.%s" % (old, x, new, x), tm.eq(S(new, "tolerance", x), L(old, x)), hy)
    for x in ("inner_loop", "outer_loop"):
        c.ob("legacy: 20 iterations for %s" % x, tm.eq(S(x, "max_iterations"), intc(20)), hy)
    c.ob("legacy time resolution becomes the number of time steps", tm.eq(S("ode", "num_timesteps"), L("time_resolution")), hy)
    for new, old in (("temp_sink", "T_cold"), ("temp_source", "T_hot"), ("pres_zero", "P_0")):
        c.ob("legacy %s becomes %s" % (old, new), tm.eq(f(r, "conditions", new), f(leg, "conditions", old)), hy)
    # run settings and inputs
    b2 = c.body(["<types::RunSettings as std::convert::From<types::SolverConfig>>::from"], ["types::SolverConfig"], "types::RunSettings")
    ex = c.exec()
    cfg = ex.sym(b2["locals"][1], "solver")
    u32 = [tm.le(intc(0), ex.field(cfg, *x)) for x in (("ode", "num_timesteps"), ("inner_loop", "max_iterations"), ("outer_loop", "max_iterations"))]
    st, rs = c.run(ex, b2, [cfg], St({}, ()).assume(*u32))
    f = ex.field
    hy = list(st.pc)
    c.vacuity("unsigned counts", u32)
    c.ob("settings: resolution is the number of time steps", tm.eq(f(rs, "resolution"), f(cfg, "ode", "num_timesteps")), hy)
    for x in ("abs", "rel"):
        c.ob("settings: inner loop tolerance %s" % x, tm.eq(f(rs, "loop_tol", "inner", x), f(cfg, "inner_loop", "tolerance", x)), hy)
        c.ob("settings: outer loop tolerance %s" % x, tm.eq(f(rs, "loop_tol", "outer", x), f(cfg, "outer_loop", "tolerance", x)), hy)
        c.ob("settings: integrator tolerance %s" % x, tm.eq(f(rs, "ode_tol", x), f(cfg, "ode", "tolerance", x)), hy)
    for x in ("inner", "outer"):
        c.ob("settings: %s loop iterations" % x, tm.eq(f(rs, "max_iters", x), f(cfg, x + "_loop", "max_iterations")), hy)
    b3 = c.body(["<types::RunInputs as std::convert::From<types::ConditionsConfig>>::from"], ["types::ConditionsConfig"], "types::RunInputs")
    ex = c.exec()
    cfg = ex.sym(b3["locals"][1], "conditions")
    st, ri = c.run(ex, b3, [cfg])
    for x in ("temp_sink", "temp_source", "pres_zero"):
        c.ob("inputs: %s" % x, tm.eq(ex.field(ri, x), ex.field(cfg, x)), list(st.pc))
    # the fluid of a run
    for gas, ctor in (("Hydrogen", "hydrogen"), ("Helium", "helium")):
        run_fluid(c, gas, ctor)
    c.note("deserialisation itself is generated by serde and is checked by the bounded replay only")


def run_fluid(c, gas, ctor):
    p = c.p
    for bn in ("run_engine", "run_from_config"):
        try:
            b = c.body(["api::run_engine"] if bn == "run_engine" else ["run_from_config"])
        except Lost:
            if bn == "run_engine":
                raise
            continue
        ex = c.exec()
        G = Gas(c, ctor)
        calls = []

        def rec(ex, st, args, f, dty):
            calls.append([ex.strip(st, a) for a in args] + [st.pc])
            t = p.ty(dty)
            if t is None or not t["path"].endswith("Result"):
                return None
            ok = tm.var("run.ok", "B")
            return [(st, result(ex, dty, ok, ex.sym(t["args"][0], "engine")))]

        def opq(ex, st, args, f, dty):
            return [(st, OpaqueV("results", tm.var("results", "O")))]

        found = False
        for x in p.d["bodies"]:
            if x["closure"] or x["external"]:
                continue
            if x["path"].endswith("::run") and x["path"].startswith("engine::Engine"):
                ex.contracts[x["path"]] = rec
                found = True
            if "api::RunResults as std::convert::From" in x["path"]:
                ex.contracts[x["path"]] = opq
        if not found:
            raise Lost("Engine::run")
        cty = "config::Config"
        if b["locals"][1] != cty:
            # generic in `impl Into<Config>`: the conversion is the caller's
            ex.contracts["std::convert::Into::into"] = lambda ex, st, args, f, dty: [(st, args[0])] if f.get("kind") == "unresolved" else None
        cfg = ex.sym(cty, "config")
        ecfg = ex.field(cfg, "engine")
        fl = ex.field(ecfg, "fluid")
        mty = p.ty(fl.ty)["variants"][0]["fields"][0]["ty"]
        newf = ex.enum(fl.ty, gas, ex.enum(mty, "IdealGas"))
        fs = p.fields(ecfg.ty)
        ev = list(ecfg.fields)
        ev[fs.index("fluid")] = newf
        ecfg2 = Tup(ecfg.ty, ev)
        # one implemented component set, so that building the components returns
        comps = ex.field(ecfg, "components")
        kw = {}
        for k in TRAITS:
            o = ex.field(comps, k)
            i = p.variant_index(o.ty, MODELS[k][0])
            kw[k] = EnumV(o.ty, intc(i), {i: o.vs[i]})
        ev[fs.index("components")] = ex.struct(comps.ty, **kw)
        ecfg2 = Tup(ecfg.ty, ev)
        cs = p.fields(cty)
        cv = list(cfg.fields)
        cv[cs.index("engine")] = ecfg2
        cfg = Tup(cty, cv)
        st, r = c.run(ex, b, [cfg])
        if len(calls) != 1:
            raise Unsupported("%s calls the engine %d times" % (bn, len(calls)))
        args = calls[0][:-1]
        hy = list(calls[0][-1])
        flu = [a for a in args if isinstance(a, Tup) and a.ty == G.g.ty]
        inp = [a for a in args if isinstance(a, Tup) and a.ty.endswith("RunInputs")]
        stg = [a for a in args if isinstance(a, Tup) and a.ty.endswith("RunSettings")]
        if not flu or not inp or not stg:
            raise Unsupported("arguments of the engine run")
        c.eq("%s: a %s configuration runs with %s" % (bn, gas, ctor), flu[0], G.g, hy)
        f = ex.field
        for x in ("temp_sink", "temp_source", "pres_zero"):
            c.ob("%s (%s): %s of the run is the configured one" % (bn, gas, x), tm.eq(f(inp[0], x), f(cfg, "conditions", x)), hy)
        s = lambda *a: f(cfg, "solver", *a)
        for x in ("abs", "rel"):
            c.ob("%s (%s): inner tolerance %s" % (bn, gas, x), tm.eq(f(stg[0], "loop_tol", "inner", x), s("inner_loop", "tolerance", x)), hy)
            c.ob("%s (%s): outer tolerance %s" % (bn, gas, x), tm.eq(f(stg[0], "loop_tol", "outer", x), s("outer_loop", "tolerance", x)), hy)
            c.ob("%s (%s): integrator tolerance %s" % (bn, gas, x), tm.eq(f(stg[0], "ode_tol", x), s("ode", "tolerance", x)), hy)
        c.ob("%s (%s): resolution" % (bn, gas), tm.eq(f(stg[0], "resolution"), s("ode", "num_timesteps")), hy)
        for x in ("inner", "outer"):
            c.ob("%s (%s): %s iterations" % (bn, gas, x), tm.eq(f(stg[0], "max_iters", x), s(x + "_loop", "max_iterations")), hy)


# ---- convergence test -------------------------------------------------------------------
def c20(c):
    import math, time
    from . import fp
    from .exec import FpDom

    b = c.body(["types::ConvergenceTolerance::is_converged", "ConvergenceTolerance::is_converged"], ["types::ConvergenceTolerance", "f64", "f64"], "bool")
    ex = c.exec(FpDom())
    tol = ex.sym(b["locals"][1], "tol")
    old, new = tm.var("old"), tm.var("new")
    st, r = c.run(ex, b, [tol, old, new])
    if not isinstance(r, T) or r.sort != "B":
        raise Unsupported("result of the convergence test")
    A, R = ex.field(tol, "abs"), ex.field(tol, "rel")

    def proof(goal):
        """goal(z3 builder) proved for all machine numbers"""
        fz = fp.FpProof([A, R, old, new])
        z3 = fz.z3
        acc = fz.b(r)
        for p in st.pc:
            fz.side.append(fz.b(p))
        g = goal(fz, z3, acc, fz.vars[A], fz.vars[R], fz.vars[old], fz.vars[new])
        fz.monotone()
        s = z3.Solver()
        s.set("timeout", 60000)
        s.set("random_seed", 1)
        s.add(*fz.side)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    F, q = fp.FIN, lambda fz, x: fz.q(Fraction(x))
    ab = lambda z3, x: z3.If(x >= 0, x, -x)
    slack, tiny = 1 + Fraction(1, 2**50), Fraction(1, 2**1074)
    fin = lambda *xs: all(math.isfinite(x) for x in xs)
    Fr = Fraction
    goals = [
        ("accepted values are finite", lambda fz, z3, acc, a, rl, o, w: z3.Implies(acc, z3.And(o[0] == F, w[0] == F)), lambda acc, a, rl, o, w: (not acc) or fin(o, w)),
        ("tolerances that are not positive or NaN accept nothing", lambda fz, z3, acc, a, rl, o, w: z3.Implies(acc, z3.And(fz.lt(fz.zero, a), fz.lt(fz.zero, rl))), lambda acc, a, rl, o, w: (not acc) or (a > 0 and rl > 0)),
        ("an accepted change is strictly below the absolute tolerance", lambda fz, z3, acc, a, rl, o, w: z3.Implies(z3.And(acc, a[0] == F), ab(z3, w[1] - o[1]) < a[1]), lambda acc, a, rl, o, w: (not acc) or not fin(a, o, w) or abs(Fr(w) - Fr(o)) < Fr(a)),
        (
            "an accepted change is strictly below the relative tolerance times the old magnitude (up to rounding)",
            lambda fz, z3, acc, a, rl, o, w: z3.Implies(z3.And(acc, rl[0] == F), ab(z3, w[1] - o[1]) < q(fz, slack) * rl[1] * ab(z3, o[1]) + q(fz, tiny)),
            lambda acc, a, rl, o, w: (not acc) or not fin(rl, o, w) or abs(Fr(w) - Fr(o)) < slack * Fr(rl) * abs(Fr(o)) + tiny,
        ),
        (
            "a zero or infinite old value is never accepted under a finite relative tolerance",
            lambda fz, z3, acc, a, rl, o, w: z3.Implies(z3.And(acc, rl[0] == F), z3.And(o[0] == F, o[1] != 0)),
            lambda acc, a, rl, o, w: (not acc) or not fin(rl) or (fin(o) and o != 0),
        ),
        (
            "a change clearly below both tolerances is accepted",
            lambda fz, z3, acc, a, rl, o, w: z3.Implies(
                z3.And(o[0] == F, w[0] == F, a[0] == F, rl[0] == F, o[1] != 0, 2 * ab(z3, w[1] - o[1]) <= a[1], 2 * ab(z3, w[1] - o[1]) <= rl[1] * ab(z3, o[1]), a[1] > 0, rl[1] >= q(fz, Fraction(1, 2**1000)), ab(z3, o[1]) >= q(fz, Fraction(1, 2**20)), ab(z3, o[1]) <= q(fz, 2**1000), rl[1] <= q(fz, 2**20)),
                acc,
            ),
            lambda acc, a, rl, o, w: acc or not fin(o, w, a, rl) or o == 0 or not (2 * abs(Fr(w) - Fr(o)) <= Fr(a) and 2 * abs(Fr(w) - Fr(o)) <= Fr(rl) * abs(Fr(o)) and a > 0 and 2.0**-1000 <= rl <= 2.0**20 and 2.0**-20 <= abs(o) <= 2.0**1000),
        ),
    ]
    smp = None
    for nm, g, chk in goals:
        t0 = time.time()
        try:
            ok = proof(g)
        except Unsupported:
            ok = False
        if ok:
            c.obs.append(Ob(nm, "proved", "z3 over the IEEE-754 relaxation", "", time.time() - t0))
            continue
        bad = None
        try:
            if smp is None:
                smp = [(x, fp.nat(r, {A.args[0]: x[0], R.args[0]: x[1], "old": x[2], "new": x[3]})) for x in fp.samples(c.seed, 20000)]
            for x, acc in smp:
                if not chk(acc, *x):
                    bad = x
                    break
        except Unsupported:
            pass
        if bad is not None:
            c.obs.append(Ob(nm, "refuted", "native doubles", {"model": dict(zip(("abs", "rel", "old", "new"), map(repr, bad)))}, time.time() - t0))
        else:
            c.obs.append(Ob(nm, "unknown", "-", {"goal": tm.show(r)[:2000]}, time.time() - t0))
    c.note("IEEE-754 binary64 with round to nearest, as Rust specifies for f64")
