"""C15 - C18: what is derived from a finished run (RunResults::from, From<Vec<Values>>)."""
from . import term as tm
from .term import T, TRUE, FALSE, intc, num, add, sub, mul, div
from .spec import *

HALF = num("1/2")


class Results:
    """RunResults::from(engine) for an arbitrary engine whose series all have the same length"""

    def __init__(self, c, comp_inf=False, exp_inf=False, panics=False):
        self.c = c
        ex = self.ex = c.exec()
        if panics:
            ex.panics = []
        b = c.body(["<api::RunResults as std::convert::From<engine::Engine<T>>>::from"], ["engine::Engine<"], "RunResults")
        st = St({}, ())
        e = ex.sym(b["locals"][1], "engine")
        n = self.n = add(intc(2), tm.var("extra", "I"))
        hy = [tm.le(intc(0), tm.var("extra", "I"))]
        e = with_len(e, n)
        self.e = e
        f = ex.field
        self.state = f(e, "state")
        self.vals = f(e, "values")
        comps = f(e, "components")
        self.comps = {k: f(comps, k) for k in ("ws", "chx", "regen", "hhx")}
        self.st = st
        self.hyps = hy
        st.assume(*hy)
        # states shown to components
        pres = f(self.state, "pres")
        self.ws_state = ex.struct("ws::State", pres=pres)
        self.hx_states()
        R = self.m("ws", "thermal_resistance", "ws::ThermalResistance")
        self.Rc, self.Re = f(R, "comp"), f(R, "exp")
        st, r = c.run(ex, b, [e], st)
        m = {}
        if comp_inf:
            m[self.Rc] = tm.INF
        else:
            self.hyps.append(tm.not_(tm.eq(self.Rc, tm.ZERO)))
        if exp_inf:
            m[self.Re] = tm.INF
        else:
            self.hyps.append(tm.not_(tm.eq(self.Re, tm.ZERO)))
        self.inf = m
        self.r = r
        self.pc = [x for x in st.pc if x not in self.hyps]

    def S(self, t):
        """specialise to the infinite-resistance case under consideration"""
        return tm.subst(t, self.inf) if self.inf else t

    def m(self, comp, name, ty):
        tr = {"ws": "ws::WorkingSpaces", "chx": "chx::ColdHeatExchanger", "regen": "regen::Regenerator", "hhx": "hhx::HotHeatExchanger"}[comp]
        if name in ("volume", "initial_approach"):
            a = []
        else:
            a = [self.ws_state if comp == "ws" else self.hx[comp]]
        return method(self.ex, self.st, tr, name, self.comps[comp], a, ty)

    def fluid(self, name, temp, pres):
        f = self.ex.field
        return method(self.ex, self.st, "fluid::Fluid", name, f(self.state, "fluid"), [temp, pres], "f64")

    def hx_states(self):
        ex, f = self.ex, self.ex.field
        s = self.state
        pa = f(s, "pres", "avg")

        def hx(temp, k):
            return ex.struct(
                "types::HeatExchanger",
                temp=temp,
                pres=pa,
                dens=self.fluid("dens", temp, pa),
                cp=self.fluid("cp", temp, pa),
                m_dot=f(s, "mass_flow", k),
                Q_dot=f(s, "heat_flow", k),
            )

        t = lambda *a: f(s, "temp", *a)
        self.hx = {
            "chx": ex.struct("chx::State", hxr=hx(t("chx"), "chx"), sink_temp=t("sink")),
            "regen": ex.struct("regen::State", hxr=hx(t("regen", "avg"), "regen"), temp_chx=t("chx"), temp_hhx=t("hhx")),
            "hhx": ex.struct("hhx::State", hxr=hx(t("hhx"), "hhx"), source_temp=t("source")),
        }

    def col(self, k):
        s = self.ex.field(self.vals, k)
        return s.at

    def res(self, *path):
        v = self.ex.field(self.r, *path)
        if isinstance(v, T):
            return self.S(v)
        return v

    # ---- specification functions -------------------------------------------------
    def drop(self, i):
        """total pressure drop at index i"""
        f = self.ex.field
        P = self.col("P")(i)
        t = lambda *a: f(self.state, "temp", *a)
        tot = []
        for k, temp, a, b in (("chx", t("chx"), "m_dot_ck", "m_dot_kr"), ("hhx", t("hhx"), "m_dot_rl", "m_dot_le"), ("regen", t("regen", "avg"), "m_dot_kr", "m_dot_rl")):
            R = self.m(k, "hydraulic_resistance", "f64")
            flow = div(mul(HALF, add(self.col(a)(i), self.col(b)(i))), self.fluid("dens", temp, P))
            tot.append(mul(R, flow))
        return add(*tot)

    def Pc(self, i):
        return add(self.col("P")(i), mul(HALF, self.drop(i)))

    def Pe(self, i):
        return sub(self.col("P")(i), mul(HALF, self.drop(i)))

    def vols(self):
        """the volume function of the drive"""
        fn = self.m("ws", "volumes", "std::boxed::Box<dyn Fn>") if False else None
        return fn

    def dV(self, i):
        ex = self.ex
        ty = self.vol_ty()
        box = self.m("ws", "volumes", ty)
        t = self.col("time")(i)
        while isinstance(box, (BoxV, VRef)):
            box = box.v
        r = ex.uf("(ws::CompVolume, ws::ExpVolume)", "call", [box.t, t])
        return ex.field(r, 0, "deriv"), ex.field(r, 1, "deriv")

    def vol_ty(self):
        for k, t in self.c.p.d["types"].items():
            if t and t["k"] == "adt" and t["box"] and "Fn(f64)" in k and "CompVolume" in k:
                return k
        raise Unsupported("type of the volume function")

    def integral(self, y):
        return trapz(self.n, self.col("time"), y)


def c17(c):
    R = Results(c)
    hy = R.hyps + R.pc
    c.vacuity("engine with equally long series", hy)
    f = R.ex.field
    for nm, sp in (("P_c", R.Pc), ("P_e", R.Pe)):
        c.seq_eq("RunResults.values.%s is P %s half the total pressure drop" % (nm, "plus" if nm == "P_c" else "minus"), f(R.r, "values", nm), R.n, sp, hy)
    # with zero resistances both equal the common pressure
    z = {R.m(k, "hydraulic_resistance", "f64"): tm.ZERO for k in ("chx", "regen", "hhx")}
    i = tm.fresh("ix", "I")
    for nm in ("P_c", "P_e"):
        c.ob("no resistance: %s equals P" % nm, tm.eq(tm.subst(f(R.r, "values", nm).at(i), z), R.col("P")(i)), hy + [tm.le(intc(0), i), tm.lt(i, R.n)])
    c.note("densities are not zero")


def powers(R):
    fq = R.m("ws", "frequency", "f64")
    f = R.ex.field
    par = R.m("ws", "parasitics", "ws::Parasitics")
    pk, pl = R.m("chx", "parasitics", "types::ParasiticPower"), R.m("hhx", "parasitics", "types::ParasiticPower")
    ideal = mul(fq, R.integral(lambda i: mul(R.col("P")(i), add(*R.dV(i)))))
    ind = mul(fq, R.integral(lambda i: add(mul(R.Pc(i), R.dV(i)[0]), mul(R.Pe(i), R.dV(i)[1]))))
    shaft = sub(sub(ind, f(par, "comp", "mechanical")), f(par, "exp", "mechanical"))
    net = sub(sub(shaft, f(pk, "mechanical")), f(pl, "mechanical"))
    torque = div(shaft, mul(num(2), tm.PI, fq))
    return dict(fq=fq, ideal=ideal, ind=ind, shaft=shaft, net=net, torque=torque, par=par)


def heats(R, pw):
    f = R.ex.field
    fq = pw["fq"]
    tk, tl = f(R.state, "temp", "chx"), f(R.state, "temp", "hhx")
    S = R.S
    ql = mul(fq, R.integral(R.col("Q_dot_l")))
    qk = mul(fq, R.integral(R.col("Q_dot_k")))
    qe = tm.ZERO if R.Re in R.inf else mul(fq, R.integral(lambda i: div(sub(tl, R.col("T_e")(i)), R.Re)))
    qc = tm.ZERO if R.Rc in R.inf else mul(fq, R.integral(lambda i: div(sub(R.col("T_c")(i), tk), R.Rc)))
    par = pw["par"]
    ext = add(f(R.m("hhx", "parasitics", "types::ParasiticPower"), "thermal"), f(R.m("regen", "parasitics", "types::ParasiticPower"), "thermal"), f(par, "exp", "thermal"))
    inp = add(ql, qe, ext)
    rej = add(qk, qc, sub(pw["ideal"], pw["ind"]), f(par, "comp", "mechanical"), f(par, "exp", "mechanical"), ext)
    return dict(input=inp, rejection=rej, ext=ext, gas_in=add(ql, qe), gas_out=add(qk, qc))


CASES = [(False, False, "finite resistances"), (True, True, "adiabatic spaces"), (True, False, "adiabatic compression space"), (False, True, "adiabatic expansion space")]


def c15(c):
    for ci, ei, nm in CASES:
        R = Results(c, ci, ei)
        pw = powers(R)
        hy = [R.S(h) for h in R.hyps + R.pc] + [tm.not_(tm.eq(pw["fq"], tm.ZERO))]
        if (ci, ei) == (False, False):
            c.vacuity("engine with equally long series", hy)
            g = lambda name, path, v: c.ob(name, tm.eq(R.res(*path), v), hy)
            g("ideal indicated power is f x integral of P dV", ("power", "ideal_indicated"), pw["ideal"])
            g("indicated power is f x integral of P_c dV_c + P_e dV_e", ("power", "indicated"), pw["ind"])
            g("shaft power subtracts the mechanical losses of both spaces", ("power", "shaft"), pw["shaft"])
            g("net power subtracts the mechanical losses of both exchangers", ("power", "net"), pw["net"])
            g("shaft torque is shaft power over angular speed", ("shaft_torque",), pw["torque"])
        inp = R.res("heat_flow", "input")
        c.ob("efficiency is net power over heat input (%s)" % nm, tm.eq(R.res("efficiency", "mechanical"), div(R.res("power", "net"), inp)), hy)
    c.note("the drive frequency and the heat input are not zero")


def c16(c):
    for ci, ei, nm in CASES:
        R = Results(c, ci, ei)
        pw = powers(R)
        ht = heats(R, pw)
        hy = [R.S(h) for h in R.hyps + R.pc]
        if (ci, ei) == (False, False):
            c.vacuity("engine with equally long series", hy)
        i, r = R.res("heat_flow", "input"), R.res("heat_flow", "rejection")
        c.ob("heat input (%s)" % nm, tm.eq(i, ht["input"]), hy)
        c.ob("heat rejection (%s)" % nm, tm.eq(r, ht["rejection"]), hy)
        f = R.ex.field
        diff = sub(sub(ht["gas_in"], ht["gas_out"]), sub(R.res("power", "ideal_indicated"), R.res("power", "shaft")))
        c.ob("input less rejection is the net gas-side heat less the losses up to the shaft (%s)" % nm, tm.eq(sub(i, r), diff), hy)
    c.note("finite thermal resistances are not zero")


STATE_FIELDS = [
    (("heat_flow", "chx"), ("heat_flow", "chx")),
    (("heat_flow", "regen"), ("heat_flow", "regen")),
    (("heat_flow", "hhx"), ("heat_flow", "hhx")),
    (("mass_flow", "chx"), ("mass_flow", "chx")),
    (("mass_flow", "regen"), ("mass_flow", "regen")),
    (("mass_flow", "hhx"), ("mass_flow", "hhx")),
    (("pressure", "avg"), ("pres", "avg")),
    (("pressure", "max"), ("pres", "max")),
    (("pressure", "min"), ("pres", "min")),
    (("pressure", "t_zero"), ("pres", "t_zero")),
    (("regen_imbalance",), ("regen_imbalance", 0)),
    (("temperature", "sink"), ("temp", "sink")),
    (("temperature", "chx"), ("temp", "chx")),
    (("temperature", "regen_cold"), ("temp", "regen", "cold")),
    (("temperature", "regen_avg"), ("temp", "regen", "avg")),
    (("temperature", "regen_hot"), ("temp", "regen", "hot")),
    (("temperature", "hhx"), ("temp", "hhx")),
    (("temperature", "source"), ("temp", "source")),
]
COLUMNS = ["time", "P", "T_c", "T_e", "m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l"]


def c18(c):
    R = Results(c)
    hy = R.hyps + R.pc
    f = R.ex.field
    c.vacuity("engine with equally long series", hy)
    for a, b in STATE_FIELDS:
        c.ob("results.%s is state.%s" % (".".join(a), ".".join(map(str, b))), tm.eq(R.res(*a), f(R.state, *b)), hy)
    for k in COLUMNS:
        c.seq_eq("results.values.%s is the engine series" % k, f(R.r, "values", k), R.n, R.col(k), hy)
    for k in ("P_c", "P_e"):
        c.ob("results.values.%s has the length of the series" % k, tm.eq(f(R.r, "values", k).n, R.n), hy)
    for k, sp, nm in (("P_c", R.Pc, "compression"), ("P_e", R.Pe, "expansion")):
        c.seq_eq("results.values.%s is the %s-space pressure" % (k, nm), f(R.r, "values", k), R.n, sp, hy)
    # totals carry the quantity they are named after
    pw = powers(R)
    ht = heats(R, pw)
    hq = hy + [tm.not_(tm.eq(pw["fq"], tm.ZERO))]
    for path, v in ((("power", "ideal_indicated"), pw["ideal"]), (("power", "indicated"), pw["ind"]), (("power", "shaft"), pw["shaft"]), (("power", "net"), pw["net"]), (("shaft_torque",), pw["torque"]), (("heat_flow", "input"), ht["input"]), (("heat_flow", "rejection"), ht["rejection"])):
        c.ob("results.%s holds the quantity of that name" % ".".join(path), tm.eq(R.res(*path), v), hq)
    c.ob("results.efficiency.mechanical holds the quantity of that name", tm.eq(R.res("efficiency", "mechanical"), div(pw["net"], ht["input"])), hq)
    # columns of the engine values from the solved time points
    ex = c.exec()
    b = c.body(["<engine::state::Values as std::convert::From<std::vec::Vec<state_equations::Values>>>::from"], ["Vec<state_equations::Values>"], "engine::state::Values")
    vs = ex.sym(b["locals"][1], "points")
    h = [tm.le(intc(0), vs.n)]
    st, r = c.run(ex, b, [vs], St({}, ()).assume(*h))
    src = {"time": ("time",), "P": ("conditions", "P"), "T_c": ("conditions", "T_c"), "T_e": ("conditions", "T_e")}
    for k in COLUMNS:
        path = src.get(k, ("solution", k))
        c.seq_eq("column %s holds %s of each solved time point" % (k, ".".join(path)), ex.field(r, k), vs.n, lambda i: ex.field(vs.at(i), *path), h + list(st.pc))
    c.note("results.efficiency.overall is a placeholder (TODO in the source) and is not covered")
