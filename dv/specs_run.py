"""C03 - C08: a whole run (Engine::run) of arbitrary components, fluid, inputs and settings."""
from fractions import Fraction
import mpmath
from . import term as tm
from .term import T, TRUE, FALSE, intc, num, add, sub, mul, div, le, lt
from .spec import *
from . import models
from .exec import simp
from .contracts import Sol, find_fn
from .specs_results import Results, HALF

MAX_RES = 1000000
SERIES = ["time", "P", "T_c", "T_e", "m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l"]
FLOWS = SERIES[4:]


def abs_(x):
    return tm.ite(le(tm.ZERO, x), x, tm.neg(x))


def converged(a, r, old, new):
    d = abs_(sub(new, old))
    return tm.and_(lt(d, a), lt(d, mul(r, abs_(old))))


def conv_body(c):
    return c.body(["types::ConvergenceTolerance::is_converged", "ConvergenceTolerance::is_converged"], ["types::ConvergenceTolerance", "f64", "f64"], "bool")


def conv_contract(ex, st, args, f, dty):
    """`is_converged(tol, old, new)`: |new - old| below tol.abs and below tol.rel |old| (an obligation of C05, C06, C20)"""
    if len(args) != 3:
        return None
    tol, old, new = [ex.strip(st, a) for a in args]
    try:
        a, r = ex.field(tol, "abs"), ex.field(tol, "rel")
    except Exception:
        return None
    return [(st, conv(a, r, simp(st.pc, old), simp(st.pc, new)))]


def conv(a, r, old, new):
    """the contract as an atom; `converged` is what it means"""
    return tm.app("conv", tuple(tm.canon(x) for x in (a, r, old, new)), "B")


def meaning(t):
    m = {s: converged(*s.args[1:]) for s in tm.subterms(t) if s.op == "app" and s.args[0] == "conv"}
    return tm.subst(t, m) if m else t


def conv_obligation(c):
    ex = c.exec()
    b = conv_body(c)
    tol = ex.sym(b["locals"][1], "tol")
    old, new = tm.var("old"), tm.var("new")
    st, r = c.run(ex, b, [tol, old, new])
    w = converged(ex.field(tol, "abs"), ex.field(tol, "rel"), old, new)
    nz = tm.not_(tm.eq(old, tm.ZERO))
    for s, g in ((le(tm.ZERO, old), "positive"), (tm.not_(le(tm.ZERO, old)), "negative")):
        for d in (le(old, new), tm.not_(le(old, new))):
            q = tm.var("q")
            lem = tm.eq(mul(div(sub(new, old), old), old), sub(new, old))
            hy = [nz, s, d] + list(st.pc)
            c.ob("the convergence test accepts only changes below both tolerances (%s, %s)" % (g, "rising" if d.op == "le" else "falling"), tm.implies(r, w), hy)
            c.ob("the convergence test accepts all changes below both tolerances (%s, %s)" % (g, "rising" if d.op == "le" else "falling"), tm.implies(w, r), hy)


class Run:
    def __init__(self, c, contract=True, panics=False):
        self.c = c
        ex = self.ex = c.exec()
        ex.summary_first = True
        if panics:
            ex.panics = []
        self.sol = Sol()
        bs = find_fn(c.p, ["state_equations::solver::solve"], ["Inputs", "FlowDirection"], "Solution")
        if not bs:
            raise Lost("solve")
        for b in bs:
            ex.contracts[b["path"]] = self.sol
        if contract:
            try:
                ex.contracts[conv_body(c)["path"]] = conv_contract
            except Lost:
                pass
        b = c.body(["engine::Engine::<T>::run"], ["Components", "T", "RunInputs", "RunSettings"], "Engine<")
        names = ["comps", "fluid", "inputs", "settings"]
        order = []
        for t in b["locals"][1 : 1 + b["argc"]]:
            order.append("comps" if "Components" in t else "inputs" if "RunInputs" in t else "settings" if "RunSettings" in t else "fluid")
        if sorted(order) != sorted(names):
            raise Lost("Engine::run")
        self.a = {n: ex.sym(t, n) for n, t in zip(order, b["locals"][1:])}
        f = ex.field
        st0 = St({}, ())
        res = self.res = f(self.a["settings"], "resolution")
        self.base = [le(intc(2), res), le(res, intc(MAX_RES))]
        mx = f(self.a["settings"], "max_iters")
        self.base += [le(intc(0), f(mx, "inner")), le(intc(0), f(mx, "outer"))]
        self.st, self.r = c.run(ex, b, [self.a[n] for n in order], st0)
        if not isinstance(self.r, EnumV):
            raise Unsupported("result of Engine::run")
        ok, err = c.p.variant_index(self.r.ty, "Ok"), c.p.variant_index(self.r.ty, "Err")
        self.E = self.r.vs[ok][0]
        self.err = self.r.vs[err][0]
        disc = ex.disc(self.st, self.r)
        self.resconds = {}
        self.count_map()
        S = self.S
        self.ok = S(tm.eq(disc, intc(ok)))
        self.pc = [S(x) for x in self.st.pc]
        edisc = ex.disc(self.st, self.err)
        ety = self.err.ty
        v = lambda n: tm.and_(S(tm.eq(disc, intc(err))), S(tm.eq(edisc, intc(c.p.variant_index(ety, n)))))
        self.inner, self.outer = v("InnerLoop"), v("OuterLoop")
        self.state, self.vals = f(self.E, "state"), f(self.E, "values")
        comps = f(self.a["comps"], ) if False else self.a["comps"]
        self.comps = {k: f(comps, k) for k in ("ws", "chx", "regen", "hhx")}
        self.ode = self.ex.odes[-1] if self.ex.odes else None
        c.note("the ODE integrator (ode_solvers::Dopri5) is trusted: it reports points x0, x0+dx, ... up to x_end of the solution of the system it is given that starts at y0, computed with the given tolerances, or an error; the reported values depend on neither dx nor x_end")
        c.note("reported times are those of exact arithmetic; the integration must end beyond the last point by more than the rounding of 10^6 accumulated steps")
        c.note("the solver's contract at its callers is: Ok(solution of the state equations for exactly the given inputs) or Err (C01)")

    # ---- number of points --------------------------------------------------
    def count_map(self):
        """ode.count(q) is the number N of points asked for"""
        fl = []
        flatten(self.E, fl)
        ts = list(fl) + list(self.st.pc) + [self.ex.disc(self.st, self.r)]
        i = tm.var("i", "I")
        for k in SERIES:
            s = self.ex.field(self.ex.field(self.E, "values"), k)
            ts += [s.n, s.at(i)]
        for o in self.ex.odes:
            ts.append(o["n"])
        seen = set()
        for t in ts:
            if isinstance(t, T):
                for s in tm.subterms(t):
                    if s.op == "app" and s.args[0] == "ode.count":
                        seen.add(s)
        self.counts = {}
        self.bad_counts = []
        for s in sorted(seen, key=repr):
            q = s.args[1]
            for N in (intc(2), self.res):
                if self.is_count(q, N):
                    self.counts[s] = N
                    break
            else:
                self.bad_counts.append(s)

    def is_count(self, q, N):
        from . import prove as pv

        q = unpinv(q)
        n = tm.i2r(N)
        margin = num("1/1000000000")
        low = le(mul(sub(n, num(1)), add(num(1), mul(margin, num("1/2")))), q)
        high = le(q, sub(n, HALF))
        return pv.prove(low, tuple(self.base), timeout=4000) and pv.prove(high, tuple(self.base), timeout=4000)

    def S(self, t):
        """t with the numbers of points and the conditions on them resolved"""
        if not isinstance(t, T):
            return t
        from . import prove as pv

        if self.counts:
            t = tm.subst(t, self.counts)
        m = {}
        for s in tm.subterms(t):
            if s.op in ("eq", "lt", "le") and s.args[0].sort in "RI":
                vs = [x for x in tm.subterms(s) if x.op in ("var", "app") or x.op.startswith("bv")]
                if vs and all(x is self.res for x in vs):
                    r = self.resconds.get(s)
                    if r is None:
                        r = TRUE if pv.prove(s, tuple(self.base)) else FALSE if pv.prove(tm.not_(s), tuple(self.base)) else s
                        self.resconds[s] = r
                    if r is not s:
                        m[s] = r
        return tm.subst(t, m) if m else t

    def n(self, k):
        return self.S(self.ex.field(self.vals, k).n)

    def col(self, k):
        s = self.ex.field(self.vals, k)
        return lambda i: self.S(s.at(i))

    def stf(self, *path):
        return self.S(self.ex.field(self.state, *path))

    def inp(self, k):
        return self.ex.field(self.a["inputs"], k)

    def ix(self):
        i = tm.fresh("ix", "I")
        return i, [le(intc(0), i), lt(i, self.res)] + self.base

    def bool_ob(self, name, goal, hyps):
        """an obligation about which iteration ends the run: the convergence tests, integrations and
        solver calls are atoms, identified by their arguments"""
        import time
        from . import prove as pv

        t0 = time.time()
        S = self.S
        goal, hyps = S(goal), [S(h) for h in hyps if h is not TRUE]
        table = {}

        def atoms(t):
            m = {}
            for s in outer_atoms(t):
                key = (s.args[0],) + tuple(self.named(a) for a in s.args[1:])
                if key not in table:
                    table[key] = tm.var("%s#%d" % (s.args[0], len(table)), "B")
                m[s] = table[key]
            return tm.subst(t, m) if m else t

        hs = [atoms(h) for h in hyps]
        g = atoms(goal)
        used = {k[0] for k in table}
        if pv.z3_prove(g, tuple(hs), 60000, nl=False):
            self.c.obs.append(Ob(name, "proved", "z3", "", time.time() - t0))
            return True
        detail = {"goal": tm.show(g)[:2000], "atoms": {str(v.args[0]): [tm.show(a)[:200] for a in k[1:]][-4:] for k, v in list(table.items())[:20]}}
        # by what the convergence test means: it need not be a call, nor be called with these very arguments
        hm = tuple(hyps) if "conv" not in used else tuple(meaning(h) for h in hyps)
        if pv.prove(meaning(goal), hm, timeout=20000 if "conv" not in used else 6000):
            self.c.obs.append(Ob(name, "proved", "z3", "", time.time() - t0))
            return True
        if "conv" not in used:
            self.c.obs.append(Ob(name, "unknown", "-", detail, time.time() - t0))
            return False
        # a loop variable about which no invariant is known decides: no answer
        open_ = any(s.op == "app" and str(s.args[0]).startswith("hv!") for h in hs + [g] for s in tm.subterms(h))
        st = "refuted" if not open_ and self.independent(table) and pv.z3_sat(hs + [tm.not_(g)]) else "unknown"
        self.c.obs.append(Ob(name, st, "z3 countermodel over the convergence tests" if st == "refuted" else "-", detail, time.time() - t0))
        return False

    def named(self, a):
        """canonical form under resolution >= 2 (one interval or more)"""
        if not isinstance(a, T):
            return a
        a = tm.subst(a, {self.res: tm.add(tm.var("intervals", "I"), intc(1))})
        return tm.canon(a) if a.sort in "RI" else a

    def reachable(self, name, hyps):
        """the hypotheses are satisfiable (they are not proved contradictory)"""
        import time
        from . import prove as pv

        t0 = time.time()
        ok = not pv.z3_prove(FALSE, tuple(self.S(h) for h in hyps if h is not TRUE), 20000, nl=False)
        self.c.obs.append(Ob("non-vacuous: " + name, "proved" if ok else "unknown", "z3 (no contradiction)", "", time.time() - t0))

    def independent(self, table):
        """atoms of one kind are about numerically different values"""
        from . import prove as pv

        hints = {"*.resolution": lambda u: 3 + int(3 * u), "*.temp_source": lambda u: 40.0 + u, "*.temp_sink": lambda u: 3.0 + u}
        keys = list(table)
        vals = {k: [] for k in keys}
        for seed in range(1, 9):
            env = pv.Env(seed, hints)
            env.mode = 0.0
            memo = {}
            for k in keys:
                try:
                    vals[k].append(tuple(env.ev(a, None, memo) if isinstance(a, T) and a.sort in "RI" else a for a in k[1:]))
                except (pv.Undefined, ArithmeticError, ValueError):
                    vals[k].append(None)

        def differ(u, v):
            num = (int, float, Fraction, mpmath.mpf)
            return any(not (x is y or (isinstance(x, num) and isinstance(y, num) and abs(x - y) <= 1e-9 * max(1, abs(x)))) for x, y in zip(u, v))

        for i, a in enumerate(keys):
            for b in keys[:i]:
                if a[0] == b[0] and len(a) == len(b):
                    if not any(u is not None and v is not None and differ(u, v) for u, v in zip(vals[a], vals[b])):
                        return False
        return True

    def hyps(self):
        return [self.ok] + self.pc + self.base

    # ---- components ------------------------------------------------------------
    def ws_args(self):
        """what the drive was asked with when the reported cycle was set up"""
        for s in tm.subterms(self.col("time")(tm.var("i", "I"))):
            if s.op == "app" and s.args[0] == "ws::WorkingSpaces::frequency":
                return s.args[1:]
        raise Unsupported("the frequency of the drive is not used")

    def ws(self, name, ty):
        return self.ex.uf(ty, "ws::WorkingSpaces::" + name, self.ws_args())

    def m(self, comp, name, ty):
        return Results.m(self, comp, name, ty)

    def fluid(self, name, temp, pres):
        return method(self.ex, self.st, "fluid::Fluid", name, self.a["fluid"], [temp, pres], "f64")

    vol_ty = Results.vol_ty

    def volumes(self, t):
        box = self.ws("volumes", self.vol_ty())
        while isinstance(box, (BoxV, VRef)):
            box = box.v
        r = self.ex.uf("(ws::CompVolume, ws::ExpVolume)", "call", [box.t, tm.canon(t)])
        f = self.ex.field
        return f(r, 0, "value"), f(r, 0, "deriv"), f(r, 1, "value"), f(r, 1, "deriv")

    def period(self):
        return div(num(1), self.ws("frequency", "f64"))

    # ---- specification of the inputs of the state equations ------------------------
    def cond(self, temp, res, to):
        """conduction to the neighbouring exchanger (none when the resistance is infinite)"""
        return div(sub(temp, to), res)

    def inputs(self, t, P, Tc, Te):
        """what each balance has to be made of at time t"""
        fl, temp = self.fluid, lambda *a: self.stf("temp", *a)
        vc, dvc, ve, dve = self.volumes(t)
        R = self.ws("thermal_resistance", "ws::ThermalResistance")
        par = self.ws("parasitics", "ws::Parasitics")
        f = self.ex.field

        def space(vol, dv, T_, R_, th, to):
            d = {k: fl(k, T_, P) for k in ("dens", "inte", "enth", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P")}
            d.update(vol=vol, dV_dt=dv, Q_dot=add(th, self.cond(T_, R_, to)))
            return d

        def hx(k):
            T_ = temp(k)
            d = {n: fl(n, T_, P) for n in ("dens", "inte", "enth", "dd_dP_T", "du_dP_T")}
            d["vol"] = self.m(k, "volume", "f64")
            return d

        Tr = temp("regen", "avg")
        regen = {n: fl(n, Tr, P) for n in ("dens", "inte", "dd_dP_T", "du_dP_T")}
        regen.update(vol=self.m("regen", "volume", "f64"), enth_cold=fl("enth", temp("regen", "cold"), P), enth_hot=fl("enth", temp("regen", "hot"), P))
        return {
            "pres": P,
            "comp": space(vc, dvc, Tc, f(R, "comp"), f(par, "comp", "thermal"), temp("chx")),
            "chx": hx("chx"),
            "regen": regen,
            "hhx": hx("hhx"),
            "exp": space(ve, dve, Te, f(R, "exp"), f(par, "exp", "thermal"), temp("hhx")),
        }

    def sol_inputs(self, key):
        """the Inputs structure a solver call was given, from the arguments of its result"""
        if not self.sol.calls:
            raise Unsupported("the solver is not called")
        ty = self.sol.calls[-1]["inputs"].ty
        it = iter(key)

        def mk(tyname):
            t = self.c.p.ty(tyname)
            if t is None or t["k"] != "adt":
                return next(it)
            return {fd["name"]: mk(fd["ty"]) for fd in t["variants"][0]["fields"]}

        return mk(ty)

    def sol_apps(self, t):
        """outermost solver results in t"""
        out = []

        def go(x):
            if not isinstance(x, T):
                return
            if x.op == "app" and str(x.args[0]).startswith("SOL."):
                out.append(x)
                return
            for y in x.args:
                if isinstance(y, T):
                    go(y)
                elif isinstance(y, tuple):
                    for z in y:
                        go(z)

        go(t)
        return list(dict.fromkeys(out))

    def must(self):
        """what the state shared with the integrated system must be after the integration of the reported
        cycle for the run to succeed: [(number of the cell, variant, condition)]"""
        o, ex = self.ode, self.ex
        if getattr(self, "_must", None) is None:
            self._must = []
            for j, cl in enumerate(models.cells_of(ex, o["st"], o["sys"])):
                v = o["st"].cells[cl]
                n = next((i for i in sorted(v.vs) if not v.vs[i]), None) if isinstance(v, EnumV) else None
                d = [x for x in outer_apps(tm.and_(self.ok, *self.pc), "ode.cell%d#" % j) if tuple(x.args[1:]) == tuple(self.S(y) for y in o["key"])]
                if n is not None and d and holds(self.empty(v, d[0], n), self.hyps()):
                    self._must.append((j, n, self.empty(v, d[0], n)))
        return self._must

    def empty(self, v, d, n):
        return tm.and_(*[tm.not_(tm.eq(d, intc(i))) for i in range(len(self.c.p.ty(v.ty)["variants"])) if i != n])

    # ---- the system handed to the integrator -------------------------------------------
    def system(self):
        """derivatives at an arbitrary time and state: [(path condition, dy)]"""
        if getattr(self, "_sys", None):
            return self._sys
        o = self.ode
        if o is None:
            raise Unsupported("no integration")
        ex = self.ex
        bs = [b for b in self.c.p.d["bodies"] if b["path"].endswith(">::system") and "ode_solvers::System" in b["path"]]
        if not bs:
            raise Lost("System::system")
        gen = [b for b in bs if b["id"].endswith("@" + b["path"])] or bs
        t = tm.var("t")
        y = [tm.var("y%d" % j) for j in range(o["y0"].r)]
        st = o["st"].fork()
        # at an arbitrary call its shared state is arbitrary
        shared = models.cells_of(ex, st, o["sys"])
        marks = tuple("ode.cell%d" % j for j in range(len(shared)))
        st.pc = tuple(x for x in st.pc if not any(s.op == "app" and str(s.args[0]).startswith("ode.cell") for s in tm.subterms(x)))
        for j, cl in enumerate(shared):
            st.cells[cl] = models.unknown(ex, st.cells[cl], "sys.cell%d" % j, (tm.var("call", "I"),))
        pre = dict(st.cells)
        cell = ("spec", 0)
        st.cells[cell] = MatV(len(y), 1, [tm.var("dy_in%d" % j) for j in range(len(y))])
        n0 = len(self.sol.calls)
        out = ex.run_body(gen[0], [VRef(o["sys"]), t, VRef(MatV(len(y), 1, y)), RefV(cell, ())], st)
        self.c.done(ex)
        if not out:
            raise Unsupported("the system never returns")
        must = [(shared[j], n) for j, n, _ in self.must()]
        res = []
        for s, _ in out:
            pc = tuple(s.pc)
            for cl, n in must:
                v = s.cells[cl]
                pc += (self.empty(pre[cl], ex.disc(s, v), n),)
                known = self.empty(pre[cl], ex.disc(st, pre[cl]), n)
                if not holds(known, pc):
                    self.c.ob("a failure in a call of the system is still known after later calls", known, pc)
            if holds(FALSE, pc):
                continue
            res.append((pc, ex.strip(s, s.cells[cell])))
        self._sys = (t, y, res)
        return self._sys


def unpinv(q):
    """x / pinv(y) is x y"""
    m = {}
    for s in tm.subterms(q):
        if s.op == "div" and s.args[1].op == "pinv":
            m[s] = mul(s.args[0], s.args[1].args[0])
    return tm.subst(q, m) if m else q


PHASES = {"P": "dP_dt", "T_c": "dTc_dt", "T_e": "dTe_dt"}


def order(R):
    """which component of the integrated state is which series"""
    i = tm.add(intc(1), tm.var("i", "I"))
    out = {}
    for k in PHASES:
        js = sorted({int(s.args[0][5:]) for s in outer_apps(R.col(k)(i), "ode.y")})
        if len(js) != 1:
            raise Unsupported("series %s is not one component of the integrated state" % k)
        out[k] = js[0]
    if sorted(out.values()) != list(range(len(out))):
        raise Unsupported("components of the integrated state")
    return out


def holds(goal, hyps):
    """does the goal follow, calls and tests taken as atoms?"""
    from . import prove as pv

    return pv.z3_prove(goal, tuple(h for h in hyps if h is not TRUE), 20000, nl=False)


def outer_apps(t, prefix):
    out = []

    def go(x):
        if x.op == "app" and str(x.args[0]).startswith(prefix):
            if x not in out:
                out.append(x)
            return
        for y in x.args:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T):
                    go(z)

    go(t)
    return out


def outer_atoms(t):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "app" and x.sort == "B":
            out.append(x)
            return
        if x.op in ("not", "and", "or", "ite", "eq", "lt", "le"):
            for y in x.args:
                for z in y if isinstance(y, tuple) else (y,):
                    if isinstance(z, T):
                        go(z)

    go(t)
    return out


# ---- C03 ---------------------------------------------------------------------
def c03(c):
    R = Run(c)
    f = R.ex.field
    Rt = R.ws("thermal_resistance", "ws::ThermalResistance")
    Rc, Re = f(Rt, "comp"), f(Rt, "exp")
    fin = [tm.and_(tm.not_(tm.eq(r, tm.ZERO)), tm.not_(tm.isinf(r))) for r in (Rc, Re)]
    c.vacuity("resistances that are not zero", fin)

    def compare(where, key, spec, hy):
        got = R.sol_inputs(key)
        for cn, (rc, re) in {"": (None, None), ", adiabatic compression space": (1, None), ", adiabatic expansion space": (None, 1), ", adiabatic spaces": (1, 1)}.items():
            m = {}
            if rc:
                m[Rc] = tm.INF
            if re:
                m[Re] = tm.INF
            h = [x for x, o in zip(fin, (rc, re)) if not o] + list(hy)
            if m:
                h = [tm.subst(x, m) for x in h]
            for vol, want in spec.items():
                if not isinstance(want, dict):
                    if not m:
                        c.eq("%s: the common %s is the current one" % (where, vol), got[vol], want, h)
                    continue
                if vol not in got or not isinstance(got[vol], dict):
                    raise Unsupported("inputs of the state equations")
                for k, w in want.items():
                    if m and k != "Q_dot":
                        continue
                    if k not in got[vol]:
                        raise Unsupported("inputs of the state equations: %s.%s" % (vol, k))
                    g = got[vol][k]
                    if m:
                        g, w = tm.subst(g, m), tm.subst(w, m)
                    c.eq("%s: %s of %s is that volume's own%s" % (where, k, vol, cn), g, w, h)

    def during():
        o = order(R)
        t, y, outs = R.system()
        spec = R.inputs(t, y[o["P"]], y[o["T_c"]], y[o["T_e"]])
        nin = R.sol.calls[-1]["nin"]
        seen = set()
        for pc, dy in outs:
            for d in dy.d:
                for a in R.sol_apps(d):
                    key = a.args[1 : 1 + nin]
                    if key in seen:
                        continue
                    seen.add(key)
                    compare("integration", [R.S(x) for x in key], spec, [])
        if not seen:
            raise Unsupported("the derivatives do not come from the solver")

    def reported():
        i, hy = R.ix()
        spec = R.inputs(*[R.col(k)(i) for k in ("time", "P", "T_c", "T_e")])
        nin = R.sol.calls[-1]["nin"]
        seen = set()
        for k in FLOWS:
            for a in R.sol_apps(R.col(k)(i)):
                key = a.args[1 : 1 + nin]
                if key in seen:
                    continue
                seen.add(key)
                compare("reported point", key, spec, hy)
        if not seen:
            raise Unsupported("the reported flows do not come from the solver")

    c.part("inputs during the integration", during)
    c.part("inputs at the reported points", reported)
    c.note("an infinite thermal resistance is the extended real +inf; a division by a resistance assumes it is not zero")


# ---- C04 ---------------------------------------------------------------------
def c04(c):
    R = Run(c)
    c.vacuity("a resolution", R.base)

    def lengths():
        for k in SERIES:
            c.eq("series %s has exactly the requested number of points" % k, R.n(k), R.res, R.base)

    def times():
        i, hy = R.ix()
        w = mul(div(tm.i2r(i), tm.i2r(sub(R.res, intc(1)))), R.period())
        c.eq("time i is i/(n-1) of the period", R.col("time")(i), w, hy)
        c.eq("the first time is zero", R.col("time")(intc(0)), tm.ZERO, R.base)
        c.eq("the last time is the period", R.col("time")(sub(R.res, intc(1))), R.period(), R.base)

    def trajectory():
        o = order(R)
        i, hy = R.ix()
        od = R.ode
        ix1 = tm.add(intc(1), tm.fresh("jx", "I"))
        h1 = [le(intc(1), ix1), lt(ix1, R.res)] + R.base
        for k, j in o.items():
            s = R.col(k)(ix1)
            for a in outer_apps(s, "ode.y"):
                c.ob("%s at a later point is the integrated solution" % k, tm.eq(s, a), h1)
                n = len(od["key"])
                c.ob("%s is a solution of the reported cycle's own system, initial values and tolerances" % k, tm.and_(*[tm.eq(x, R.S(w)) for x, w in zip(a.args[1 : 1 + n], od["key"])]), h1)
                c.eq("%s is taken at the reported time" % k, a.args[1 + n], R.col("time")(ix1), h1)
            c.eq("%s starts at the initial value handed to the integrator" % k, R.col(k)(intc(0)), R.S(od["y0"].d[j]), R.base)
        c.eq("integration starts at time zero", R.S(od["x0"]), tm.ZERO)
        tol = R.ex.field(R.a["settings"], "ode_tol")
        c.eq("relative integration tolerance is the requested one", od["rtol"], R.ex.field(tol, "rel"))
        c.eq("absolute integration tolerance is the requested one", od["atol"], R.ex.field(tol, "abs"))
        t, y, outs = R.system()
        for pc, dy in outs:
            for k, j in o.items():
                apps = R.sol_apps(dy.d[j])
                d = simp(pc, dy.d[j])
                c.ob("d%s/dt is the one that solves the state equations" % k, tm.or_(*[tm.eq(d, a) for a in apps if a.args[0] == "SOL." + PHASES[k]]), pc)

    def points():
        o = order(R)
        t, y, outs = R.system()
        nin = R.sol.calls[-1]["nin"]
        keys = {a.args[1 : 1 + nin] for pc, dy in outs for d in dy.d for a in R.sol_apps(d)}
        c.ob("all derivatives come from one set of inputs", tm.boolc(len(keys) == 1))
        if not keys:
            raise Unsupported("the derivatives do not come from the solver")
        key = sorted(keys, key=repr)[0]
        i, hy = R.ix()
        m = {t: R.col("time")(i)}
        for k, j in o.items():
            m[y[j]] = R.col(k)(i)
        want = [tm.subst(R.S(x), m) for x in key]
        done = set()
        for k in FLOWS:
            s = R.col(k)(i)
            apps = [a for a in R.sol_apps(s) if a.args[0] == "SOL." + k]
            c.ob("%s is the solver's %s" % (k, k), tm.or_(*[tm.eq(s, a) for a in apps]), hy)
            for a in apps:
                got = a.args[1 : 1 + nin]
                if got in done:
                    continue
                done.add(got)
                for p, (g, w) in enumerate(zip(got, want)):
                    c.eq("%s solves the state equations of that point: input %d" % (k, p), g, w, hy)

    c.part("number of points", lengths)
    c.part("times", times)
    c.part("trajectory", trajectory)
    c.part("flows at the points", points)


# ---- C05, C06 ------------------------------------------------------------------
def loop_vars(R, bound):
    """iteration variables limited by this number of iterations"""
    out = []
    for t in [R.ok, R.inner, R.outer] + R.pc:
        for s in tm.subterms(t):
            if s.op == "var" and s.sort == "I" and str(s.args[0]).startswith("k!") and s not in out:
                if any(u.op in ("lt", "le") and s in tm.subterms(u) and bound in tm.subterms(u) for u in tm.subterms(t)):
                    out.append(s)
    return out


def closes(R):
    f = R.ex.field
    tol = f(R.a["settings"], "loop_tol", "inner")
    last = sub(R.res, intc(1))
    return {k: conv(f(tol, "abs"), f(tol, "rel"), R.col(k)(intc(0)), R.col(k)(last)) for k in ("T_c", "T_e")}


def c05(c):
    R = Run(c)
    for nm, h in (("a run that succeeds", R.ok), ("an inner-loop error", R.inner), ("an outer-loop error", R.outer)):
        R.reachable(nm, [h] + R.pc + R.base)
    c.part("convergence test", conv_obligation, c)
    f = R.ex.field
    c.eq("the cycle starts at the requested pressure", R.col("P")(intc(0)), R.inp("pres_zero"), R.base)
    H = R.hyps()
    cl = closes(R)
    for k, g in cl.items():
        R.bool_ob("%s returns to its starting value within both inner tolerances" % k, g, H)
    oks = ode_oks(R) + [x for _, _, x in R.must()]
    R.bool_ob("a failed integration is never a success", tm.or_(*[]) if not oks else tm.and_(*oks), H)
    mi = f(R.a["settings"], "max_iters", "inner")
    mo = f(R.a["settings"], "max_iters", "outer")
    R.bool_ob("success takes at least one inner iteration", le(intc(1), mi), H)
    found = tm.and_(*(list(cl.values()) + oks))
    ko, ki = loop_vars(R, mo), loop_vars(R, mi)
    rng = lambda ks, b: [x for k in ks for x in (le(intc(0), k), lt(k, b))]
    hy = [R.inner] + R.pc + R.base + rng(ki, mi)
    # the state equations of the points that are reported can be solved
    sols = {s: TRUE for t in hy for s in tm.subterms(t) if s.op == "app" and s.args[0] == "SOL.ok"}
    R.bool_ob("an iteration that closes the cycle is never reported as an inner-loop error", tm.not_(found), [tm.subst(t, sols) for t in hy])
    R.bool_ob("a cycle that is not found is not passed over (outer-loop error)", found, [R.outer] + R.pc + R.base + rng(ko, mo))
    R.bool_ob("a run succeeds or reports one of the two errors", tm.or_(R.ok, R.inner, R.outer), R.pc + R.base)


def ode_oks(R):
    """success flags of the integrations of the reported cycle"""
    k = R.ode["key"]
    out = []
    for t in [R.ok] + R.pc:
        for s in tm.subterms(t):
            if s.op == "app" and s.args[0] == "ode.ok" and s not in out and tuple(s.args[1:]) == tuple(k):
                out.append(s)
    return out


def regen_spec(chx, hhx, a, imb):
    pos = le(tm.ZERO, imb)
    ca = tm.ite(pos, a, sub(a, imb))
    ha = tm.ite(pos, add(a, imb), a)
    X, Y = add(chx, mul(HALF, ca)), sub(hhx, mul(HALF, ha))
    return {"cold": add(chx, ca), "hot": sub(hhx, ha), "avg": div(sub(Y, X), tm.fn("ln", div(Y, X)))}, X, Y, ca, ha


def c06(c):
    R = Run(c)
    for nm, h in (("a run that succeeds", R.ok), ("an inner-loop error", R.inner), ("an outer-loop error", R.outer)):
        R.reachable(nm, [h] + R.pc + R.base)
    c.part("convergence test", conv_obligation, c)
    f = R.ex.field
    H = R.hyps()
    c.eq("the sink temperature is the requested one", R.stf("temp", "sink"), R.inp("temp_sink"), R.base)
    c.eq("the source temperature is the requested one", R.stf("temp", "source"), R.inp("temp_source"), R.base)
    R.hx = None
    Results.hx_states(HxView(R))
    ap = {k: R.m(k, "approach", "f64") for k in ("chx", "regen", "hhx")}
    imb = R.stf("regen_imbalance", 0)
    chx = add(R.inp("temp_sink"), ap["chx"])
    hhx = sub(R.inp("temp_source"), ap["hhx"])
    reg = regen_spec(chx, hhx, ap["regen"], imb)[0]
    new = {("chx",): chx, ("hhx",): hhx, ("regen", "cold"): reg["cold"], ("regen", "avg"): reg["avg"], ("regen", "hot"): reg["hot"]}
    tol = f(R.a["settings"], "loop_tol", "outer")
    goals = {}
    for p, w in new.items():
        g = conv(f(tol, "abs"), f(tol, "rel"), R.stf("temp", *p), R.S(w))
        goals[p] = g
        R.bool_ob("reported %s temperature agrees with the components within both outer tolerances" % "/".join(p), g, H)
    mo = f(R.a["settings"], "max_iters", "outer")
    R.bool_ob("success takes at least one outer iteration", le(intc(1), mo), H)
    ko = loop_vars(R, mo)
    rng = [x for k in ko for x in (le(intc(0), k), lt(k, mo))]
    R.bool_ob("an outer iteration whose temperatures agree is never an outer-loop error", tm.not_(tm.and_(*goals.values())), [R.outer] + R.pc + R.base + rng)
    R.bool_ob("a run succeeds or reports one of the two errors", tm.or_(R.ok, R.inner, R.outer), R.pc + R.base)


class HxView:
    """the finished run seen as Results sees an engine"""

    def __init__(self, R):
        self.__dict__["R"] = R

    def __getattr__(self, k):
        return getattr(self.R, k)

    def __setattr__(self, k, v):
        setattr(self.R, k, v)


# ---- C07 ---------------------------------------------------------------------
def c07(c):
    R = Run(c)
    f = R.ex.field
    c.vacuity("a resolution", R.base)
    n, time = R.res, R.col("time")
    last = time(sub(n, intc(1)))

    def avg(y):
        return div(trapz(n, time, y), last)

    P = R.col("P")
    hy = list(R.base)

    def pressure():
        c.eq("average pressure is the time average over the cycle", R.stf("pres", "avg"), avg(P), hy)
        c.eq("maximum pressure is that of the series", R.stf("pres", "max"), tm.binder("maxs", n, P), hy)
        c.eq("minimum pressure is that of the series", R.stf("pres", "min"), tm.binder("mins", n, P), hy)
        c.eq("initial pressure is that of the series", R.stf("pres", "t_zero"), P(intc(0)), hy)

    def mass():
        for k, a, b in (("chx", "m_dot_ck", "m_dot_kr"), ("regen", "m_dot_kr", "m_dot_rl"), ("hhx", "m_dot_rl", "m_dot_le")):
            A, B = R.col(a), R.col(b)
            c.eq("average mass flow of %s" % k, R.stf("mass_flow", k), avg(lambda i: tm.fn("abs", mul(HALF, add(A(i), B(i))))), hy)

    def heat():
        hf = {k: R.stf("heat_flow", k) for k in ("chx", "regen", "hhx")}
        c.eq("average heat flow of regen", hf["regen"], avg(R.col("Q_dot_r")), hy)
        args = None
        for k in ("chx", "hhx"):
            for s in tm.subterms(hf[k]):
                if s.op == "app" and str(s.args[0]).startswith("ws::WorkingSpaces::thermal_resistance") and args is None:
                    args = s.args[1:]
        args = args or R.ws_args()
        Rt = R.ex.uf("ws::ThermalResistance", "ws::WorkingSpaces::thermal_resistance", args)
        allowed = [R.ws_args()]
        pres = []
        flatten(f(R.state, "pres"), pres)
        allowed.append(args[: len(args) - len(pres)] + tuple(R.S(x) for x in pres))
        c.ob("the thermal resistances are those of the drive for this cycle", tm.or_(*[tm.and_(*[tm.eq(x, y) for x, y in zip(args, w)]) for w in allowed if len(w) == len(args)]), hy)
        for k, series, T_, q, sign in (("chx", "Q_dot_k", "T_c", "comp", 1), ("hhx", "Q_dot_l", "T_e", "exp", -1)):
            r = f(Rt, q)
            Tx, temp, Q = R.col(T_), R.stf("temp", k), R.col(series)
            cond = lambda i: mul(num(sign), div(sub(Tx(i), temp), r))
            c.eq("average heat flow of %s includes conduction from the working space" % k, hf[k], add(avg(Q), avg(cond)), hy + [tm.not_(tm.eq(r, tm.ZERO)), tm.not_(tm.isinf(r))])
            adiabatic = lambda t: tm.subst(tm.subst(t, {tm.isinf(r): TRUE}), {r: tm.INF})
            c.eq("average heat flow of %s with an adiabatic working space" % k, adiabatic(hf[k]), adiabatic(avg(Q)), hy)

    c.part("pressure", pressure)
    c.part("mass flows", mass)
    c.part("heat flows", heat)


# ---- C08 ---------------------------------------------------------------------
def c08(c):
    def temps_ob(name, ex, temp, sink, source, ap, imb, hy=()):
        f = ex.field
        chx, hhx = add(sink, ap["chx"]), sub(source, ap["hhx"])
        reg = regen_spec(chx, hhx, ap["regen"], imb)[0]
        for p, w in ((("sink",), sink), (("source",), source), (("chx",), chx), (("hhx",), hhx), (("regen", "cold"), reg["cold"]), (("regen", "hot"), reg["hot"]), (("regen", "avg"), reg["avg"])):
            c.eq("%s: %s temperature" % (name, "/".join(p)), f(temp, *p), w, hy)

    def hint():
        ex = c.exec()
        b = c.body(["engine::state::State::<T>::new_hint"], ["Components", "T", "RunInputs"], "State<")
        vs = {}
        args = []
        for t in b["locals"][1 : 1 + b["argc"]]:
            n = "comps" if "Components" in t else "inputs" if "RunInputs" in t else "fluid"
            vs[n] = ex.sym(t, n)
            args.append(vs[n])
        st, r = c.run(ex, b, args)
        f = ex.field
        r = ex.strip(st, r)
        comps = ex.strip(st, vs["comps"])
        ap = {}
        for k, tr in (("chx", "chx::ColdHeatExchanger"), ("regen", "regen::Regenerator"), ("hhx", "hhx::HotHeatExchanger")):
            ap[k] = method(ex, st, tr, "initial_approach", f(comps, k), [], "f64")
        inp = ex.strip(st, vs["inputs"])
        temps_ob("initial state", ex, f(r, "temp"), f(inp, "temp_sink"), f(inp, "temp_source"), ap, f(r, "regen_imbalance", 0), st.pc)
        c.eq("initial state: the regenerator is balanced", f(r, "regen_imbalance", 0), tm.ZERO, st.pc)

    def regen():
        ex = c.exec()
        b = c.body(["engine::state::RegenImbalance::regen_temp"], ["RegenImbalance", "f64", "f64", "f64"], "RegenTemp")
        imb = ex.sym(b["locals"][1], "imbalance")
        k, l, a = tm.var("chx"), tm.var("hhx"), tm.var("approach")
        st, r = c.run(ex, b, [imb, k, l, a])
        f = ex.field
        d = f(ex.strip(st, imb), 0)
        reg, X, Y, ca, ha = regen_spec(k, l, a, d)
        for cn, h in (("balanced or hot side wider", le(tm.ZERO, d)), ("cold side wider", tm.not_(le(tm.ZERO, d)))):
            for p in ("cold", "hot", "avg"):
                c.eq("regenerator %s temperature (%s)" % (p, cn), f(r, p), reg[p], [h] + list(st.pc))
        hs = [le(tm.ZERO, a), lt(tm.ZERO, X), lt(X, Y)]
        c.vacuity("a positive temperature difference is left", hs)
        xs = {n: tm.var("m" + n) for n in ("X", "Y", "L", "avg", "k", "l")}
        ln = [lt(tm.ZERO, xs["L"]), lt(mul(xs["X"], xs["L"]), sub(xs["Y"], xs["X"])), lt(sub(xs["Y"], xs["X"]), mul(xs["Y"], xs["L"]))]
        hyp = [lt(tm.ZERO, xs["X"]), lt(xs["X"], xs["Y"]), tm.eq(mul(xs["avg"], xs["L"]), sub(xs["Y"], xs["X"])), le(xs["k"], xs["X"]), le(xs["Y"], xs["l"])] + ln
        c.ob("the logarithmic mean is above the cold end", lt(xs["k"], xs["avg"]), hyp)
        c.ob("the logarithmic mean is below the hot end", lt(xs["avg"], xs["l"]), hyp)
        c.ob("half an approach inside both ends", tm.and_(le(k, X), le(Y, l)), [le(tm.ZERO, a)])
        c.note("ln: 1 - 1/x < ln x < x - 1 for x > 1")

    def update():
        ex = c.exec()
        b = c.body(["engine::state::State::<T>::update"], ["State<", "Components", "Values", "ConvergenceTolerance"], "Result<")
        ls = b["locals"]
        s, comps, vals, tol = [ex.sym(t, n) for t, n in zip(ls[1:], ("state", "comps", "values", "tol"))]
        n = add(intc(2), tm.var("extra", "I"))
        vals = with_len(vals, n)
        st0 = St({}, ())
        st0.assume(le(intc(0), tm.var("extra", "I")))
        st, r = c.run(ex, b, [s, comps, vals, tol], st0)
        f = ex.field
        if not isinstance(r, EnumV):
            raise Unsupported("result of State::update")
        o = c.p.variant_index(r.ty, "Ok")
        new = ex.strip(st, r.vs[o][0])
        old = ex.strip(st, s)
        hy = [tm.eq(ex.disc(st, r), intc(o))] + list(st.pc)
        # approaches for the conditions of the new state at the old temperatures
        V = type("V", (), {})()
        V.ex, V.st, V.c = ex, st, c
        V.comps = {k: f(ex.strip(st, comps), k) for k in ("ws", "chx", "regen", "hhx")}
        V.state = ex.struct(old.ty, **{k: f(old if k in ("fluid", "temp") else new, k) for k in ("fluid", "pres", "temp", "mass_flow", "heat_flow", "regen_imbalance")})
        V.ws_state = None
        V.fluid = lambda name, temp, pres: method(ex, st, "fluid::Fluid", name, f(old, "fluid"), [temp, pres], "f64")
        Results.hx_states(V)
        ap = {k: Results.m(V, k, "approach", "f64") for k in ("chx", "regen", "hhx")}
        temps_ob("next state", ex, f(new, "temp"), f(old, "temp", "sink"), f(old, "temp", "source"), ap, f(new, "regen_imbalance", 0), list(st.pc))

    c.part("initial state", hint)
    c.part("regenerator temperatures", regen)
    c.part("next state", update)
