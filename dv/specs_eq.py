"""C01, C02: the state equations of one instant."""
from . import term as tm
from .term import T, TRUE, FALSE, intc, num, add, sub, mul, div, neg, lt, le
from .spec import *
from .lincomb import combination

ROWS = ("comp", "chx", "regen", "hhx", "exp")


def groups_of(v, ex):
    """the linear systems whose solutions the value depends on"""
    fl = []
    flatten(v, fl)
    seen = set()
    for t in fl:
        for s in tm.subterms(t):
            if s.op == "app" and str(s.args[0]).startswith(("linsolve", "svdsolve", "cholsolve")):
                seen.add(s)
    return seen


class Instant:
    """solve(inputs, hint) for arbitrary inputs, hint and decomposition"""

    def __init__(self, c):
        self.c = c
        ex = self.ex = c.exec()
        ex.summary_first = True
        ex.count_first = 0
        b = c.body(["state_equations::solver::solve"], ["Inputs", "FlowDirection"], "Solution")
        args = []
        for i in range(b["argc"]):
            args.append(ex.sym(b["locals"][i + 1], ["in", "hint", "x2", "x3"][i]))
        ins = [a for a, ty in zip(args, b["locals"][1:]) if "Inputs" in ty]
        if not ins:
            raise Lost("solve")
        self.inp = ex.strip(St({}, ()), ins[0])
        st, r = c.run(ex, b, args)
        self.st = st
        o = c.p.variant_index(r.ty, "Ok")
        self.okc = tm.eq(ex.disc(st, r), intc(o))
        self.sol = r.vs[o][0]
        # name the solutions of the linear systems
        keys = {}
        used = groups_of(Tup("t", [r]), ex)
        sub_, rows = {}, []
        g = 0
        for s in ex.solves:
            key = tuple(s["a"].d) + tuple(s["b"].d)
            if key in keys:
                continue
            keys[key] = g
            names = [tm.var("x%d_%d" % (g, j)) for j in range(len(s["x"]))]
            sub_.update(dict(zip(s["x"], names)))
            okn = tm.var("ok%d" % g, "B")
            sub_[s["ok"]] = okn
            if s["exact"] and any(x in used for x in s["x"]):
                rows.append((okn, s, names))
            g += 1
        self.hyps = []
        m = sub_
        # arbitrary values of the loop state: plain variables
        hv = {}
        for t in self.terms([self.okc, self.sol] + [x for _, s, _ in rows for x in s["a"].d]):
            for s in tm.subterms(t):
                if s.op == "app" and str(s.args[0]).startswith("hv!"):
                    hv.setdefault(s, tm.var("dir%d" % len(hv), s.sort))
        S = lambda t: tm.subst(tm.subst(t, m), hv)
        self.S = S
        self.okc = S(self.okc)
        self.hyps += [S(x) for x in st.pc]
        for okn, s, names in rows:
            a = s["a"]
            for i in range(a.r):
                lhs = add(*[mul(S(a.get(i, j)), names[j]) for j in range(a.r)])
                self.hyps.append(tm.implies(okn, tm.eq(lhs, S(s["b"].d[i]))))
        self.groups = len(rows)
        f = ex.field
        self.settled = {}
        I = lambda *p: f(self.inp, *p)
        self.I = I
        self.x = lambda n: S(f(self.sol, n))
        self.raw = lambda t: t
        # choices that the path condition settles
        light = self.light_ = [self.okc] + [h for h in self.hyps if not self.data(h)]
        conds = sorted({s.args[0] for n in self.unknowns() for s in tm.subterms(S(f(self.sol, n))) if s.op == "ite"}, key=lambda t: t.id if hasattr(t, "id") else 0)
        for cd in conds:
            if self.data(cd):
                continue
            if pv.z3_prove(cd, light, 5000, False):
                self.settled[cd] = TRUE
            elif pv.z3_prove(tm.not_(cd), light, 5000, False):
                self.settled[cd] = FALSE
        if self.settled:
            S0 = S
            S = lambda t: self.settle(S0(t))
            self.S = S
            self.x = lambda n: S(f(self.sol, n))
        self.rows = [(okn, [(add(*[mul(S(s["a"].get(i, j)), names[j]) for j in range(s["a"].r)]), S(s["b"].d[i])) for i in range(s["a"].r)]) for okn, s, names in rows]
        # scales that rows are divided by: non-zero, hence plain factors
        self.scales = []
        den = {s.args[1] for _, rs in self.rows for l, r in rs for t in (l, r) for s in tm.subterms(t) if s.op == "div"}
        for d in sorted(den, key=tm.show):
            if d.op in ("var", "num") or d.sort != "R":
                continue
            if pv.prove(tm.not_(tm.eq(d, tm.ZERO)), (tm.not_(tm.eq(I("enth_norm"), tm.ZERO)),)):
                self.scales.append((d, tm.var("scale%d" % len(self.scales))))
        if self.scales:
            sc = dict(self.scales)
            self.rows = [(o, [(tm.subst(l, sc), tm.subst(r, sc)) for l, r in rs]) for o, rs in self.rows]
        self.back = {v: k for k, v in m.items()}
        self.back.update({v: k for k, v in hv.items()})
        self.cases_ = None
        self.base = [tm.not_(tm.eq(I("enth_norm"), tm.ZERO)), self.okc] + self.hyps

    def unknowns(self):
        return ("m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "dP_dt", "dTc_dt", "dTe_dt", "Q_dot_k", "Q_dot_r", "Q_dot_l")

    def data(self, t):
        return any(s.op == "var" and str(s.args[0]).startswith("in.") for s in tm.subterms(t))

    def light(self):
        return self.light_[1:]

    def settle(self, t):
        return simp(tuple(c if v is TRUE else tm.not_(c) for c, v in self.settled.items()), tm.subst(t, {c: v for c, v in self.settled.items()}))

    def cases(self):
        """one case per combination of flow signs that a returned solution can have: the system
        solved in that case"""
        if self.cases_ is not None:
            return self.cases_
        import itertools

        dirs = {s for _, rs in self.rows for l, r in rs for s in tm.subterms(l) if s.op == "var" and str(s.args[0]).startswith("dir")}
        pcs = [self.okc] + [h for h in self.hyps if not self.data(h)]
        out = []
        for leaf in self.leaves(pcs):
            at = lambda t, leaf=leaf: self.within(t, leaf)
            flows = [at(self.x(n)) for n in ("m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le")]
            for signs in itertools.product((True, False), repeat=4):
                cs = leaf + [le(tm.ZERO, f) if s else tm.not_(le(tm.ZERO, f)) for f, s in zip(flows, signs)]
                hy = pcs + cs
                if pv.z3_prove(FALSE, hy, 5000, False):
                    continue
                m = {}
                for d in dirs:
                    for v in range(3):
                        if pv.z3_prove(tm.eq(d, intc(v)), hy, 5000, False):
                            m[d] = intc(v)
                            break
                rows = []
                for okn, rs in self.rows:
                    if not pv.z3_prove(okn, hy, 5000, False):
                        continue
                    rs = [sub(tm.subst(l, m), tm.subst(r, m)) for l, r in rs]
                    if leaf:
                        rs = self.decided([at(q) for q in rs], hy)
                    rows += [simp(tuple(cs), q) for q in rs]
                out.append((at, cs, rows))
        self.cases_ = out
        return out

    def within(self, t, leaf):
        """t where these conditions hold"""
        if not leaf:
            return t
        return simp(tuple(leaf), tm.subst(t, {c.args[0] if c.op == "not" else c: FALSE if c.op == "not" else TRUE for c in leaf}))

    def leaves(self, pcs):
        """the attempts that a returned solution can come from, where they are told apart"""
        out, todo = [], [[]]
        while todo:
            leaf = todo.pop()
            if len(out) + len(todo) > 64:
                raise Unsupported("too many ways of returning a solution")
            sup = {c.args[0] if c.op == "not" else c: FALSE if c.op == "not" else TRUE for c in leaf}
            c = None
            for n in self.unknowns():
                t = tm.subst(self.x(n), sup)
                if c is None and t.op == "ite" and not self.data(t.args[0]):
                    c = t.args[0]
            if c is None:
                out.append(leaf)
                continue
            for h in (c, tm.not_(c)):
                if not pv.z3_prove(FALSE, pcs + leaf + [h], 5000, False):
                    todo.append(leaf + [h])
        return out

    def decided(self, ts, hy):
        """choices inside the terms that the hypotheses settle"""
        known = {}
        for t in ts:
            for s in tm.subterms(t):
                if s.op == "ite" and s.args[0] not in known and not self.data(s.args[0]):
                    c = s.args[0]
                    known[c] = TRUE if pv.z3_prove(c, hy, 5000, False) else FALSE if pv.z3_prove(tm.not_(c), hy, 5000, False) else c
        return [tm.subst(t, {c: v for c, v in known.items() if v is not c}) for t in ts]

    def zero(self, name, expr):
        """expr = 0 in every returned solution"""
        c = self.c
        t0 = time.time()
        fac = [tm.ONE, self.I("enth_norm")] + [v for _, v in self.scales]
        fac2 = fac + [self.I(k, "enth") for k in ("comp", "chx", "hhx", "exp")] + [self.I("regen", "enth_cold"), self.I("regen", "enth_hot")]
        ok = bool(self.cases())
        for at, cs, rows in self.cases():
            g = simp(tuple(cs), at(expr))
            if combination(g, rows, fac) is None and combination(g, rows, fac2) is None:
                ok = False
                break
        if ok:
            c.obs.append(Ob(name, "proved", "ring (combination of the solved rows, %d sign cases)" % len(self.cases()), "", time.time() - t0))
            return True
        goal = tm.eq(tm.subst(expr, self.back), tm.ZERO)
        hy = [tm.subst(h, self.back) for h in [self.base[0], self.okc]] + list(self.st.pc)
        hints = {"hv!*": lambda u: int(u * 2), "k!*": lambda u: 0, "solve.ok*": lambda u: True, "hint*": lambda u: int(u * 2)}
        env = pv.refute(goal, hy, tries=600, seed=c.seed, hints=hints) or pv.refute_near(goal, hy, tries=2000, seed=c.seed, hints=hints, seconds=30)
        c.obs.append(Ob(name, "refuted" if env else "unknown", "numeric countermodel" if env else "-", {"model": env.show() if env else None, "goal": tm.show(expr)[:2000]}, time.time() - t0))
        return False

    def terms(self, vs):
        fl = []
        for v in vs:
            flatten(v, fl) if not isinstance(v, T) else fl.append(v)
        return fl

    # ---- specification ---------------------------------------------------
    def h(self, a, b, flow):
        return tm.ite(le(tm.ZERO, flow), a, b)

    def balances(self):
        I, x = self.I, self.x
        mck, mkr, mrl, mle = x("m_dot_ck"), x("m_dot_kr"), x("m_dot_rl"), x("m_dot_le")
        dP = x("dP_dt")
        hck = self.h(I("comp", "enth"), I("chx", "enth"), mck)
        hkr = self.h(I("chx", "enth"), I("regen", "enth_cold"), mkr)
        hrl = self.h(I("regen", "enth_hot"), I("hhx", "enth"), mrl)
        hle = self.h(I("hhx", "enth"), I("exp", "enth"), mle)
        E = [mul(hck, mck), mul(hkr, mkr), mul(hrl, mrl), mul(hle, mle)]

        def dm(k, dT=None):  # rate of change of mass at constant volume
            t = mul(I(k, "dd_dP_T"), dP)
            if dT is not None:
                t = add(t, mul(I(k, "dd_dT_P"), dT))
            return mul(I(k, "vol"), t)

        def dU(k, dT=None):  # rate of change of internal energy at constant volume
            t = mul(add(mul(I(k, "dens"), I(k, "du_dP_T")), mul(I(k, "inte"), I(k, "dd_dP_T"))), dP)
            if dT is not None:
                t = add(t, mul(add(mul(I(k, "dens"), I(k, "du_dT_P")), mul(I(k, "inte"), I(k, "dd_dT_P"))), dT))
            return mul(I(k, "vol"), t)

        def work(k):  # displacement work and energy of the displaced gas
            return mul(add(I("pres"), mul(I(k, "dens"), I(k, "inte"))), I(k, "dV_dt"))

        dTc, dTe = x("dTc_dt"), x("dTe_dt")
        mass = {
            "compression space": add(dm("comp", dTc), mul(I("comp", "dens"), I("comp", "dV_dt")), mck),
            "cold heat exchanger": add(dm("chx"), mkr, neg(mck)),
            "regenerator": add(dm("regen"), mrl, neg(mkr)),
            "hot heat exchanger": add(dm("hhx"), mle, neg(mrl)),
            "expansion space": add(dm("exp", dTe), mul(I("exp", "dens"), I("exp", "dV_dt")), neg(mle)),
        }

        def energy(E):
            return {
                "compression space": add(dU("comp", dTc), work("comp"), I("comp", "Q_dot"), E[0]),
                "cold heat exchanger": add(dU("chx"), E[1], neg(E[0]), x("Q_dot_k")),
                "regenerator": add(dU("regen"), E[2], neg(E[1]), x("Q_dot_r")),
                "hot heat exchanger": add(dU("hhx"), E[3], neg(E[2]), neg(x("Q_dot_l"))),
                "expansion space": add(dU("exp", dTe), work("exp"), I("exp", "Q_dot"), neg(E[3])),
            }

        return mass, energy(E), energy([tm.ZERO] * 4), E


def decompositions(c):
    for f in c.p.fns:
        if not (f.get("trait") or "").endswith("MatrixDecomposition") or f["name"] != "solve" or not f.get("self_ty"):
            continue
        yield f


def c01(c):
    I = Instant(c)
    c.vacuity("non-zero normalisation", I.base[:1])
    mass, energy, free, E = I.balances()
    for k in mass:
        I.zero("mass balance of the %s" % k, mass[k])
    for k in energy:
        I.zero("energy balance of the %s" % k, energy[k])
    exported(c)
    c.note("the linear solver of an arbitrary user-supplied MatrixDecomposition returns Ok(x) only with A x = b; for the exported LU, QR and SVD decompositions this is proved from the assumed contracts of nalgebra's lu/qr/svd solve (exact for non-singular matrices, no singular value cut off; known finding KF3: nalgebra's svd breaks this for isolated matrices)")


def exported(c):
    """every exported decomposition solves the system it is given"""
    n = 0
    for f in decompositions(c):
        name = f["self_ty"].rsplit("::", 1)[1]
        if name == "Cholesky":
            c.note("the Cholesky decomposition is not exported and never used (the state equations are not symmetric)")
            continue
        bs = [b for b in c.p.d["bodies"] if b["id"] == f["id"]]
        if not bs:
            continue
        b = bs[0]
        ex = c.exec()
        A, B = ex.sym(b["locals"][1], "A"), ex.sym(b["locals"][2], "B")
        st, r = c.run(ex, b, [A, B])
        a_, b_ = ex.strip(st, A), ex.strip(st, B)
        o = c.p.variant_index(r.ty, "Ok")
        x = ex.strip(st, r.vs[o][0])
        hy = [tm.eq(ex.disc(st, r), intc(o))] + list(st.pc)
        used = groups_of(x, ex)
        m = {}
        for g, s in enumerate(ex.solves):
            if not any(t in used for t in s["x"]):
                continue
            names = [tm.var("y%d_%d" % (g, j)) for j in range(len(s["x"]))]
            m.update(dict(zip(s["x"], names)))
            if s["exact"]:
                for lhs, rhs in s["rows"]:
                    hy.append(tm.implies(s["ok"], tm.eq(tm.subst(lhs, m), rhs)))
        goal = tm.and_(*[tm.eq(add(*[mul(a_.get(i, j), tm.subst(x.d[j], m)) for j in range(a_.r)]), b_.d[i]) for i in range(a_.r)])
        c.ob("%s returns a solution of the given system" % name, goal, hy)
        n += 1
    if not n:
        raise Lost("MatrixDecomposition::solve")


def c02(c):
    I = Instant(c)
    c.vacuity("non-zero normalisation", I.base[:1])
    mass, energy, free, E = I.balances()
    # cumulative balances isolate the energy carried across each interface
    names = list(free)
    lab = ["compression space - cold heat exchanger", "cold heat exchanger - regenerator", "regenerator - hot heat exchanger", "hot heat exchanger - expansion space"]
    for i, l in enumerate(lab):
        left = add(*[free[k] for k in names[: i + 1]])
        I.zero("enthalpy across %s is that of the upstream volume" % l, add(left, E[i]))
    right = free[names[4]]
    I.zero("enthalpy received by the expansion space is that of the upstream volume", sub(right, E[3]))
    ks = {s for h in I.base for s in tm.subterms(h) if s.op == "var" and str(s.args[0]).startswith("k!")}
    for k in sorted(ks, key=repr):
        c.ob("directions are found within a bounded number of attempts", le(k, intc(1000)), [I.okc] + I.light())
    c.ob("a returned solution comes from a successful linear solve", tm.or_(*[v for v in {s for s in tm.subterms(I.okc) if s.op == "var" and str(s.args[0]).startswith("ok")}]) if any(s.op == "var" and str(s.args[0]).startswith("ok") for s in tm.subterms(I.okc)) else FALSE, [I.okc] + I.light())
