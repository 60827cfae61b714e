"""C21: no panic is reachable in a run, in building its results and in the implemented components."""
import time
from . import prove as pv
from . import term as tm
from .term import T, TRUE, FALSE, intc, num, add, le, lt
from .spec import *
from .specs_run import Run, holds
from .specs_results import Results
from .specs_comp import MODELS, TRAITS as TRAIT_FIELDS

TRAITS = ("chx::ColdHeatExchanger", "regen::Regenerator", "hhx::HotHeatExchanger", "ws::WorkingSpaces", "fluid::Fluid", "state_equations::solver::MatrixDecomposition")
# documented as not implemented (their methods are todo!())
NOT_YET = ("::gpu3::", "::mod2::", "::ni_gpu3::", "::ni_mod2::")


def report(c, what, panics, hyps, S=lambda t: t):
    """every recorded panic is unreachable"""
    groups = {}
    for pc, cond, where in panics:
        groups.setdefault(str(where), []).append((pc, cond))
    c.obs.append(Ob("%s: every panicking site on its paths is recorded (%d)" % (what, len(groups)), "proved", "symbolic execution", "", 0.0))
    for where, xs in sorted(groups.items()):
        t0 = time.time()
        bad = None
        for pc, cond in xs:
            h = [S(x) for x in list(pc) + list(hyps) if x is not TRUE]
            g = S(cond)
            if not holds(g, h) and not pv.prove(g, tuple(h), timeout=8000):
                bad = {"goal": tm.show(g)[:1000], "hypotheses": [tm.show(x)[:300] for x in h[-12:]]}
                break
        c.obs.append(Ob("%s: no panic at %s" % (what, where[:160]), "unknown" if bad else "proved", "-" if bad else "z3", bad or "", time.time() - t0))


def c21(c):
    def engine():
        R = Run(c, panics=True)
        n = len(R.ex.panics)
        report(c, "Engine::run", R.ex.panics[:n], R.base, R.S)
        R.system()
        report(c, "the integrated system", R.ex.panics[n:], R.base, R.S)

    def results():
        R = Results(c, panics=True)
        report(c, "RunResults::from", R.ex.panics, R.hyps)

    def solver():
        bs = [b for b in c.p.d["bodies"] if b["path"].endswith("state_equations::solver::solve") and not b["external"]]
        if not bs:
            raise Lost("solve")
        for b in bs[:1]:
            ex = c.exec()
            ex.panics = []
            c.run(ex, b, [ex.sym(t, "a%d" % i) for i, t in enumerate(b["locals"][1 : 1 + b["argc"]])])
            report(c, "the solver of the state equations", ex.panics, [])

    def methods():
        for b in c.p.d["bodies"]:
            p = b["path"]
            if b["external"] or b["closure"] or not p.startswith("<") or not any(" as %s>::" % t in p for t in TRAITS) or any(x in p for x in NOT_YET):
                continue
            ex = c.exec()
            ex.panics = []
            st = St({}, ())
            args = []
            for i, t in enumerate(b["locals"][1 : 1 + b["argc"]]):
                args.append(ex.sym(t, "a%d" % i))
            st, r = c.run(ex, b, args, st)
            report(c, p, ex.panics, [])

    def whole(bn):
        b = c.body([bn])
        ex = c.exec()
        ex.panics = []
        found = 0
        for x in c.p.d["bodies"]:
            if x["closure"] or x["external"]:
                continue
            if x["path"].endswith("::run") and x["path"].startswith("engine::Engine") or "api::RunResults as std::convert::From" in x["path"]:
                ex.contracts[x["path"]] = lambda ex, st, args, f, dty: [(st, ex.sym(dty, "res"))]
                found += 1
        if found < 2:
            raise Lost("Engine::run")
        cfg = ex.sym("config::Config", "config")
        if b["locals"][1] != "config::Config":
            ex.contracts["std::convert::Into::into"] = lambda ex, st, args, f, dty: [(st, args[0])] if f.get("kind") == "unresolved" else None
        hy = []
        fl = ex.field(cfg, "engine", "fluid")
        for i, v in fl.vs.items():
            m = v[0]
            hy.append(tm.eq(m.disc, intc(c.p.variant_index(m.ty, "IdealGas"))))
        for k in TRAIT_FIELDS:
            o = ex.field(cfg, "engine", "components", k)
            ok = FALSE
            for n in MODELS[k]:
                ok = tm.or_(ok, tm.eq(o.disc, intc(c.p.variant_index(o.ty, n))))
            hy.append(ok)
        c.run(ex, b, [cfg])
        report(c, bn, ex.panics, hy)

    c.part("run_engine", lambda: whole("api::run_engine"))
    c.part("engine", engine)
    c.part("results", results)
    c.part("solver", solver)
    c.part("components and fluids", methods)
    c.note("lengths and indices are below the machine's limits (additions of indices do not overflow)")
    c.note("no panic inside nalgebra, ode_solvers or the components and fluids of the user; shared cells are not borrowed twice")
