"""Contracts of the functions of /repo that callers are verified against, and of the calls that
are generic in the code under test.  A contract listed here as `proved` is itself an obligation
of the property named with it; the others are assumptions and are reported as such."""
from . import term as tm
from .term import T, intc
from .values import *
from .exec import Unsupported, simp
from .models import solution


def result(ex, dty, ok, okv, errv=None):
    """Result<..> that is Ok(okv) when ok holds"""
    o, e = ex.p.variant_index(dty, "Ok"), ex.p.variant_index(dty, "Err")
    ev = errv if errv is not None else OpaqueV("error", tm.var("error", "O"))
    return EnumV(dty, tm.ite(ok, intc(o), intc(e)), {o: (okv,), e: (ev,)})


def linear_solver(ex, st, args, f, dty):
    """`MatrixDecomposition::solve` of an arbitrary decomposition: Ok(x) only with A x = b
    (proved for the exported decompositions by C01)"""
    if f.get("kind") != "unresolved" or len(args) != 2:
        return None
    a, b = ex.strip(st, args[0]), ex.strip(st, args[1])
    if not (isinstance(a, MatV) and isinstance(b, MatV) and a.r == a.c == b.r and b.c == 1):
        return None
    t = ex.p.ty(dty)
    if t is None or not t["path"].endswith("Result"):
        return None
    x, rows = solution(ex, a, b)
    ok = tm.app("solve.ok:T", tuple(a.d) + tuple(b.d), "B")
    ex.solves.append({"kind": "T", "a": a, "b": b, "x": x, "ok": ok, "exact": True, "rows": rows})
    return [(st, result(ex, dty, ok, MatV(b.r, 1, x)))]


class Sol:
    """contract of the state-equation solver at its callers: some solution of the state equations
    for exactly these inputs, or an error"""

    def __init__(self, name="SOL"):
        self.name = name
        self.calls = []

    def __call__(self, ex, st, args, f, dty):
        t = ex.p.ty(dty)
        ins = []
        flatten(ex.strip(st, args[0]), ins)
        ins = [tm.canon(simp(st.pc, x)) if x.sort in "RI" else simp(st.pc, x) for x in ins]
        hint = []
        for a in args[1:]:
            flatten(ex.strip(st, a), hint)
        hint = [tm.canon(simp(st.pc, x)) if x.sort in "RI" else x for x in hint]
        key = tuple(ins) + tuple(hint)
        o = ex.p.variant_index(dty, "Ok")
        okty = t["args"][0] if t.get("args") else None
        v = ex.uf(okty, self.name, key)
        ok = tm.app(self.name + ".ok", key, "B")
        self.calls.append({"inputs": ex.strip(st, args[0]), "key": key, "nin": len(ins), "value": v, "ok": ok, "pc": st.pc})
        return [(st, result(ex, dty, ok, v))]


def find_fn(prog, names, params=None, ret=None):
    """bodies with one of these paths (by last segments), else those with this signature"""
    for n in names:
        bs = [b for b in prog.d["bodies"] if b["path"] == n or b["path"].endswith("::" + n)]
        if bs:
            return bs
    if params is None:
        return []
    out = []
    for b in prog.d["bodies"]:
        if b["closure"] or b["external"]:
            continue
        ps = b["locals"][1 : 1 + b["argc"]]
        if len(ps) == len(params) and all(p in x for p, x in zip(params, ps)) and (ret is None or ret in b["locals"][0]):
            out.append(b)
    return out
