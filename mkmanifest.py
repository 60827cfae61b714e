"""Writes MANIFEST.json"""
import json

NOTE = {
    "C01": "Unbounded over inputs: the residual of each of the ten balances is an exact consequence of A x = b for the real system matrix. Trusted: nalgebra's LU/QR/SVD factorisation facts, exact real arithmetic.",
    "C02": "Unbounded over inputs and flow directions; the attempt bound is read from the loop. Trusted: the linear-solver contract (proved for the exported decompositions by C01).",
    "C03": "Unbounded over fluids, components, states and times: the inputs handed to the solver are compared field by field with the physical ones.",
    "C04": "Unbounded over settings and components; the Dopri5 stepper is under an assumed contract (points at multiples of dx up to x_end, y the solution of the system it is given).",
    "C05": "Unbounded over iteration counts; the convergence test is under the contract C20 proves.",
    "C06": "Unbounded over iteration counts; the convergence test is under the contract C20 proves.",
    "C07": "Unbounded over series lengths.",
    "C08": "Unbounded over temperatures, approaches and imbalances; ln is constrained by 1-1/x < ln x < x-1.",
    "C09": "Symbolic differentiation of the value terms against the rate terms, all parameters and times.",
    "C10": "All parameters and times; sine and cosine are constrained by their range, periodicity and Pythagoras. Rhombic bounds for eccentricity >= crank radius and connecting rod longer than their sum.",
    "C11": "All temperatures and pressures, both gases; the hydrogen energy derivative is a known finding pinned by a test.",
    "C12": "All temperatures and pressures, both gases; two known findings pinned by tests.",
    "C13": "All configuration values; serde-derived parsing is outside the verifier and covered by a bounded run on generated configurations.",
    "C14": "All configuration values; serde-derived parsing is outside the verifier and covered by a bounded run on generated configurations.",
    "C15": "All engines, series and lengths.",
    "C16": "All engines, series and lengths, finite and infinite resistances.",
    "C17": "All engines, series and lengths.",
    "C18": "All engines, series and lengths.",
    "C19": "All positive conductances, flows and capacities; exp is constrained by its sign and the bound exp(x) > 1 + x.",
    "C21": "Every panicking site (assert, expect, unwrap, index, unsigned subtraction, unreachable) met by the symbolic execution is proved unreachable; panics inside nalgebra and ode_solvers and index overflow are assumed away.",
    "C20": "Bit-precise: IEEE-754 double precision in z3's floating-point theory with reduction lemmas; division is covered by the standard rounding-error model.",
}

CLAIMED = json.load(open("claimed.json"))
REASON = json.load(open("not_applicable.json"))

checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification of the crate's MIR (symbolic execution to verification conditions, polynomial and SMT discharge), failing inputs replayed on the real code",
        "level": "proof",
        "level_note": NOTE[p],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in REASON.items()],
    "notes": "Every check extracts the MIR of /repo's working tree on each run, discharges the obligations of its property, and replays failures on the real code (harness/). See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
