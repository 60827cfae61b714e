"""A goal p = 0 from hypotheses q_i = 0: p as a combination of the q_i with coefficients that are
rational multiples of given factors (exact, checked by expansion)."""
from fractions import Fraction
from . import term as tm


def combination(goal, eqs, factors):
    """rational c_ij with goal == sum c_ij * factors[j] * eqs[i], or None"""
    g = tm.norm(goal)
    if not g.d:
        return []
    cols = []
    for i, e in enumerate(eqs):
        p = tm.norm(e)
        if not p.d:
            continue
        for j, f in enumerate(factors):
            cols.append(((i, j), tm.pmul(p, tm.norm(f)).d))
    # keep columns that can contribute: sparse gaussian elimination over the monomials
    pivots = []  # (monomial, {mono: coeff}, combo)

    def reduce_(row, combo):
        row, combo = dict(row), dict(combo)
        for m, pr, pc in pivots:
            k = row.get(m)
            if k:
                f = k / pr[m]
                for mm, v in pr.items():
                    nv = row.get(mm, 0) - f * v
                    if nv:
                        row[mm] = nv
                    else:
                        row.pop(mm, None)
                for mm, v in pc.items():
                    combo[mm] = combo.get(mm, 0) - f * v
        return row, combo

    for key, d in cols:
        row, combo = reduce_(d, {key: Fraction(1)})
        if row:
            m = min(row, key=lambda m: tuple((a.id, e) for a, e in m))
            pivots.append((m, row, combo))
    row, combo = reduce_(g.d, {})
    if row:
        return None
    out = [(k, -v) for k, v in combo.items() if v]
    # independent check
    tot = tm.Poly({})
    for (i, j), v in out:
        p = tm.pmul(tm.norm(eqs[i]), tm.norm(factors[j]))
        tot = tm.padd(tot, p, v)
    d = tm.padd(tot, g, -1)
    return out if not d.d else None
