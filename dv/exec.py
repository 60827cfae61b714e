"""Symbolic execution of dumped MIR: generates, for all inputs, the terms a
function returns.  Branches are joined into if-then-else terms; loops are
summarised for an arbitrary iteration."""
import struct
from fractions import Fraction
from . import term as tm
from .term import T, TRUE, FALSE, intc
from .values import *
from .values import _under
import itertools, math, re, sys

sys.setrecursionlimit(20000)


class St:
    __slots__ = ("cells", "pc")

    def __init__(self, cells, pc):
        self.cells = cells
        self.pc = pc

    def fork(self):
        return St(dict(self.cells), self.pc)

    def assume(self, *cs):
        pc = self.pc
        for c in cs:
            if c.op == "and":
                for x in c.args:
                    if x not in pc:
                        pc = pc + (x,)
            elif c is not TRUE and c not in pc:
                pc = pc + (c,)
        self.pc = pc
        return self


def signed(n, ty):
    """the value of the bit pattern `n` of the integer type `ty`"""
    w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty)
    return n - (1 << w) if w and n > 0 and n >> (w - 1) else n


def decide(pc, c):
    """TRUE / FALSE / c under the conjuncts of pc (cheap and sound)"""
    if c in (TRUE, FALSE):
        return c
    if c in pc:
        return TRUE
    n = tm.not_(c)
    if n in pc:
        return FALSE
    if c.op == "and":
        return tm.and_([decide(pc, x) for x in c.args])
    if c.op == "or":
        return tm.or_([decide(pc, x) for x in c.args])
    if c.op == "not":
        r = decide(pc, c.args[0])
        return tm.not_(r)
    if c.op == "eq":
        a, b = c.args
        if tm.isnum(a):
            a, b = b, a
        if tm.isnum(b):
            for p in pc:
                if p.op == "eq":
                    x, y = p.args
                    if tm.isnum(x):
                        x, y = y, x
                    if x is a and tm.isnum(y):
                        return tm.boolc(tm.nval(y) == tm.nval(b))
    if c.op in ("lt", "le", "eq") and c.args[0].sort == "I" and c.args[1].sort == "I":
        return int_decide(pc, c)
    return c


def lin(t):
    """integer term as (dict atom->coef, const)"""
    p = tm.norm(t)
    d, k = {}, Fraction(0)
    for m, c in p.d.items():
        if not m:
            k = c
        else:
            d[m] = c
    return d, k


def int_decide(pc, c):
    """difference reasoning over the integer conjuncts of pc: tries to derive c or its negation
    from at most two conjuncts"""
    ineqs = []  # each: (dict, k) meaning sum + k >= 0

    def ge0(a, b, strict):
        # b - a >= (1 if strict else 0)
        d, k = lin(tm.sub(b, a))
        return d, k - (1 if strict else 0)

    for p in pc:
        neg = False
        q = p
        if q.op == "not":
            neg, q = True, q.args[0]
        if q.op not in ("lt", "le", "eq") or q.args[0].sort != "I" or q.args[1].sort != "I":
            continue
        a, b = q.args
        if q.op == "eq":
            if not neg:
                ineqs.append(ge0(a, b, False))
                ineqs.append(ge0(b, a, False))
        elif q.op == "lt":
            ineqs.append(ge0(b, a, False) if neg else ge0(a, b, True))
        else:
            ineqs.append(ge0(b, a, True) if neg else ge0(a, b, False))

    def holds(g):
        # g - combination constant >= 0 ?
        gd, gk = g
        cands = [({}, Fraction(0))] + ineqs
        for i, x in enumerate(cands):
            for y in cands[i:]:
                d = dict(gd)
                k = gk
                for s in (x, y):
                    for m, cc in s[0].items():
                        v = d.get(m, 0) - cc
                        if v:
                            d[m] = v
                        else:
                            d.pop(m, None)
                    k -= s[1]
                if not d and k >= 0:
                    return True
        return False

    a, b = c.args
    if c.op == "lt":
        if holds(ge0(a, b, True)):
            return TRUE
        if holds(ge0(b, a, False)):
            return FALSE
    elif c.op == "le":
        if holds(ge0(a, b, False)):
            return TRUE
        if holds(ge0(b, a, True)):
            return FALSE
    else:
        if holds(ge0(a, b, True)) or holds(ge0(b, a, True)):
            return FALSE
        if holds(ge0(a, b, False)) and holds(ge0(b, a, False)):
            return TRUE
    return c


def simp(pc, t, memo=None):
    """simplify the if-then-else structure of t under pc"""
    if not any_ite(t):
        return t
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not any_ite(t):
            r = t
        elif t.op == "ite":
            c = decide(pc, go(t.args[0]))
            if c is TRUE:
                r = go(t.args[1])
            elif c is FALSE:
                r = go(t.args[2])
            else:
                r = tm.ite(c, go(t.args[1]), go(t.args[2]))
        else:
            na = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = t if na == t.args else tm.rebuild(t.op, na, t.sort)
        memo[t] = r
        return r

    return go(t)


_anyite = {}


def any_ite(t):
    r = _anyite.get(t)
    if r is None:
        r = t.op == "ite" or any(isinstance(a, T) and any_ite(a) for a in t.args)
        _anyite[t] = r
    return r


# pi multiples that code may name as constants
_PI = {}
for _n, _d in [(1, 1), (2, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8), (1, 180), (4, 1), (3, 2), (1, 360), (3, 4), (8, 1), (1, 30), (1, 60), (1, 90), (2, 3)]:
    _PI[struct.pack("<d", math.pi * _n / _d)] = Fraction(_n, _d)
_IPI = {}
for _n, _d in [(1, 1), (2, 1), (180, 1), (360, 1), (30, 1), (60, 1), (1, 2), (90, 1)]:
    _IPI[struct.pack("<d", _n / math.pi / _d)] = Fraction(_n, _d)


def float_const(bits, w=64):
    if w == 32:
        x = struct.unpack("<f", struct.pack("<I", bits))[0]
    else:
        raw = struct.pack("<Q", bits)
        if raw in _PI:
            return tm.mul(tm.num(_PI[raw]), tm.PI)
        if raw in _IPI:
            return tm.div(tm.num(_IPI[raw]), tm.PI)
        x = struct.unpack("<d", raw)[0]
        n = struct.pack("<d", -x)
        if n in _PI:
            return tm.mul(tm.num(-_PI[n]), tm.PI)
    if x != x:
        return tm.app("nan", ())
    if x == math.inf:
        return tm.INF
    if x == -math.inf:
        return tm.NINF
    return tm.num(Fraction(x))


class RealDom:
    """f64 arithmetic as exact real arithmetic"""

    def const(self, bits, w=64):
        return float_const(bits, w)

    add = staticmethod(tm.add)
    sub = staticmethod(tm.sub)
    mul = staticmethod(tm.mul)
    div = staticmethod(tm.div)
    neg = staticmethod(tm.neg)
    lt = staticmethod(tm.lt)
    le = staticmethod(tm.le)
    eq = staticmethod(tm.eq)

    def rem(self, a, b):
        return tm.app("rem", (a, b))

    def fn(self, name, a):
        return tm.fn(name, a)


class FpDom:
    """f64 arithmetic kept as raw operation trees, for bit-exact reasoning"""

    def const(self, bits, w=64):
        return tm.mk("f.const", (bits,), "R")

    def _b(op, sort="R"):
        return lambda self, a, b: tm.mk("f." + op, (a, b), sort)

    add = _b("add")
    sub = _b("sub")
    mul = _b("mul")
    div = _b("div")
    rem = _b("rem")
    lt = _b("lt", "B")
    le = _b("le", "B")
    eq = _b("eq", "B")

    def neg(self, a):
        return tm.mk("f.neg", (a,), "R")

    def fn(self, name, a):
        return tm.mk("f." + name, (a,), "R")


class Prog:
    def __init__(self, d):
        self.d = d
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.bypath = {}
        for b in d["bodies"]:
            self.bypath.setdefault(b["path"], []).append(b)
        self.types = d["types"]
        self.fns = d["fns"]
        for b in d["bodies"]:
            f = b["file"]
            if 'name: "' in f:
                b["file"] = f.split('name: "', 1)[1].split('"', 1)[0]

    def ty(self, k):
        return self.types.get(k)

    def fields(self, ty, variant=0):
        t = self.types.get(ty)
        if not t or t["k"] != "adt":
            return None
        return [f["name"] for f in t["variants"][variant]["fields"]]

    def variant_index(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["name"] == name:
                return i
        raise Unsupported("variant %s of %s" % (name, ty))

    def variants(self, ty):
        return [v["name"] for v in self.types[ty]["variants"]]

    def impl(self, trait, method, self_ty):
        for f in self.fns:
            if f.get("trait") == trait and f["name"] == method and f.get("self_ty") == self_ty:
                return f
        return None

    def live_flags(self, b, n):
        """named variables of boolean or enum type that are read from block n on, before they are set"""
        if "_live" not in b:
            rpo, pos, succ, _ = self.loops(b)
            named = set()
            for _, pl in b["names"]:
                if isinstance(pl, dict) and not pl["p"]:
                    t = self.ty(b["locals"][pl["l"]])
                    if b["locals"][pl["l"]] == "bool" or t is not None and t["k"] == "adt" and len(t["variants"]) > 1:
                        named.add(pl["l"])
            use, kill = {}, {}
            for m in rpo:
                bl = b["blocks"][m]
                u, d = set(), set()
                for s in bl["s"]:
                    if s[0] == "assign":
                        u |= mentions(s, set(), s[1] if not s[1]["p"] else None) - d
                        if not s[1]["p"]:
                            d.add(s[1]["l"])
                    else:
                        u |= mentions(s, set()) - d
                t = bl["t"]
                whole = t[3] if t[0] == "call" and isinstance(t[3], dict) and not t[3]["p"] else None
                if t[0] != "drop":
                    u |= mentions(t, set(), whole) - d
                if whole is not None:
                    d.add(whole["l"])
                use[m], kill[m] = u & named, d & named
            live = {m: set(use[m]) for m in rpo}
            more = named
            while more:
                more = False
                for m in reversed(rpo):
                    v = use[m].union(*[live[x] for x in succ[m] if x in live]) - (kill[m] - use[m]) if succ[m] else use[m]
                    v = v | use[m]
                    if v != live[m]:
                        live[m] = v
                        more = True
            b["_live"] = live
        return sorted(b["_live"].get(n, ()))

    def loops(self, b):
        """(rpo order, successors, loop headers -> set of blocks)"""
        if "_cfg" in b:
            return b["_cfg"]
        blocks = b["blocks"]
        succ = []
        for bl in blocks:
            t = bl["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == "call":
                s = [] if t[4] is None else [t[4]]
            elif k in ("drop",):
                s = [t[2]]
            elif k == "assert":
                s = [t[3]]
            else:
                s = []
            succ.append(s)
        order, seen = [], set()

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(succ[m])))
                        break
                else:
                    order.append(n)
                    stack.pop()

        dfs(0)
        rpo = order[::-1]
        pos = {n: i for i, n in enumerate(rpo)}
        pred = {n: [] for n in rpo}
        for n in rpo:
            for m in succ[n]:
                pred[m].append(n)
        dom = {rpo[0]: {rpo[0]}}
        allb = set(rpo)
        for n in rpo[1:]:
            dom[n] = allb
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                nd = set.intersection(*[dom[p] for p in pred[n]]) | {n}
                if nd != dom[n]:
                    dom[n] = nd
                    ch = True
        loops = {}
        for n in rpo:
            for m in succ[n]:
                if m in dom[n]:
                    body = {m, n}
                    st = [n] if n != m else []
                    while st:
                        x = st.pop()
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    loops.setdefault(m, set()).update(body)
                elif pos[m] <= pos[n]:
                    raise Unsupported("irreducible control flow")
        b["_cfg"] = (rpo, pos, succ, loops)
        return b["_cfg"]


def merge_states(a, b):
    """join two states"""
    i = 0
    while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
        i += 1
    sa, sb = a.pc[i:], b.pc[i:]
    sbs = set(sb)
    common = [x for x in sa if x in sbs]
    if common:
        sa = [x for x in sa if x not in sbs]
        cs = set(common)
        sb = [x for x in sb if x not in cs]
    sel = None
    sbs = set(sb)
    for x in sa:
        if tm.not_(x) in sbs:
            sel = x
            break
    if sel is None:
        sel = tm.and_(list(sa))
    pc = a.pc[:i] + tuple(common)
    if sel.op == "not" and a is not b:
        a, b, sel = b, a, tm.not_(sel)
        sa, sb = sb, sa
    extra = tm.or_(tm.and_(list(sa)), tm.and_(list(sb)))
    st = St({}, pc)
    # a or (not a and b)  ==  a or b
    if extra is not TRUE:
        rest_a = [x for x in sa if x is not sel]
        nsel = tm.not_(sel)
        rest_b = [x for x in sb if x is not nsel]
        if rest_a != list(sa) and rest_b != list(sb):
            parts = []
            if rest_a:
                parts.append(tm.implies(sel, tm.and_(rest_a)))
            if rest_b:
                parts.append(tm.implies(nsel, tm.and_(rest_b)))
            st.assume(*parts)
        else:
            st.assume(extra)
    cells = st.cells
    for k in a.cells.keys() | b.cells.keys():
        x = a.cells.get(k, POISON)
        y = b.cells.get(k, POISON)
        cells[k] = x if x is y else merge_val(sel, x, y)
    return st


def const_of(v):
    """the value of a flag that is known"""
    if isinstance(v, EnumV):
        v = v.disc
    return v if isinstance(v, T) and (v in (TRUE, FALSE) or tm.isnum(v)) else None


def mentions(j, out, skip=None):
    """locals that a piece of MIR mentions"""
    if isinstance(j, dict):
        if "l" in j and "p" in j and j is not skip:
            out.add(j["l"])
        for v in j.values():
            if isinstance(v, (dict, list)):
                mentions(v, out, skip)
    elif isinstance(j, list):
        for v in j:
            if isinstance(v, (dict, list)):
                mentions(v, out, skip)
    return out


def merge_all(sts):
    sts = [s for s in sts if FALSE not in s.pc]
    if not sts:
        return None
    # pairwise, nearest first: adjacent states share the longest prefixes
    sts = list(sts)
    while len(sts) > 1:
        best, bi = -1, (0, 1)
        for i in range(len(sts)):
            for j in range(i + 1, len(sts)):
                n = 0
                a, b = sts[i].pc, sts[j].pc
                while n < len(a) and n < len(b) and a[n] is b[n]:
                    n += 1
                if n > best:
                    best, bi = n, (i, j)
        i, j = bi
        m = merge_states(sts[i], sts[j])
        sts[i] = m
        del sts[j]
    return sts[0]


class Probe(Exception):
    pass


# integer types: signed, bits
INTS = {"char": (0, 32), "bool": (0, 1), "u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "u128": (0, 128), "usize": (0, 64), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}


class Exec:
    def __init__(self, prog, dom=None):
        self.p = prog
        self.dom = dom or RealDom()
        self.facts = []  # globally valid consequences of assumed contracts
        self.contracts = {}  # body id / path -> fn(ex, st, args, call)
        self.solves = []
        self.odes = []
        self.probe = None
        self.len_eqs = []
        from . import models

        models.install(self)
        self.depth = 0
        self.nframe = itertools.count()
        self.unroll = 40
        self.summary_first = False
        self.panics = None  # when a list: [(path condition, condition that keeps it from panicking, where)]
        self.quiet = 0
        self.count_first = 8  # loops that make no more rounds than this are unrolled
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.opaque_methods = set()
        self.havoc_log = []
        self.maxdepth = 60

    # ---- values ----------------------------------------------------------
    def sym(self, ty, name, idx=()):
        """a fully symbolic value of a Rust type; leaves are named by field path"""
        t = self.p.ty(ty)
        mkv = (lambda n, s: tm.app(n, idx, s)) if idx else (lambda n, s: tm.var(n, s))
        if t is None:
            raise Unsupported("type " + str(ty))
        k = t["k"]
        if k == "float":
            return mkv(name, "R")
        if k == "int":
            return mkv(name, "I")
        if k == "bool":
            return mkv(name, "B")
        if k == "tuple":
            return Tup("()" if not t["elems"] else ty, [self.sym(e, "%s.%d" % (name, i), idx) for i, e in enumerate(t["elems"])])
        if k == "ref":
            return VRef(self.sym(t["to"], name, idx))
        if k == "array":
            return Tup(ty, [self.sym(t["elem"], "%s[%d]" % (name, i), idx) for i in range(t["len"])])
        if k == "slice":
            return self.symseq(t["elem"], name, idx)
        if k == "dyn" or k == "param" or k == "alias":
            return OpaqueV(ty, mkv(name, "O"))
        if k == "adt":
            if t["box"]:
                return BoxV(self.sym(t["args"][0], name, idx))
            if t["path"] in ("std::vec::Vec", "alloc::vec::Vec"):
                return self.symseq(t["args"][0], name, idx)
            if t["path"] == "std::marker::PhantomData":
                return Tup(ty, [])
            m = self.matrix_dims(t)
            if m == "dyn":
                return self.symseq(t["args"][0], name, idx)
            if m:
                r, c = m
                return MatV(r, c, [mkv("%s[%d,%d]" % (name, i, j), "R") for j in range(c) for i in range(r)])
            if t["crate"] != "sett_rs" and not t["enum"]:
                return OpaqueV(ty, mkv(name, "O"))
            if t["enum"]:
                d = mkv(name + "#", "I")
                vs = {}
                for i, v in enumerate(t["variants"]):
                    pre = "%s.%s" % (name, v["name"])
                    vs[i] = tuple(self.sym(f["ty"], pre + "." + f["name"], idx) for f in v["fields"])
                return EnumV(ty, d, vs)
            if t["crate"] == "sett_rs":
                return Tup(ty, [self.sym(f["ty"], name + "." + f["name"], idx) for f in t["variants"][0]["fields"]])
            return OpaqueV(ty, mkv(name, "O"))
        if k == "closure":
            return OpaqueV(ty, mkv(name, "O"))
        raise Unsupported("symbolic value of " + ty)

    def symseq(self, elem, name, idx):
        n = tm.app(name + ".len", idx, "I") if idx else tm.var(name + ".len", "I")
        return SeqV(n, lambda i: self.sym(elem, name, tuple(idx) + (i,)))

    def matrix_dims(self, t):
        """(r, c) for a static nalgebra matrix, 'dyn' for a dynamic column vector"""
        if not t["path"].endswith("::Matrix") or not t["crate"].startswith("nalgebra"):
            return None
        ds = []
        for a in t["args"][1:3]:
            u = self.p.ty(a)
            if u and u["k"] == "adt" and u["path"].endswith("::Const") and u["cargs"]:
                ds.append(u["cargs"][0])
            elif u and u["k"] == "adt" and u["path"].endswith("Dynamic") or (u and u["k"] == "adt" and u["path"].endswith("::Dyn")):
                ds.append("dyn")
            else:
                import re

                m = re.search(r"Const<(\d+)", a)
                if m:
                    ds.append(int(m.group(1)))
                elif "Dyn" in a:
                    ds.append("dyn")
                else:
                    return None
        if ds[0] == "dyn" and ds[1] == 1:
            return "dyn"
        if "dyn" in ds or None in ds:
            return None
        return tuple(ds)

    def uf(self, ty, name, args):
        """result of an uninterpreted function, structured by its type"""
        return self.sym(ty, name, tuple(args)) if args else self.sym(ty, name)

    def field(self, v, *names):
        """field access by name"""
        for nm in names:
            while isinstance(v, (VRef, BoxV)):
                v = v.v
            if isinstance(v, Tup):
                fs = self.p.fields(v.ty)
                if fs is None:
                    if isinstance(nm, int):
                        v = v.fields[nm]
                        continue
                    raise Unsupported("no fields for " + str(v.ty))
                if isinstance(nm, int):
                    v = v.fields[nm]
                elif nm in fs:
                    v = v.fields[fs.index(nm)]
                else:
                    raise Unsupported("field %s of %s" % (nm, v.ty))
            elif isinstance(v, EnumV) and isinstance(nm, tuple):
                v = v.vs[nm[0]][nm[1]]
            else:
                raise Unsupported("field %s of %s" % (nm, type(v).__name__))
        while isinstance(v, VRef):
            v = v.v
        return v

    def struct(self, ty, **kw):
        fs = self.p.fields(ty)
        if fs is None or set(fs) != set(kw):
            raise Unsupported("struct %s has fields %s" % (ty, fs))
        return Tup(ty, [kw[f] for f in fs])

    def enum(self, ty, variant, *payload):
        i = self.p.variant_index(ty, variant)
        return EnumV(ty, intc(i), {i: tuple(payload)})

    # ---- cells and places ------------------------------------------------
    def alloc(self, st, v):
        k = ("heap", next(self.nframe))
        st.cells[k] = v
        return k

    def get1(self, st, v, e):
        """project value v by path element e"""
        while isinstance(v, ChoiceV):
            return merge_val(v.c, self.get1(st, v.a, e), self.get1(st, v.b, e))
        k = e[0]
        if v is POISON:
            return POISON
        if k == "coord":
            return CoordV(v)
        if k == "f" and isinstance(v, CoordV):
            return v.m.d[e[1]]
        if k == "f":
            i = e[1]
            if isinstance(v, Tup):
                return v.fields[i]
            if isinstance(v, DownV):
                fs = v.e.vs.get(v.v)
                if fs is None:
                    return POISON
                return fs[i]
            if isinstance(v, ClosV):
                return v.caps[i]
            if isinstance(v, BoxV):
                return v
            if isinstance(v, (SeqV, MatV)) and i == 0:
                return v  # the storage of a matrix
            if isinstance(v, EnumV) and len(v.vs) == 1:
                return next(iter(v.vs.values()))[i]
            raise Unsupported("field of %s" % type(v).__name__)
        if k == "down":
            if isinstance(v, EnumV):
                return DownV(v, e[1])
            raise Unsupported("downcast of %s" % type(v).__name__)
        if k == "i":
            ix = e[1]
            if isinstance(v, SeqV):
                return v.at(ix)
            if isinstance(v, Tup):
                return SeqV.of(v.fields).at(ix)
            if isinstance(v, MatV) and tm.isnum(ix):
                # the storage of a matrix is an array of columns
                return Tup("array", [v.get(i, int(tm.nval(ix))) for i in range(v.r)])
            raise Unsupported("index of %s" % type(v).__name__)
        if k == "m":
            if isinstance(v, MatV):
                return v.d[e[1]]
            raise Unsupported("matrix index")
        if k == "box":
            if isinstance(v, BoxV):
                return v.v
            raise Unsupported("box deref")
        raise Unsupported("projection " + str(e))

    def put(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == "f":
            i = e[1]
            if v is POISON:
                raise Unsupported("partial initialisation")
            if isinstance(v, Tup):
                fs = list(v.fields)
                fs[i] = self.put(st, fs[i], path[1:], new)
                return Tup(v.ty, fs)
            if isinstance(v, ClosV):
                fs = list(v.caps)
                fs[i] = self.put(st, fs[i], path[1:], new)
                return ClosV(v.id, v.kind, fs)
            if isinstance(v, CoordV):
                d = list(v.m.d)
                d[i] = new
                return MatV(v.m.r, v.m.c, d)
        if k == "coord" and isinstance(v, MatV):
            return self.put(st, CoordV(v), path[1:], new)
        if k == "down" and isinstance(v, EnumV) and len(path) > 1 and path[1][0] == "f":
            fs = list(v.vs[e[1]])
            i = path[1][1]
            fs[i] = self.put(st, fs[i], path[2:], new)
            vs = dict(v.vs)
            vs[e[1]] = tuple(fs)
            return EnumV(v.ty, v.disc, vs)
        if k == "i":
            ix = e[1]
            if isinstance(v, Tup):
                fs = list(v.fields)
                if not tm.isnum(ix):
                    try:
                        return Tup(v.ty, [merge_val(tm.eq(ix, intc(j)), self.put(st, x, path[1:], new), x) for j, x in enumerate(fs)])
                    except NoMerge:
                        raise Unsupported("symbolic array store")
                j = int(tm.nval(ix))
                fs[j] = self.put(st, fs[j], path[1:], new)
                return Tup(v.ty, fs)
            if isinstance(v, SeqV):
                nv = self.put(st, v.at(ix), path[1:], new)
                old = v

                def at(i):
                    return merge_val(decide(st.pc, tm.eq(i, ix)), nv, old.at(i))

                return SeqV(v.n, at)
        if k == "m" and isinstance(v, MatV):
            d = list(v.d)
            d[e[1]] = new
            return MatV(v.r, v.c, d)
        if k == "box" and isinstance(v, BoxV):
            return BoxV(self.put(st, v.v, path[1:], new))
        raise Unsupported("store through %s into %s" % (k, type(v).__name__))

    def rd(self, st, cell, path):
        v = st.cells.get(cell, POISON)
        for e in path:
            v = self.get1(st, v, e)
        return v

    def wr(self, st, cell, path, new):
        if path:
            st.cells[cell] = self.put(st, st.cells.get(cell, POISON), path, new)
        else:
            st.cells[cell] = new

    def locate(self, st, fr, place):
        """('cell', key, path) or ('val', value)"""
        loc = ("cell", (fr, place["l"]), ())
        for e in place["p"]:
            k = e[0]
            if k == "deref":
                v = self.rd(st, loc[1], loc[2]) if loc[0] == "cell" else loc[1]
                if isinstance(v, RefV):
                    loc = ("cell", v.cell, v.path)
                elif isinstance(v, VRef):
                    loc = ("val", v.v)
                elif isinstance(v, BoxV):
                    loc = (loc[0], loc[1], loc[2] + (("box",),)) if loc[0] == "cell" else ("val", v.v)
                elif v is POISON:
                    loc = ("val", POISON)
                elif isinstance(v, ChoiceV):
                    loc = ("val", self.deref(st, v))
                else:
                    raise Unsupported("deref of %s" % type(v).__name__)
                continue
            if k == "f":
                pe = ("f", e[1])
            elif k == "down":
                pe = ("down", e[1])
            elif k == "idx":
                pe = ("i", self.term(self.rd(st, (fr, e[1]), ())))
            elif k == "cidx":
                if e[3]:
                    v = self.rd(st, loc[1], loc[2]) if loc[0] == "cell" else loc[1]
                    n = self.seq(v).n
                    pe = ("i", tm.sub(n, intc(e[1])))
                else:
                    pe = ("i", intc(e[1]))
            elif k == "sub":
                v = self.rd(st, loc[1], loc[2]) if loc[0] == "cell" else loc[1]
                s = self.seq(v)
                lo = intc(e[1])
                hi = tm.sub(s.n, intc(e[2])) if e[3] else intc(e[2])
                loc = ("val", SeqV(tm.sub(hi, lo), lambda i: s.at(tm.add(lo, i))))
                continue
            else:
                raise Unsupported("place " + str(e))
            if loc[0] == "cell":
                loc = ("cell", loc[1], loc[2] + (pe,))
            else:
                loc = ("val", self.get1(st, loc[1], pe))
        return loc

    def deref(self, st, v):
        if isinstance(v, ChoiceV):
            return merge_val(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, (VRef, BoxV)):
            return v.v
        if isinstance(v, RefV):
            return self.rd(st, v.cell, v.path)
        raise Unsupported("deref of %s" % type(v).__name__)

    def strip(self, st, v):
        """follow all references"""
        while isinstance(v, (VRef, RefV, BoxV)) or (isinstance(v, ChoiceV) and isinstance(v.a, (VRef, BoxV))):
            v = self.deref(st, v)
        return v

    def read(self, st, fr, place):
        loc = self.locate(st, fr, place)
        return self.rd(st, loc[1], loc[2]) if loc[0] == "cell" else loc[1]

    def write(self, st, fr, place, v):
        loc = self.locate(st, fr, place)
        if loc[0] != "cell":
            raise Unsupported("store through a shared reference")
        self.wr(st, loc[1], loc[2], v)

    def term(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, ChoiceV):
            return tm.ite(v.c, self.term(v.a), self.term(v.b))
        raise Unsupported("scalar expected, got %s" % type(v).__name__)

    def seq(self, v):
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Tup):
            return SeqV.of(v.fields)
        if isinstance(v, MatV):
            return SeqV.of(v.d)
        if isinstance(v, ChoiceV):
            return self.seq(merge_val(v.c, self.seq(v.a), self.seq(v.b)))
        raise Unsupported("sequence expected, got %s" % type(v).__name__)

    # ---- operands and rvalues ---------------------------------------------
    def const(self, c, ty=None):
        v = c["v"]
        return self.constv(v, c["ty"])

    def constv(self, v, ty):
        k = v[0]
        t = self.p.ty(ty) if ty else None
        if k == "int":
            if t is None:
                raise Unsupported("constant type " + str(ty))
            if t["k"] == "float":
                return self.dom.const(int(v[1]), v[2])
            if t["k"] == "bool":
                return TRUE if v[1] != "0" else FALSE
            if t["k"] in ("int", "char"):
                return intc(signed(int(v[1]), ty))
            if t["k"] == "adt":
                # scalar-layout newtype or field-less enum
                if t["enum"]:
                    ds = t["discrs"]
                    if not any(x["fields"] for x in t["variants"]) and int(v[1]) in ds:
                        i = ds.index(int(v[1]))
                        return EnumV(ty, intc(i), {i: ()})
                elif len(t["variants"][0]["fields"]) == 1:
                    return Tup(ty, [self.constv(v, t["variants"][0]["fields"][0]["ty"])])
            raise Unsupported("constant of type " + ty)
        if k == "fn":
            return FnV(v[1])
        if k == "str":
            return VRef(StrV(v[1]))
        if k == "refto":
            return VRef(self.constv(v[1], t["to"] if t and t["k"] == "ref" else None))
        if k == "agg":
            if t is None:
                raise Unsupported("constant aggregate")
            if t["k"] == "tuple":
                return Tup("()" if not t["elems"] else ty, [self.constv(x, e) for x, e in zip(v[2], t["elems"])])
            if t["k"] == "array" or t["k"] == "slice":
                fs = [self.constv(x, t["elem"]) for x in v[2]]
                return Tup(ty, fs) if t["k"] == "array" else SeqV.of(fs)
            if t["k"] == "adt":
                fs = tuple(self.constv(x, f["ty"]) for x, f in zip(v[2], t["variants"][v[1]]["fields"]))
                if t["enum"]:
                    return EnumV(ty, intc(v[1]), {v[1]: fs})
                return Tup(ty, fs)
        if k == "closure":
            return ClosV(v[1], "Fn", ())
        if k == "opaque" and t is not None and t["k"] == "adt" and t["path"] == "std::marker::PhantomData":
            return Tup(ty, [])
        return OpaqueV(ty, tm.fresh("const:%s" % (v[1] if len(v) > 1 else k), "O"))

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read(st, fr, o[1])
        if o[0] == "const":
            return self.const(o[1])
        raise Unsupported("operand " + str(o[0]))

    def binop(self, op, a, b, ty):
        if isinstance(a, ChoiceV) or isinstance(b, ChoiceV):
            a, b = self.term(a), self.term(b)
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported("binary %s on %s" % (op, type(a).__name__))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a.sort == "B":
            r = {
                "BitAnd": lambda: tm.and_(a, b),
                "BitOr": lambda: tm.or_(a, b),
                "BitXor": lambda: tm.not_(tm.eq(a, b)),
                "Eq": lambda: tm.eq(a, b),
                "Ne": lambda: tm.not_(tm.eq(a, b)),
            }.get(base)
            if r is None:
                raise Unsupported("bool " + op)
            return r()
        fl = a.sort == "R" or b.sort == "R"
        D = self.dom if fl else tm
        if base == "Add":
            r = D.add(a, b)
        elif base == "Sub":
            r = D.sub(a, b)
        elif base == "Mul":
            r = D.mul(a, b)
        elif base == "Div":
            if fl:
                r = D.div(a, b)
            elif tm.isnum(a) and tm.isnum(b) and tm.nval(b) != 0:
                x, y = int(tm.nval(a)), int(tm.nval(b))
                r = intc(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            else:
                r = tm.app("idiv", (a, b), "I")
        elif base == "Rem":
            if fl:
                r = D.rem(a, b)
            elif tm.isnum(a) and tm.isnum(b) and tm.nval(b) != 0:
                r = intc(int(math.fmod(int(tm.nval(a)), int(tm.nval(b)))))
            else:
                r = tm.app("irem", (a, b), "I")
        elif base == "Lt":
            return D.lt(a, b)
        elif base == "Le":
            return D.le(a, b)
        elif base == "Gt":
            return D.lt(b, a)
        elif base == "Ge":
            return D.le(b, a)
        elif base == "Eq":
            return D.eq(a, b)
        elif base == "Ne":
            return tm.not_(D.eq(a, b))
        elif base == "Cmp":
            return self.ordering(D.lt(a, b), D.eq(a, b))
        else:
            if not fl and tm.isnum(a) and tm.isnum(b):
                x, y = int(tm.nval(a)), int(tm.nval(b))
                f = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(base)
                if f:
                    return intc(f())
            raise Unsupported("operator " + op)
        if op.endswith("WithOverflow"):
            if self.panics is not None and op.startswith("Sub") and str(ty) in ("usize", "u8", "u16", "u32", "u64", "u128"):
                return Tup("(_, bool)", [r, tm.lt(a, b)])
            return Tup("(_, bool)", [r, FALSE])
        return r

    def need(self, st, cond, where):
        """the execution panics unless cond holds"""
        if self.panics is None or self.quiet or cond is TRUE:
            return
        if decide(st.pc, cond) is not TRUE:
            self.panics.append((st.pc, cond, where))

    def loudly(self, st, fv, args, n, i):
        """a closure that is evaluated on demand is here evaluated at an arbitrary position i < n, for its panics"""
        if self.panics is None or self.quiet:
            return
        s = st.fork()
        s.assume(tm.le(intc(0), i), tm.lt(i, n))
        self.call_value(fv, args, s)

    def ordering(self, lt, eq):
        """core::cmp::Ordering: variants Less, Equal, Greater"""
        return EnumV("std::cmp::Ordering", tm.ite(lt, intc(0), tm.ite(eq, intc(1), intc(2))), {0: (), 1: (), 2: ()})

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            loc = self.locate(st, fr, r[2])
            if r[1]:
                if loc[0] == "cell":
                    return RefV(loc[1], loc[2])
                # unique borrow of a value behind a shared reference cannot be written
                return VRef(loc[1])
            v = self.rd(st, loc[1], loc[2]) if loc[0] == "cell" else loc[1]
            return VRef(v)
        if k == "rawptr":
            loc = self.locate(st, fr, r[1])
            if loc[0] == "cell":
                return RefV(loc[1], loc[2])
            return VRef(loc[1])
        if k == "bin":
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4] if len(r) > 4 else None)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Neg":
                a = self.term(a)
                return self.dom.neg(a) if a.sort == "R" else tm.neg(a)
            if r[1] == "Not":
                a = self.term(a)
                if a.sort == "B":
                    return tm.not_(a)
                raise Unsupported("integer not")
            if r[1] == "PtrMetadata":
                return self.seq(self.strip(st, a)).n
            raise Unsupported("unary " + r[1])
        if k == "cast":
            a = self.operand(st, fr, r[2])
            kind = r[1]
            if kind == "IntToInt":
                if isinstance(a, EnumV):
                    return a.disc
                if a.sort == "B":
                    return tm.ite(a, intc(1), intc(0))
                return self.narrow(a, r[3], r[4])
            if kind == "IntToFloat":
                return tm.app("f32", (tm.i2r(a),), "R") if r[4] == "f32" else tm.i2r(a)
            if kind == "FloatToInt":
                return tm.app("trunc", (a,), "I")
            if kind == "FloatToFloat":
                t = r[4] if isinstance(r[4], str) else None
                if t == "f64" and r[3] == "f64":
                    return a
                return tm.app("f32", (a,), "R") if t == "f32" else a
            return a
        if k == "agg":
            what = r[1]
            fs = [self.operand(st, fr, o) for o in r[4]]
            if what == "tuple":
                return Tup("()" if not fs else "tuple", fs)
            if what == "array":
                return Tup("[%s; %d]" % (r[2], len(fs)) if isinstance(r[2], str) else "array", fs)
            if what == "closure":
                return ClosV(r[2], r[3], fs)
            if what == "adt":
                t = self.p.ty(r[2])
                if t is not None and t["enum"]:
                    return EnumV(r[2], intc(r[3]), {r[3]: tuple(fs)})
                if t is not None and t["union"]:
                    raise Unsupported("union")
                return Tup(r[2], fs)
            raise Unsupported("aggregate " + what)
        if k == "repeat":
            a = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 256:
                raise Unsupported("repeat")
            return Tup("array", [a] * r[2])
        raise Unsupported("rvalue " + str(r[:2]))

    def discriminant(self, i, ty, to):
        """the discriminant, an integer of type `to`, of the enum `ty` whose variant has index `i`"""
        t = self.p.ty(ty)
        ds = t["discrs"] if t and t["k"] == "adt" and t["enum"] else None
        if not ds or ds == list(range(len(ds))):
            return i
        r = None
        for k, d in reversed(list(enumerate(ds))):
            d = intc(signed(d, to))
            r = d if r is None else tm.ite(tm.eq(i, intc(k)), d, r)
        return r

    def narrow(self, a, frm, to):
        """the integer `a` of type `frm` as one of type `to`: itself where it fits (lengths and counters are
        below 2^63), otherwise some other value of the type"""
        x, y = INTS.get(frm), INTS.get(to)
        if x is None or y is None:
            raise Unsupported("cast from %s to %s" % (frm, to))
        if a.op == "num":
            v, m = int(a.args[0]), 1 << y[1]
            v %= m
            return intc(v - m if y[0] and v >= m // 2 else v)
        lo, hi = (-(1 << (x[1] - 1)), (1 << (x[1] - 1)) - 1) if x[0] else (0, (1 << min(x[1], 63)) - 1)
        l2, h2 = (-(1 << (y[1] - 1)), (1 << (y[1] - 1)) - 1) if y[0] else (0, (1 << y[1]) - 1)
        fits = []
        if lo < l2:
            fits.append(tm.le(intc(l2), a))
        if hi > h2:
            fits.append(tm.le(a, intc(h2)))
        if not fits:
            return a
        w = tm.app("wrap_" + to, (a,), "I")
        return tm.ite(tm.and_(*fits), a, w)

    def disc(self, st, v):
        if isinstance(v, EnumV):
            return v.disc
        if isinstance(v, ChoiceV):
            return tm.ite(v.c, self.disc(st, v.a), self.disc(st, v.b))
        if v is POISON:
            raise Unsupported("discriminant of an uninitialised value")
        raise Unsupported("discriminant of %s" % type(v).__name__)

    # ---- execution ----------------------------------------------------------
    def run_id(self, bid, args, st=None):
        st = st or St({}, ())
        return self.run_body(self.p.bodies[bid], args, st)

    def run_body(self, b, args, st, merge=True):
        """returns [(state, value)]"""
        if self.depth > self.maxdepth:
            raise Unsupported("call depth")
        if b["argc"] != len(args):
            raise Unsupported("arity of " + b["id"])
        self.inlined.add(b["path"])
        fr = next(self.nframe)
        st = st.fork()
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        self.depth += 1
        try:
            rpo, pos, succ, loops = self.p.loops(b)
            ex, rets = self.region(b, fr, 0, [st], set(rpo), None)
        except Unsupported as e:
            if not hasattr(e, "where"):
                e.where = b["path"]
                e.args = ("%s (in %s)" % (e.args[0] if e.args else "", b["path"]),)
            raise
        finally:
            self.depth -= 1
        if merge and len(rets) > 1:
            m = merge_all(rets)
            rets = [m] if m else []
        out = []
        for s in rets:
            v = s.cells.get((fr, 0), POISON)
            if v is POISON:
                t = self.p.ty(b["locals"][0])
                if t and t["k"] == "tuple" and not t["elems"]:
                    v = UNIT
            for k in [k for k in s.cells if k[0] == fr]:
                del s.cells[k]
            out.append((s, v))
        return out

    def region(self, b, fr, entry, sts, blocks, header):
        """execute the blocks from entry; edges leaving `blocks` or returning to `header` are exits.
        returns ({target: [states]}, [return states])"""
        rpo, pos, succ, loops = self.p.loops(b)
        inbox = {entry: list(sts)}
        exits, rets = {}, []
        handled = set()
        for n in rpo:
            if n not in blocks or n in handled:
                continue
            ss = inbox.pop(n, None)
            if not ss:
                continue
            if n in loops and n != header and loops[n] <= blocks:
                ex, rs = self.loop(b, fr, n, ss, loops[n])
                rets.extend(rs)
                handled |= loops[n]
                for t, xs in ex.items():
                    (inbox if t in blocks and t != header else exits).setdefault(t, []).extend(xs)
                continue
            for st in self.groups(b, fr, n, ss):
                for t, s in self.block(b, fr, n, st):
                    if t is None:
                        rets.append(s)
                    elif t == header or t not in blocks:
                        exits.setdefault(t, []).append(s)
                    else:
                        inbox.setdefault(t, []).append(s)
        return exits, rets

    def groups(self, b, fr, n, ss):
        """states to run block n from: one per value of the flags that tell the ways of getting there apart"""
        ss = [s for s in ss if FALSE not in s.pc]
        if len(ss) > 1:
            by = {}
            live = self.p.live_flags(b, n)
            for s in ss:
                by.setdefault(tuple(const_of(s.cells.get((fr, l))) for l in live), []).append(s)
            if 1 < len(by) <= 4:
                return [merge_all(xs) for xs in by.values()]
        st = merge_all(ss)
        return [st] if st is not None else []

    def block(self, b, fr, n, st):
        bl = b["blocks"][n]
        st = st.fork()
        for s in bl["s"]:
            if s[0] == "assign":
                if s[2][0] == "discr":
                    v = self.discriminant(self.disc(st, self.read(st, fr, s[2][1])), s[2][2], b["locals"][s[1]["l"]])
                else:
                    v = self.rvalue(st, fr, s[2])
                self.write(st, fr, s[1], v)
            elif s[0] == "setdiscr":
                v = self.read(st, fr, s[1])
                raise Unsupported("set discriminant")
            else:
                if s[0] == "other":
                    raise Unsupported("statement " + str(s[1]))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            if self.panics is not None:
                c = self.term(self.operand(st, fr, t[1]))
                self.need(st, c if t[2] else tm.not_(c), "%s: %s" % (b["path"], t[4]))
            return [(t[3], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            v = self.term(v)
            v = simp(st.pc, v)
            if self.probe is not None and self.probe[0] == fr and n in self.probe[1]:
                cs = [(decide(st.pc, (v if int(val) else tm.not_(v)) if v.sort == "B" else tm.eq(v, intc(signed(int(val), t[2])))), x) for val, x in t[3]]
                to = [x for c, x in cs if c is TRUE] or [t[4]]
                raise Probe(all(c.op == "bool" for c, _ in cs), to[0] not in self.probe[1], st)
            out = []
            rest = []
            for val, tgt in t[3]:
                n = int(val)
                if v.sort == "B":
                    c = v if n else tm.not_(v)
                else:
                    c = tm.eq(v, intc(signed(n, t[2])))
                c = decide(st.pc, c)
                if any(decide(st.pc, r) is FALSE for r in rest):
                    break
                if c is not FALSE:
                    s = st.fork()
                    s.assume(*rest)
                    s.assume(c)
                    if not self.contradictory(s):
                        out.append((tgt, s))
                rest.append(tm.not_(c))
                if c is TRUE:
                    break
            else:
                if not any(r is FALSE for r in rest):
                    tgt = t[4]
                    if b["blocks"][tgt]["t"][0] != "unreachable" or b["blocks"][tgt]["s"]:
                        s = st.fork()
                        s.assume(*rest)
                        if not self.contradictory(s):
                            out.append((tgt, s))
                    elif len(out) == 0:
                        return []
            return out
        if k == "call":
            f, args, dest, tgt = t[1], t[2], t[3], t[4]
            av = [self.operand(st, fr, a) for a in args]
            if tgt is None:
                # diverges: a panic, which returns nothing
                self.need(st, FALSE, "%s: %s" % (b["path"], f[1].get("path") if f[0] == "fn" else "call"))
                return []
            dty = t[6]
            if f[0] == "fn":
                res = self.call(f[1], av, st, dty)
            else:
                res = self.call_value(self.operand(st, fr, f), av, st, dty)
            out = []
            for s, v in res:
                s = s if s is not st else st.fork()
                self.write(s, fr, dest, v)
                out.append((tgt, s))
            return out
        raise Unsupported("terminator " + str(t[:2]))

    def contradictory(self, st):
        for x in st.pc[-3:]:
            if x is FALSE:
                return True
            if x.op in ("or",):
                if decide(tuple(p for p in st.pc if p is not x), x) is FALSE:
                    return True
        return False

    # ---- calls -----------------------------------------------------------------
    def call(self, f, args, st, dty):
        """call of a named function"""
        for key in (f.get("id"), f.get("rpath"), f["path"]):
            if key and key in self.contracts:
                r = self.contracts[key](self, st, args, f, dty)
                if r is not None:
                    self.used_contracts.add(key)
                    return r
        from .contracts import linear_solver

        r = linear_solver(self, st, args, f, dty)
        if r is not None:
            self.used_contracts.add(f["path"])
            return r
        # a choice receiver splits the call
        if args and f.get("kind") in ("virtual", "unresolved"):
            r0 = self.strip(st, args[0])
            if isinstance(r0, ChoiceV):
                out = []
                for c, v in ((r0.c, r0.a), (tm.not_(r0.c), r0.b)):
                    s = st.fork().assume(c)
                    out += self.call(f, [VRef(v)] + args[1:], s, dty)
                m = []
                for s, v in out:
                    s.cells[("ret", 0)] = v
                    m.append(s)
                s = merge_all(m)
                if s is None:
                    return []
                v = s.cells.pop(("ret", 0))
                return [(s, v)]
            if isinstance(r0, (Tup, EnumV)) and f.get("trait"):
                imp = self.p.impl(f["trait"], f["method"], r0.ty)
                if imp:
                    return self.call_body(imp["id"], args, st)
                dflt = [b for b in self.p.bodies.values() if b["path"] == f["path"]]
                if dflt:
                    return self.call_body(dflt[0]["id"], args, st)
            if isinstance(r0, ClosV) or isinstance(r0, FnV):
                m = self.models.get(f["path"])
                if m:
                    return m(self, st, args, f, dty)
        m = self.models.get(f["path"])
        if m is None and f.get("trait"):
            m = self.models.get("%s::%s" % (f["trait"], f.get("method")))
        if m is None and f["crate"].startswith("nalgebra"):
            m = self.nalg.get(f["path"].rsplit("::", 1)[1])
        if m is None and f["crate"].startswith("ode_solvers"):
            m = self.ode_model
        if m is not None:
            r = m(self, st, args, f, dty)
            if r is not NotImplemented:
                self.used_models.add(f["path"])
                return r
        if f.get("id") in self.p.bodies:
            return self.call_body(f["id"], args, st)
        if f.get("kind") in ("virtual", "unresolved") and args:
            # method of a user-supplied component or fluid: a pure uninterpreted function
            r0 = self.strip(st, args[0])
            if isinstance(r0, OpaqueV) or r0 is POISON:
                return [(st, self.opaque_call(f, r0, args, dty, st))]
        if f.get("kind") == "unresolved" and not args:
            self.opaque_methods.add(f["path"])
            return [(st, self.uf(dty, "%s<%s>" % (f["path"], ",".join(map(str, f.get("targs", [])))), ()))]
        raise Unsupported("call of %s (%s)" % (f["path"], f.get("kind")))

    def opaque_call(self, f, r0, args, dty, st):
        fl = []
        for a in args:
            flatten(self.strip(st, a), fl)
        fl = [simp(st.pc, x) for x in fl]
        name = "%s::%s" % (f.get("trait") or f["path"], f.get("method") or "")
        self.opaque_methods.add(name)
        return self.uf(dty, name, fl)

    def call_body(self, bid, args, st):
        return self.run_body(self.p.bodies[bid], args, st)

    def call_value(self, fv, args, st, dty=None):
        """call a closure / function value with a list of arguments"""
        while isinstance(fv, (VRef, BoxV)):
            fv = fv.v
        cellref = None
        if isinstance(fv, RefV):
            cellref = fv
            fv = self.rd(st, fv.cell, fv.path)
            while isinstance(fv, (VRef, BoxV)):
                fv, cellref = fv.v, None
            if isinstance(fv, RefV):
                return self.call_value(fv, args, st, dty)
        if isinstance(fv, FnV):
            return self.call(fv.callee, list(args), st, dty or fv.callee.get("ret"))
        if isinstance(fv, ClosV):
            b = self.p.bodies.get(fv.id)
            if b is None:
                raise Unsupported("closure body " + str(fv.id))
            t = self.p.ty(b["locals"][1])
            if t is None:
                # type strings of closures are long; decide by the declared kind
                t = {"k": "ref", "mut": "Mut" in fv.kind} if "Once" not in fv.kind else {"k": "x"}
            if t["k"] == "ref":
                if t["mut"]:
                    if cellref is None:
                        st = st.fork()
                        cellref = RefV(self.alloc(st, fv))
                    self_ = cellref
                else:
                    self_ = VRef(fv)
            else:
                self_ = fv
            if b["argc"] == 1 + len(args):
                return self.run_body(b, [self_] + list(args), st)
            if b["argc"] == 2:
                return self.run_body(b, [self_, Tup("tuple", args)], st)
            raise Unsupported("closure arity")
        if isinstance(fv, OpaqueV):
            if dty is None:
                raise Unsupported("result type of opaque call")
            fl = [fv.t]
            for a in args:
                flatten(self.strip(st, a), fl)
            return [(st, self.uf(dty, "call", fl))]
        if isinstance(fv, ChoiceV):
            out = []
            for c, v in ((fv.c, fv.a), (tm.not_(fv.c), fv.b)):
                out += self.call_value(v, args, st.fork().assume(c), dty)
            for s, v in out:
                s.cells[("ret", 0)] = v
            s = merge_all([s for s, _ in out])
            if s is None:
                return []
            return [(s, s.cells.pop(("ret", 0)))]
        if isinstance(fv, PyFn):
            return [(st, fv.f(*args))]
        raise Unsupported("call of %s" % type(fv).__name__)

    def pure_call(self, fv, args, st, dty=None):
        """value of a call whose effects are discarded"""
        self.quiet += 1
        try:
            res = self.call_value(fv, args, st.fork(), dty)
        finally:
            self.quiet -= 1
        if not res:
            return POISON
        if len(res) > 1:
            for s, v in res:
                s.cells[("ret", 0)] = v
            s = merge_all([s for s, _ in res])
            return s.cells[("ret", 0)]
        return res[0][1]

    # ---- loops --------------------------------------------------------------------
    def loop(self, b, fr, header, sts, blocks):
        exits, rets = {}, []
        st = sts[0] if len(sts) == 1 else merge_all(sts)
        if st is None:
            return {}, []
        err = None
        order = [self.loop_counted, self.loop_summary, self.loop_unroll] if self.summary_first else [self.loop_unroll, self.loop_summary]
        mark = len(self.panics or ())
        for f in order:
            if self.panics is not None:
                del self.panics[mark:]
            try:
                r = f(b, fr, header, st, blocks)
            except Unsupported as e:
                err = err or e
                continue
            if r is not None:
                return r
        raise err or Unsupported("loop")

    def counted(self, b, fr, header, st, blocks):
        """does the first test of the loop end it after a known, small number of rounds?"""
        was, self.probe = self.probe, (fr, blocks)
        self.quiet += 1
        try:
            for _ in range(self.count_first + 1):
                try:
                    self.region(b, fr, header, [st], blocks, header)
                except Probe as e:
                    ok, ends, st = e.args
                    if ok is False or ends:
                        return ok
                    continue
                return False
        except Unsupported:
            pass
        finally:
            self.quiet -= 1
            self.probe = was
        return False

    def loop_counted(self, b, fr, header, st, blocks):
        return self.loop_unroll(b, fr, header, st, blocks, True)

    def loop_unroll(self, b, fr, header, st, blocks, counted=False):
        rpo, pos, succ, loops = self.p.loops(b)
        edges = {m for n in blocks for m in succ[n] if m not in blocks and not self.diverges(b, m)}
        exits, rets = {}, []
        cur = st
        for i in range(self.unroll):
            if counted and not self.counted(b, fr, header, cur, blocks):
                return None
            ex, rs = self.region(b, fr, header, [cur], blocks, header)
            rets += rs
            back = ex.pop(header, [])
            for t, xs in ex.items():
                exits.setdefault(t, []).extend(xs)
            cur = merge_all(back)
            if cur is None:
                return exits, rets
            if i == 0 and edges and edges <= set(ex) and not counted:
                return None  # no exit is decided concretely
            if i >= 1 and not self.concrete_progress(b, fr, cur, blocks):
                return None
        return None

    def concrete_progress(self, b, fr, st, blocks):
        return True

    def diverges(self, b, n, depth=0):
        """does block n only lead to a panic?"""
        t = b["blocks"][n]["t"]
        if t[0] == "unreachable" or (t[0] == "call" and t[4] is None):
            return True
        return False

    def loop_summary(self, b, fr, header, st, blocks):
        k = tm.fresh("k", "I")

        def body(s):
            ex, rs = self.region(b, fr, header, [s], blocks, header)
            back = merge_all(ex.pop(header, []))
            return back, (ex, rs)

        keys = [c for c in st.cells if c[0] == fr or c[0] == "heap"] + [c for c in st.cells if c[0] not in (fr, "heap")]
        H, back, (ex, rets) = self.summarise(st, keys, k, body)
        if back is not None and self.peelable():
            # a state that only an iteration can produce is better known after one iteration than by
            # its shape: the loop is left from the entry state or from the state after some iteration
            _, (ex0, rets0) = body(st)
            back2, (ex1, rets1) = body(back)
            out = {t: list(xs) for t, xs in ex0.items()}
            for t, xs in ex1.items():
                out.setdefault(t, []).extend(self.exit_state(s, k, len(back.pc), back2, True) for s in xs)
            return out, list(rets0) + [self.exit_state(s, k, len(back.pc), back2, True) for s in rets1]
        out = {}
        inv = self.counter_bounds(st, back, k)
        if inv:
            for s in [x for xs in ex.values() for x in xs] + list(rets):
                s.assume(*inv)
        for t, xs in ex.items():
            for s in xs:
                out.setdefault(t, []).append(self.exit_state(s, k, len(st.pc), back))
        rets = [self.exit_state(s, k, len(st.pc), back) for s in rets]
        return out, rets

    def counter_bounds(self, st, back, k):
        """a + k != b on every path that goes round, and a <= b on entry: a + k <= b at the loop head"""
        inv = []
        for c in back.pc[len(st.pc):] if back is not None else ():
            for c in c.args if c.op == "and" else (c,):
                if c.op != "not" or c.args[0].op != "eq" or c.args[0].args[0].sort != "I":
                    continue
                x, y = c.args[0].args
                for x, y in ((x, y), (y, x)):
                    a = tm.canon(tm.sub(x, k))
                    if k in tm.free(a) or k in tm.free(y):
                        continue
                    v = tm.canon(tm.sub(y, a))
                    if decide(st.pc, tm.le(intc(0), v)) is TRUE or self.nonneg(v):
                        inv.append(tm.le(k, v))
        return inv

    def peelable(self):
        def carries(v):
            t = self.p.ty(v.ty)
            return any(va["fields"] for va in t["variants"]) if t is not None and t["k"] == "adt" else True

        return any(f[0] == "havoc" and isinstance(f[1], EnumV) and not f[1].vs.keys() <= {0} and carries(f[1]) for f in self.last_forms.values())

    def exit_state(self, s, k, npc, back, ran=False):
        """substitute the iteration number at which a counted loop is exhausted"""
        conds = s.pc[npc:]
        backpc = set(back.pc[npc:]) if back is not None else set()
        for c in conds:
            nc = tm.not_(c)
            if nc.op == "lt" and nc.args[0].sort == "I" and nc in backpc:
                # loop goes on while a < b with a = k + c: exhausted at k = b - c
                a, bnd = nc.args
                d = tm.canon(tm.sub(a, k))
                if k in tm.free(d) or k in tm.free(bnd):
                    continue
                v = tm.canon(tm.sub(bnd, d))
                if not ran and decide(s.pc[:npc], tm.le(intc(0), v)) is not TRUE and not self.nonneg(v):
                    continue
                m = {k: v}
                memo = {}
                pc = [tm.subst(x, m, memo) for x in s.pc]
                pc = tuple(x for x in pc if x is not TRUE)
                cells = {c: (v2 if not isinstance(v2, (T, Tup, EnumV, VRef, BoxV, SeqV, MatV, ClosV, OpaqueV, ChoiceV, IterV)) else subst_val(v2, m)) for c, v2 in s.cells.items()}
                out = St(cells, pc)
                # none of the rounds left the loop any other way
                rest = [c for c in back.pc[npc:] if c not in (nc, tm.le(intc(0), k))]
                if rest:
                    out.assume(tm.implies(tm.and_(tm.le(intc(0), k), tm.lt(k, v)), tm.and_(*rest)))
                return out
        return s

    def nonneg(self, v):
        """lengths and unsigned numbers"""
        p = tm.norm(v)
        return all(c >= 0 and all(e == 1 for _, e in m) for m, c in p.d.items())

    def summarise(self, st, keys, k, body):
        """find the state at the start of an arbitrary iteration k of a loop.
        body(state) -> (state after the iteration or None, extra)"""
        forms = {}  # (cell, path) -> form
        attempts = {}
        rels = []  # pairs of variables in order at the start of every iteration
        mark = len(self.panics or ())
        for rnd in range(16):
            if self.panics is not None:
                del self.panics[mark:]
            H = self.header(st, forms, k)
            H.assume(tm.le(intc(0), k))
            H.assume(*self.rel_terms(H, rels))
            back, extra = body(H)
            self.last_forms = forms
            if back is None:
                return H, back, extra
            new = {}
            for c in keys:
                if c not in back.cells:
                    continue
                self.diff(H, back, c, (), H.cells.get(c, POISON), back.cells[c], forms, new, k)
            if new:
                forms.update(new)
                continue
            # stable: try to replace havocs by closed forms
            keep = self.relations(st, H, back, forms, rels)
            if rels and keep != rels:
                rels = keep
                continue
            self.attempts = attempts
            up = self.upgrade(st, H, back, forms, k)
            if not up and not rels:
                rels = keep
                if rels and any(f[0] == "havoc" and isinstance(f[1], T) and f[1].sort == "R" for f in forms.values()):
                    for key, f in list(forms.items()):
                        if f[0] == "havoc" and len(f) > 3:
                            forms[key] = f[:3]
                    continue
                rels = []
            if not up:
                self.havoc_log.append(sorted(str(x) for x, f in forms.items() if f[0] == "havoc"))
                return H, back, extra
            forms.update(up)
        raise Unsupported("loop invariant did not stabilise")

    def rel_terms(self, H, rels):
        out = []
        for (c1, p1), (c2, p2) in rels:
            a, b = self.get_any(H.cells.get(c1), p1), self.get_any(H.cells.get(c2), p2)
            if isinstance(a, T) and isinstance(b, T):
                out.append(tm.le(a, b))
        return out

    def relations(self, st, H, back, forms, rels):
        """inequalities between real variables of the loop that hold on entry and that an iteration preserves"""
        from . import prove as pv

        ks = [x for x, f in forms.items() if f[0] in ("havoc", "max") and isinstance(self.get_any(H.cells.get(x[0]), x[1]), T) and self.get_any(H.cells[x[0]], x[1]).sort == "R"]
        if not 2 <= len(ks) <= 4:
            return []
        at = lambda s, x: self.get_any(s.cells.get(x[0]), x[1])
        cand = rels or [(x, y) for x in ks for y in ks if x != y]
        cand = [(x, y) for x, y in cand if isinstance(at(st, x), T) and isinstance(at(st, y), T) and isinstance(at(back, x), T) and isinstance(at(back, y), T)]
        cand = [(x, y) for x, y in cand if not {at(st, x), at(st, y)} & {tm.INF, tm.NINF} and (at(st, x) is at(st, y) or decide(st.pc, tm.le(at(st, x), at(st, y))) is TRUE)]
        while cand:
            hyp = tuple(back.pc) + tuple(self.rel_terms(H, cand))
            good = []
            for x, y in cand:
                try:
                    if pv.z3_prove(tm.le(simp(hyp, at(back, x)), simp(hyp, at(back, y))), hyp, timeout=1500, nl=False):
                        good.append((x, y))
                except tm.NonFinite:
                    pass
            if good == cand:
                break
            cand = good
        return cand

    def form_val(self, st, form, k):
        kind = form[0]
        if kind == "havoc":
            return self.havoc_like(form[1], form[2], k)
        if kind == "counter":
            return tm.add(form[1], tm.mul(form[2], k))
        if kind == "sum":
            init, kk, d = form[1:]
            return tm.add(init, tm.binder_of("sum", k, kk, d))
        if kind == "prev":
            # the value that the iteration before left
            init, kk, d = form[1:]
            last = tm.subst(d, {kk: tm.sub(k, intc(1))})
            if init not in (tm.NINF, tm.INF) and self.same((), simp((), tm.subst(d, {kk: intc(-1)})), init):
                return last
            return tm.ite(tm.lt(intc(0), k), last, init)
        if kind == "prevv":
            init, kk, v = form[1:]
            return merge_val(tm.lt(intc(0), k), subst_val(v, {kk: tm.sub(k, intc(1))}), init)
        if kind == "max":
            op, init, kk, d = form[1:]
            m = tm.binder_of(op, k, kk, d)
            if init in (tm.NINF, tm.INF):
                return m
            first = simp((), tm.subst(d, {kk: intc(0)}))
            if self.same((), first, init):
                # the first element is looked at twice
                return tm.ite(tm.lt(intc(0), k), m, init)
            if self.same((), simp((), tm.subst(d, {kk: intc(-1)})), init):
                return tm.binder_of(op, tm.add(k, intc(1)), kk, tm.subst(d, {kk: tm.sub(kk, intc(1))}))
            return tm.ite(tm.lt(intc(0), k), mm(op, init, m), init)
        if kind == "push":
            s0, kk, val = form[1:4]
            n0 = s0.n

            def at(i):
                j = tm.sub(i, n0)
                pushed = subst_val(val, {kk: j})
                if tm.isnum(n0) and tm.nval(n0) == 0:
                    return pushed
                return merge_val(tm.lt(i, n0), s0.at(i), pushed)

            return SeqV(tm.add(n0, k), at)
        if kind == "iter":
            it = form[1]
            return IterV(it.n, it.at, tm.add(it.start, k), it.eff)
        if kind == "seqhavoc":
            s0, nm = form[1:3]
            e0 = s0.at(tm.fresh("e", "I"))
            ctr = itertools.count()

            def at(i):
                return self.havoc_like(e0, nm, k, (i,))

            return SeqV(tm.app(nm + ".len", (k,), "I"), at)
        if kind == "fill":
            s0, lo, kk, val = form[1:]

            def at(i):
                j = tm.sub(i, lo)
                c = tm.lt(i, tm.add(lo, k))
                if not (tm.isnum(lo) and tm.nval(lo) == 0):
                    c = tm.and_(tm.le(lo, i), c)
                return merge_val(c, subst_val(val, {kk: j}), s0.at(i))

            return SeqV(s0.n, at)
        raise Unsupported("form " + kind)

    def havoc_like(self, v, name, k, idx=()):
        """arbitrary value of the same shape"""
        if isinstance(v, T):
            return tm.app(name, (k,) + tuple(idx), v.sort)
        if isinstance(v, Tup):
            return Tup(v.ty, [self.havoc_like(x, "%s.%d" % (name, i), k, idx) for i, x in enumerate(v.fields)])
        if isinstance(v, EnumV):
            t = self.p.ty(v.ty)
            if t is None or t["k"] != "adt":
                raise Unsupported("havoc of " + str(v.ty))
            vs = {}
            for i, va in enumerate(t["variants"]):
                vs[i] = tuple(self.sym(f["ty"], "%s.%d.%s" % (name, i, f["name"]), (k,) + tuple(idx)) for f in va["fields"])
            return EnumV(v.ty, tm.app(name + "#", (k,) + tuple(idx), "I"), vs)
        if isinstance(v, VRef):
            return VRef(self.havoc_like(v.v, name, k, idx))
        if isinstance(v, BoxV):
            return BoxV(self.havoc_like(v.v, name, k, idx))
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [self.havoc_like(x, "%s[%d]" % (name, i), k, idx) for i, x in enumerate(v.d)])
        if isinstance(v, OpaqueV):
            return OpaqueV(v.ty, tm.app(name, (k,) + tuple(idx), v.t.sort))
        if isinstance(v, SeqV):
            e0 = v.at(tm.fresh("e", "I"))
            if e0 is POISON:
                raise Unsupported("havoc of an empty vector")
            return SeqV(tm.app(name + ".len", (k,) + tuple(idx), "I"), lambda i: self.havoc_like(e0, name, k, tuple(idx) + (i,)))
        if v is POISON:
            return POISON
        raise Unsupported("havoc of %s" % type(v).__name__)

    def header(self, st, forms, k):
        H = st.fork()
        # outer paths first
        for (c, path) in sorted(forms, key=lambda x: len(x[1])):
            v = self.form_val(st, forms[(c, path)], k)
            if path:
                H.cells[c] = self.put_any(H, H.cells[c], path, v)
            else:
                H.cells[c] = v
        return H

    def put_any(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "ref":
            return VRef(self.put_any(st, v.v, path[1:], new))
        if e[0] == "bx":
            return BoxV(self.put_any(st, v.v, path[1:], new))
        if e[0] == "disc":
            return EnumV(v.ty, new, v.vs)
        if e[0] == "t":
            return OpaqueV(v.ty, new)
        if e[0] == "m":
            d = list(v.d)
            d[e[1]] = new
            return MatV(v.r, v.c, d)
        if e[0] == "f":
            if isinstance(v, Tup):
                fs = list(v.fields)
                fs[e[1]] = self.put_any(st, fs[e[1]], path[1:], new)
                return Tup(v.ty, fs)
            fs = list(v.caps)
            fs[e[1]] = self.put_any(st, fs[e[1]], path[1:], new)
            return ClosV(v.id, v.kind, fs)
        if e[0] == "v":
            vs = dict(v.vs)
            fs = list(vs[e[1]])
            fs[e[2]] = self.put_any(st, fs[e[2]], path[1:], new)
            vs[e[1]] = tuple(fs)
            return EnumV(v.ty, v.disc, vs)
        raise Unsupported("path " + str(e))

    def same(self, pc, a, b):
        """provably equal terms"""
        if a is b:
            return True
        a, b = simp(pc, a), simp(pc, b)
        if a is b:
            return True
        if a.sort != b.sort:
            return False
        try:
            if a.sort in "RI":
                if a in (tm.INF, tm.NINF) or b in (tm.INF, tm.NINF):
                    return False
                ok, _ = tm.ring_equal(a, b)
                return ok
            if tm.canon(a) is tm.canon(b):
                return True
            if a.sort == "B":
                from . import prove as pv

                iff = tm.and_(tm.or_(tm.not_(a), b), tm.or_(tm.not_(b), a))
                return pv.z3_prove(iff, tuple(pc), timeout=1000, nl=False)
            return False
        except tm.NonFinite:
            return False

    def same_val(self, pc, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, T):
            return self.same(pc, a, b)
        try:
            fa, fb = flatten(a), flatten(b)
        except Unsupported:
            return False
        return len(fa) == len(fb) and all(self.same(pc, x, y) for x, y in zip(fa, fb))

    def diff(self, H, B, c, path, h, v, forms, new, k):
        """record the leaves that an iteration changes"""
        if h is v or v is POISON:
            return
        key = (c, path)
        pc = B.pc
        f = forms.get(key)
        if f is not None:
            if f[0] in ("havoc", "seqhavoc"):
                return
            want = self.form_val(None, f, tm.add(k, intc(1)))
            if f[0] == "prevv":
                okk = self.same_val(pc, simp_val(pc, want), simp_val(pc, v))
            elif isinstance(want, T):
                okk = isinstance(v, T) and (self.same(pc, want, v) or f[0] == "prev" and self.same(pc, tm.subst(f[3], {f[2]: k}), v) or f[0] in ("sum", "max") and self.step_ok(f, h, v, k, pc))
            elif isinstance(want, IterV):
                okk = isinstance(v, IterV) and self.same(pc, want.start, v.start)
            elif f[0] == "fill":
                e = tm.fresh("e", "I")
                lo = f[2]
                okk = isinstance(v, SeqV) and self.same(pc, want.n, v.n)
                for j, hyp in ((tm.add(lo, k), ()), (e, (tm.not_(tm.eq(e, tm.add(lo, k))),))):
                    if okk:
                        p = tuple(pc) + hyp
                        a, b = want.at(j), v.at(j)
                        if hyp:
                            # j < lo + k + 1 and j != lo + k: j < lo + k
                            hc = tm.lt(e, tm.add(lo, k))
                            okk = all(self.same_val(p + q, simp_val(p + q, a), simp_val(p + q, b)) for q in ((hc, tm.lt(e, tm.add(lo, k, intc(1)))), (tm.not_(hc), tm.not_(tm.lt(e, tm.add(lo, k, intc(1)))))))
                        else:
                            okk = self.same_val(p, a, b)
            elif isinstance(want, SeqV):
                i = k if not isinstance(h, SeqV) else h.n
                okk = isinstance(v, SeqV) and self.same(pc, want.n, v.n) and self.same_val(pc, want.at(h.n), v.at(h.n))
            else:
                okk = False
            if not okk:
                # fall back to an arbitrary value
                if f[0] == "push" and isinstance(v, SeqV) and self.same(pc, want.n, v.n) and (len(f) < 5 or f[4] < 5):
                    # the pushed value was read before the other variables were generalised
                    new[key] = ("push", f[1], k, v.at(h.n), (f[4] if len(f) > 4 else 0) + 1)
                elif f[0] == "push":
                    new[key] = ("seqhavoc", f[1], tm.fresh("hv").args[0])
                elif f[0] == "fill":
                    new[key] = ("seqhavoc", f[1], tm.fresh("hv").args[0], "fixed")
                elif f[0] == "iter":
                    raise Unsupported("iterator advances irregularly")
                else:
                    new[key] = ("havoc", h, tm.fresh("hv").args[0])
            return
        if h is POISON:
            return  # not live at the loop head on entry: a temporary of the body
        if isinstance(h, T) and isinstance(v, T):
            if self.same(pc, h, v):
                return
            new[key] = ("havoc", h, tm.fresh("hv").args[0])
            return
        if type(h) is type(v):
            if isinstance(h, Tup) and len(h.fields) == len(v.fields):
                for i, (x, y) in enumerate(zip(h.fields, v.fields)):
                    self.diff(H, B, c, path + (("f", i),), x, y, forms, new, k)
                return
            if isinstance(h, ClosV) and h.id == v.id:
                for i, (x, y) in enumerate(zip(h.caps, v.caps)):
                    self.diff(H, B, c, path + (("f", i),), x, y, forms, new, k)
                return
            if isinstance(h, EnumV):
                if set(v.vs) <= set(h.vs):
                    self.diff(H, B, c, path + (("disc",),), h.disc, v.disc, forms, new, k)
                    for i in v.vs:
                        for j, (x, y) in enumerate(zip(h.vs[i], v.vs[i])):
                            self.diff(H, B, c, path + (("v", i, j),), x, y, forms, new, k)
                    return
                new[key] = ("havoc", v, tm.fresh("hv").args[0])
                return
            if isinstance(h, VRef):
                self.diff(H, B, c, path + (("ref",),), h.v, v.v, forms, new, k)
                return
            if isinstance(h, BoxV):
                self.diff(H, B, c, path + (("bx",),), h.v, v.v, forms, new, k)
                return
            if isinstance(h, MatV) and (h.r, h.c) == (v.r, v.c):
                for i, (x, y) in enumerate(zip(h.d, v.d)):
                    self.diff(H, B, c, path + (("m", i),), x, y, forms, new, k)
                return
            if isinstance(h, OpaqueV):
                if self.same(pc, h.t, v.t):
                    return
                new[key] = ("havoc", h, tm.fresh("hv").args[0])
                return
            if isinstance(h, IterV):
                if self.same(pc, h.start, v.start):
                    return
                if self.same(pc, tm.add(h.start, intc(1)), v.start):
                    new[key] = ("iter", h)
                    return
                raise Unsupported("iterator advances irregularly")
            if isinstance(h, SeqV):
                e = tm.fresh("e", "I")
                if self.same(pc, h.n, v.n) and h.at(e) is not POISON and self.same_val(pc, h.at(e), v.at(e)):
                    return
                if self.same(pc, tm.add(h.n, intc(1)), v.n):
                    new[key] = ("push", h, k, v.at(h.n))
                    return
                new[key] = ("seqhavoc", v, tm.fresh("hv").args[0])
                return
            if isinstance(h, (RefV, CellV, FnV, StrV)):
                if repr(h) == repr(v):
                    return
        if self.same_val(pc, h, v):
            return
        if c[0] == "heap" or path:
            raise Unsupported("loop changes %s" % type(h).__name__)
        # a local temporary of the body that is overwritten before it is read
        new[key] = ("havoc", POISON, "")

    def step_ok(self, f, h, v, k, pc):
        if f[0] == "sum":
            kk, d = f[2], f[3]
            if self.same(pc, tm.add(h, tm.subst(d, {kk: k})), v):
                return True
            try:
                return self.same(pc, simp(pc, tm.subst(d, {kk: k})), increment(simp(pc, v), h))
            except tm.NonFinite:
                return False
        if f[0] == "max":
            op, init, kk, d = f[1:]
            dk = tm.subst(d, {kk: k})
            r = self.as_max(h, v, pc)
            return r is not None and r[0] == op and self.same(pc, r[1], dk)
        return False

    def as_max(self, h, v, pc):
        """v == max(h, d) or min(h, d)?"""
        v = simp(pc, v)
        if v.op != "ite":
            return None
        r = self.as_max1(h, v, pc)
        if r is None and any(c.op == "le" and c.args[0].sort == "R" and h in c.args for c in pc):
            from . import prove as pv

            for s in tm.subterms(v):
                r1 = self.as_max1(h, s, pc) if s.op == "ite" and s is not v else None
                if r1 is not None and pv.z3_prove(tm.eq(v, mm(r1[0], h, r1[1])), tuple(pc), timeout=1500, nl=False):
                    return r1
        return r

    def as_max1(self, h, v, pc):
        c, a, b = v.args
        neg = False
        if c.op == "not":
            c, neg = c.args[0], True
        if c.op not in ("lt", "le"):
            return None
        x, y = c.args
        if neg:
            a, b = b, a
        # if x < y then a else b
        if (a, b) == (y, x):
            op = "maxs"
        elif (a, b) == (x, y):
            op = "mins"
        else:
            return None
        if x is h:
            return op, y
        if y is h:
            return op, x
        return None

    def upgrade(self, st, H, back, forms, k):
        up = {}
        for (c, path), f in forms.items():
            if f[0] == "seqhavoc" and len(f) == 3:
                r = self.as_fill(st, H, back, forms, c, path, f, k)
                if r is not None:
                    up[(c, path)] = r
                    continue
                forms[(c, path)] = f + ("fixed",)
                continue
            if f[0] != "havoc" or len(f) > 3:
                continue
            others = {g[2] for g in forms.values() if g[0] == "havoc"}
            if isinstance(f[1], EnumV) or isinstance(f[1], T) and f[1].sort == "B":
                v, init = self.get_any(back.cells.get(c), path), self.get_any(st.cells.get(c), path)
                if type(v) is type(init) is type(f[1]):
                    v = simp_val(back.pc, v)
                    try:
                        free = not any(self.mentions(t, others) for t in flatten(v))
                    except Unsupported:
                        free = False
                    if free:
                        up[(c, path)] = ("prevv", init, k, v)
                        continue
            if not isinstance(f[1], T) or f[1].sort not in "RI":
                continue
            h = tm.app(f[2], (k,), f[1].sort)
            v = self.get_any(back.cells.get(c), path)
            if not isinstance(v, T):
                continue
            v = simp(back.pc, v)
            init = self.get_any(st.cells.get(c), path)
            if not isinstance(init, T):
                continue
            try:
                d = increment(v, h)
            except tm.NonFinite:
                d = None
            if d is not None and not self.mentions(d, others):
                if tm.isnum(d) and d.sort == "I" or (d.sort == "I" and k not in tm.free(d)):
                    up[(c, path)] = ("counter", init, d)
                    continue
                if init not in (tm.INF, tm.NINF) and d.sort == "R":
                    up[(c, path)] = ("sum", init, k, d)
                    continue
            if not self.mentions(v, others):
                up[(c, path)] = ("prev", init, k, v)
                continue
            r = self.as_max(h, v, back.pc)
            if r is not None and not self.mentions(r[1], others):
                up[(c, path)] = ("max", r[0], init, k, r[1])
                continue
            forms[(c, path)] = f + ("fixed",)
        up = {x: f for x, f in up.items() if self.attempts.setdefault(x, []).count(f[0]) < 2}
        for x, f in up.items():
            self.attempts[x].append(f[0])
        if up:
            # what depends on the values just found can be tried again
            for x, f in list(forms.items()):
                if x not in up and f[0] == "havoc" and len(f) > 3:
                    forms[x] = f[:3]
        return up

    def as_fill(self, st, H, back, forms, c, path, f, k):
        """one element, at an index that moves with k, is stored in every iteration"""
        h = self.get_any(H.cells.get(c), path)
        v = self.get_any(back.cells.get(c), path)
        s0 = self.get_any(st.cells.get(c), path)
        if not (isinstance(h, SeqV) and isinstance(v, SeqV) and isinstance(s0, SeqV)) or not self.same(back.pc, h.n, v.n):
            return None
        e = tm.fresh("e", "I")
        ve = v.at(e)
        idx = None
        try:
            leaves = flatten(ve)
        except Unsupported:
            return None
        for t in leaves:
            for s in tm.subterms(t):
                if s.op == "eq" and s.args[0].sort == "I" and e in s.args:
                    idx = s.args[0] if s.args[1] is e else s.args[1]
        if idx is None or e in tm.free(idx):
            return None
        lo = tm.canon(tm.sub(idx, k))
        names = {tm.app(g[2], (k,), g[1].sort).args[0] for g in forms.values() if g[0] == "havoc" and isinstance(g[1], T)}
        if k in tm.free(lo) or self.mentions(lo, names):
            return None
        if not self.same_val(tuple(back.pc) + (tm.not_(tm.eq(e, idx)),), h.at(e), simp_val((tm.not_(tm.eq(e, idx)),), ve)):
            return None
        # the element replaced is the one before the loop: earlier iterations stored elsewhere
        old, new = flatten(h.at(idx)), flatten(s0.at(idx))
        if len(old) != len(new):
            return None
        val = subst_val(v.at(idx), {a: b for a, b in zip(old, new) if isinstance(a, T)})
        return ("fill", s0, lo, k, val)

    def mentions(self, t, names):
        for x in tm.subterms(t):
            if x.op == "app" and x.args[0].startswith("hv!") and re.split(r"[#.\[]", x.args[0])[0] in names:
                return True
        return False

    def get_any(self, v, path):
        for e in path:
            if v is None or v is POISON:
                return None
            if e[0] in ("ref", "bx"):
                v = v.v
            elif e[0] == "disc":
                v = v.disc
            elif e[0] == "f":
                v = v.fields[e[1]] if isinstance(v, Tup) else v.caps[e[1]]
            elif e[0] == "v":
                v = v.vs[e[1]][e[2]]
            elif e[0] == "m":
                v = v.d[e[1]]
            elif e[0] == "t":
                v = v.t
        return v


def increment(v, h):
    """v - h, where h is kept on some of the branches of v"""
    if v.op == "ite" and h not in tm.subterms(v.args[0]):
        return tm.ite(v.args[0], increment(v.args[1], h), increment(v.args[2], h))
    return tm.canon(tm.sub(v, h))


def simp_val(pc, v):
    return map_leaves(lambda t: simp(pc, t), v)


def mm(op, a, b):
    return tm.ite(tm.lt(a, b), b, a) if op == "maxs" else tm.ite(tm.lt(b, a), b, a)


class CoordV:
    """a column vector seen through its coordinates x, y, z, .."""

    def __init__(self, m):
        self.m = m


class PyFn:
    """a python function used as a Rust closure by specifications"""

    def __init__(self, f):
        self.f = f
