"""Symbolic values of Rust data."""
from . import term as tm
from .term import T


class Unsupported(Exception):
    """a construct outside the verified fragment (never an alarm)"""


class Poison:
    def __repr__(self):
        return "POISON"


POISON = Poison()


class Tup:
    """struct, tuple, closure environment or fixed-length array"""
    __slots__ = ("ty", "fields")

    def __init__(self, ty, fields):
        self.ty = ty
        self.fields = tuple(fields)

    def __repr__(self):
        return "%s{%s}" % (self.ty, ", ".join(map(repr, self.fields)))


class EnumV:
    __slots__ = ("ty", "disc", "vs")

    def __init__(self, ty, disc, vs):
        self.ty = ty
        self.disc = disc  # I term: the variant index
        self.vs = vs  # variant index -> tuple of fields

    def __repr__(self):
        return "%s#%r%r" % (self.ty, self.disc, self.vs)


class DownV:
    __slots__ = ("e", "v")

    def __init__(self, e, v):
        self.e = e
        self.v = v


class VRef:
    """shared reference: the borrow checker guarantees the target does not change"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)


class RefV:
    """unique reference to a cell"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "&mut %r%r" % (self.cell, self.path)


class BoxV:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Box(%r)" % (self.v,)


class CellV:
    """RefCell / Cell: a handle to a heap cell"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return "Cell(%r)" % (self.cell,)


class ClosV:
    __slots__ = ("id", "kind", "caps")

    def __init__(self, id, kind, caps):
        self.id = id
        self.kind = kind
        self.caps = tuple(caps)

    def __repr__(self):
        return "Clos(%s, %r)" % (self.id, self.caps)


class FnV:
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return "Fn(%s)" % (self.callee["path"],)


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "%r" % (self.s,)


class OpaqueV:
    """a value only known by name: its methods are uninterpreted functions"""
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return "<%s %r>" % (self.ty, self.t)


class ChoiceV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class SeqV:
    """Vec, slice, dynamic vector: a length and an index function"""
    __slots__ = ("n", "_at", "_memo")

    def __init__(self, n, at):
        self.n = n
        self._at = at
        self._memo = {}

    @staticmethod
    def of(items):
        items = list(items)

        def at(i):
            if tm.isnum(i) and 0 <= tm.nval(i) < len(items):
                return items[int(tm.nval(i))]
            if not items:
                return POISON
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = merge_val(tm.eq(i, tm.intc(k)), items[k], r)
            return r

        return SeqV(tm.intc(len(items)), at)

    def at(self, i):
        r = self._memo.get(i)
        if r is None:
            r = self._at(i)
            self._memo[i] = r
        return r

    def __repr__(self):
        return "Seq(%r; %r)" % (self.n, self.at(tm.var("?i", "I")))


class MatV:
    """statically sized matrix, column major like nalgebra"""
    __slots__ = ("r", "c", "d")

    def __init__(self, r, c, d):
        self.r = r
        self.c = c
        self.d = tuple(d)

    def get(self, i, j):
        return self.d[j * self.r + i]

    def __repr__(self):
        return "Mat%dx%d%r" % (self.r, self.c, self.d)


class IterV:
    """iterator over positions start..n of `at`; eff: closure with side effects applied to each element"""
    __slots__ = ("n", "start", "at", "eff")

    def __init__(self, n, at, start=None, eff=None):
        self.n = n
        self.at = at
        self.start = tm.intc(0) if start is None else start
        self.eff = eff

    def __repr__(self):
        return "Iter(%r..%r)" % (self.start, self.n)


UNIT = Tup("()", ())


def is_true(t):
    return t is tm.TRUE


class NoMerge(Exception):
    pass


def merge_val(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is b or c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if a is POISON:
        return b
    if b is POISON:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return tm.ite(c, a, b)
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is Tup and len(a.fields) == len(b.fields):
            return Tup(a.ty, [merge_val(c, x, y) for x, y in zip(a.fields, b.fields)])
        if ta is EnumV:
            vs = {}
            for v in set(a.vs) | set(b.vs):
                if v in a.vs and v in b.vs:
                    vs[v] = tuple(merge_val(c, x, y) for x, y in zip(a.vs[v], b.vs[v]))
                else:
                    vs[v] = a.vs[v] if v in a.vs else b.vs[v]
            return EnumV(a.ty, tm.ite(c, a.disc, b.disc), vs)
        if ta is VRef:
            return VRef(merge_val(c, a.v, b.v))
        if ta is BoxV:
            return BoxV(merge_val(c, a.v, b.v))
        if ta is SeqV:
            return SeqV(tm.ite(c, a.n, b.n) if tm.canon(a.n) is not tm.canon(b.n) else a.n, lambda i: merge_val(c, a.at(i), b.at(i)))
        if ta is MatV and (a.r, a.c) == (b.r, b.c):
            return MatV(a.r, a.c, [merge_val(c, x, y) for x, y in zip(a.d, b.d)])
        if ta is ClosV and a.id == b.id and len(a.caps) == len(b.caps):
            return ClosV(a.id, a.kind, [merge_val(c, x, y) for x, y in zip(a.caps, b.caps)])
        if ta is OpaqueV:
            return OpaqueV(a.ty, tm.ite(c, a.t, b.t)) if a.t.sort == b.t.sort else ChoiceV(c, a, b)
        if ta is CellV and a.cell == b.cell:
            return a
        if ta is RefV and a.cell == b.cell and a.path == b.path:
            return a
        if ta is StrV:
            return a if a.s == b.s else ChoiceV(c, a, b)
        if ta is FnV and a.callee["path"] == b.callee["path"]:
            return a
        if ta is IterV:
            if a.eff is b.eff:
                same_n = tm.canon(a.n) is tm.canon(b.n)
                return IterV(
                    a.n if same_n else tm.ite(c, a.n, b.n),
                    a.at if a.at is b.at else (lambda i: merge_val(c, a.at(i), b.at(i))),
                    a.start if a.start is b.start else tm.ite(c, a.start, b.start),
                    a.eff,
                )
    return ChoiceV(c, a, b)


def map_leaves(f, v):
    """apply f to every term inside the value"""
    if isinstance(v, T):
        return f(v)
    t = type(v)
    if t is Tup:
        return Tup(v.ty, [map_leaves(f, x) for x in v.fields])
    if t is EnumV:
        return EnumV(v.ty, f(v.disc), {k: tuple(map_leaves(f, x) for x in xs) for k, xs in v.vs.items()})
    if t is VRef:
        return VRef(map_leaves(f, v.v))
    if t is BoxV:
        return BoxV(map_leaves(f, v.v))
    if t is SeqV:
        return SeqV(f(v.n), _under(f, v.at))
    if t is MatV:
        return MatV(v.r, v.c, [f(x) for x in v.d])
    if t is ClosV:
        return ClosV(v.id, v.kind, [map_leaves(f, x) for x in v.caps])
    if t is OpaqueV:
        return OpaqueV(v.ty, f(v.t))
    if t is ChoiceV:
        return merge_val(f(v.c), map_leaves(f, v.a), map_leaves(f, v.b))
    if t is IterV:
        return IterV(f(v.n), _under(f, v.at), f(v.start), v.eff)
    return v


def _under(f, at):
    """f applied to the elements of `at`, but not to the index itself"""
    memo = []

    def g(i):
        if tm.isnum(i):
            return map_leaves(f, at(i))
        if not memo:
            b = tm.fresh("e", "I")
            memo.append((b, map_leaves(f, at(b))))
        b, r = memo[0]
        return map_leaves(lambda t: tm.subst(t, {b: i}), r)

    return g


def subst_val(v, m):
    memo = {}
    return map_leaves(lambda t: tm.subst(t, m, memo), v)


def flatten(v, out=None):
    """list of terms identifying the value"""
    if out is None:
        out = []
    if isinstance(v, T):
        out.append(v)
        return out
    t = type(v)
    if t is Tup:
        for x in v.fields:
            flatten(x, out)
    elif t is EnumV:
        out.append(v.disc)
        for k in sorted(v.vs):
            for x in v.vs[k]:
                flatten(x, out)
    elif t in (VRef, BoxV):
        flatten(v.v, out)
    elif t is SeqV:
        b = tm.fresh("fl", "I")
        es = []
        flatten(v.at(b), es)
        out.append(v.n)
        for e in es:
            if e.sort in "RI":
                out.append(tm.binder_of("lam", v.n, b, e, e.sort))
            else:
                out.append(e)
    elif t is MatV:
        out.extend(v.d)
    elif t is ClosV:
        out.append(tm.var("clos:" + v.id, "O"))
        for x in v.caps:
            flatten(x, out)
    elif t is FnV:
        out.append(tm.var("fn:" + v.callee["path"], "O"))
    elif t is OpaqueV:
        out.append(v.t)
    elif t is StrV:
        out.append(tm.var("str:" + v.s, "O"))
    elif t is CellV:
        out.append(tm.var("cell", "O"))
    elif v is POISON:
        out.append(tm.var("poison", "O"))
    elif t is ChoiceV:
        flatten(v.c, out)
        flatten(v.a, out)
        flatten(v.b, out)
    else:
        raise Unsupported("flatten %s" % t.__name__)
    return out
