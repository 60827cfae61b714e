"""Compares the verifier's symbolic execution with running the same code.

usage: python3-vt conform/run.py [name-prefix ...]
Every function of src/lib.rs is executed symbolically for all inputs; its symbolic value is then
evaluated at concrete inputs and compared with what the compiled function returns there."""
import json, os, random, subprocess, sys, time, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(100000)
import mpmath
from dv import term as tm
from dv.spec import *
from dv import prove as pv

W = os.environ.get("CONFORM_TARGET", "/tmp/conform_t")


def dump():
    out = W + "/mir.json"
    e = dict(os.environ, CARGO_TARGET_DIR=W + "/mir", MIRDUMP_CRATE="sett_rs", MIRDUMP_OUT=out,
             RUSTC_WORKSPACE_WRAPPER=os.path.join(os.path.dirname(HERE), "build/mirdump/debug/mirdump"), RUSTFLAGS="-Zmir-opt-level=0 -Awarnings",
             LD_LIBRARY_PATH=subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip() + "/lib")
    subprocess.run("touch src/lib.rs; cargo +nightly check --offline --lib -q", shell=True, cwd=HERE, env=e, check=True)
    return json.load(open(out))


def inputs(seed=3, n=60):
    r = random.Random(seed)
    v = lambda: r.randint(-20, 20) / 8
    out = [([1.0, 2.0], [0.5, -0.5], 1.0, 0)]
    for i in range(n - 1):
        m = r.choice([2, 2, 3, 3, 4, 5, 6])
        out.append(([v() for _ in range(m)], [v() for _ in range(m)], v(), r.randint(0, 6)))
    return out


def actual(ins):
    subprocess.run("cargo build --offline -q", shell=True, cwd=HERE, env=dict(os.environ, CARGO_TARGET_DIR=W, RUSTFLAGS="-Awarnings"), check=True)
    txt = "\n".join(";".join([",".join(map(str, x)), ",".join(map(str, y)), "%s,%d" % (a, k)]) for x, y, a, k in ins) + "\n"
    o = subprocess.run([W + "/debug/conform"], input=txt, capture_output=True, text=True, check=True).stdout
    res, cur = [], None
    for l in o.splitlines():
        if l.startswith("#"):
            cur = {}
            res.append(cur)
        else:
            n, v = l.split(" ", 1)
            cur[n] = json.loads(v.replace('"inf"', '"Infinity"').replace('"-inf"', '"-Infinity"'))
    return res


class At(pv.Env):
    def __init__(self, x, y, a, k):
        pv.Env.__init__(self, 1)
        self.i = (x, y, a, k)
        self.vary = 0

    def rand(self, name, sort, key):
        x, y, a, k = self.i
        if name in ("x.len", "y.len"):
            return len(x)
        if name == "a":
            return mpmath.mpf(a)
        if name == "k":
            return k
        if name in ("x", "y") and len(key) == 1:
            v = x if name == "x" else y
            if not 0 <= key[0] < len(v):
                raise pv.Undefined()
            return mpmath.mpf(v[key[0]])
        if name.startswith("k!") and sort == "I":
            return self.vary  # any iteration
        raise Havoc(name)


def LOOPS(rs):
    return any(v.op == "var" and v.args[0].startswith("k!") for s, _ in rs for h in s.pc for v in tm.subterms(h))


def holds(env, pc):
    und = False
    for h in pc:
        try:
            if not env.ev(h):
                return False
        except pv.Undefined:
            und = True
    if und:
        raise pv.Undefined()
    return True


class Havoc(Exception):
    pass


def flat(env, v, ex):
    if isinstance(v, T):
        return [env.ev(v)]
    if isinstance(v, (VRef, BoxV)):
        return flat(env, v.v, ex)
    if isinstance(v, SeqV):
        n = env.ev(v.n)
        return [n] + [y for i in range(n) for y in flat(env, v.at(intc(i)), ex)]
    if isinstance(v, Tup):
        return [y for f in v.fields for y in flat(env, f, ex)]
    if isinstance(v, EnumV):
        d = env.ev(v.disc)
        if v.ty.startswith("std::result::Result"):
            return [d] + (flat(env, v.vs[0][0], ex) if d == 0 else [])
        return [d] + [y for f in v.vs[d] for y in flat(env, f, ex)]
    if isinstance(v, ChoiceV):
        return flat(env, v.a if env.ev(v.c) else v.b, ex)
    if isinstance(v, MatV):
        return [env.ev(e) for e in v.elems]
    raise Havoc(type(v).__name__)


def same(a, b):
    if a == "Infinity" or a == "-Infinity":
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a, b = mpmath.mpf(a), mpmath.mpf(b)
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def main():
    ins = inputs()
    act = actual(ins)
    p = Prog(dump())
    names = [l for l in open(HERE + "/src/names.rs").read().split("{")[1].split("}")[0].split()]
    pre = sys.argv[1:]
    names = [n for n in names if not pre or any(n.startswith(q) for q in pre)]
    tally = collections.Counter()
    for sf in (True, False):
        for n in names:
            c = Ctx(p)
            t0 = time.time()
            ex = c.exec()
            ex.summary_first = sf
            if sf:
                ex.count_first = 0
            nn = tm.var("x.len", "I")
            xs = VRef(SeqV(nn, lambda i: tm.app("x", (i,), "R")))
            ys = VRef(SeqV(nn, lambda i: tm.app("y", (i,), "R")))
            st = St({}, ())
            st.assume(tm.le(intc(2), nn))
            st.assume(tm.le(intc(0), tm.var("k", "I")))
            try:
                rs = ex.run_body(c.body(n), [xs, ys, tm.var("a"), tm.var("k", "I")], st, merge=False)
            except Unsupported as e:
                tally["unsupported"] += 1
                print("%-16s %s unsupported: %s" % (n, "S" if sf else "U", str(e)[:150]))
                continue
            except Exception as e:
                tally["unsupported"] += 1
                print("%-16s %s unsupported: %s" % (n, "S" if sf else "U", repr(e)[:150]))
                continue
            ok = bad = skip = hav = 0
            for i, (x, y, a, k) in enumerate(ins):
                want = act[i][n]
                got = []
                undef = False
                try:
                    for it in range(len(x) + 1 if LOOPS(rs) else 1):
                        env = At(x, y, a, k)
                        env.vary = it
                        for s, v in rs:
                            try:
                                if holds(env, s.pc):
                                    got.append(flat(env, v, ex))
                            except pv.Undefined:
                                undef = True
                except Havoc as e:
                    hav += 1
                    continue
                if undef and not got:
                    skip += 1
                    continue
                if want is None:
                    skip += not got
                    bad += bool(got)
                    if got:
                        print("   panics, but", got, ins[i])
                    continue
                if any(w in ("Infinity", "-Infinity", "NaN") for w in want):
                    skip += 1
                    continue
                # a state of a loop left early is there for every iteration it could be left in
                if not any(len(g) == len(want) and all(same(u, w) for u, w in zip(g, want)) for g in got) or not LOOPS(rs) and len(got) > 1:
                    bad += 1
                    if bad < 2:
                        print("   DIFFERS", n, ins[i], "runs to", want, "verifier", [[mpmath.nstr(q, 8) if isinstance(q, mpmath.mpf) else q for q in g] for g in got])
                else:
                    ok += 1
            r = "bad" if bad else "havoc" if hav and not ok else "ok" if ok else "skipped"
            tally[r] += 1
            if r != "ok" or hav or time.time() - t0 > 20:
                print("%-16s %s %s: %d equal, %d different, %d undefined, %d unconstrained, %.1f s" % (n, "S" if sf else "U", r, ok, bad, skip, hav, time.time() - t0), flush=True)
    print(dict(tally))
    return 1 if tally["bad"] else 0


sys.exit(main())
