#!/usr/bin/env python3-vt
"""Checks one property against the current working tree of /repo.

  python3-vt check.py C01 [--tier quick|thorough]

exit 0: the property held on everything decided; exit 1 with a VIOLATION line: it does not."""
import argparse, fcntl, hashlib, json, os, signal, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")

# properties whose replay harness tells this property's failures from other properties' failures:
# it is also run when every obligation is discharged (bounded cross-check of the verifier)
ALWAYS = {"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21"}

BASE = [
    "rustc front end of the nightly toolchain (MIR of the crate at -Zmir-opt-level=0) and the driver mirdump/ that prints it",
    "the symbolic executor dv/exec.py and its models of standard-library, nalgebra, ode_solvers, itertools and anyhow functions (dv/models.py; those used are listed under models_used)",
    "the prover dv/prove.py (polynomial normal forms, congruence, case splits) and z3 behind it",
]
ASSUME = [
    "floating-point arithmetic is treated as exact real arithmetic (except in C20, which is decided on machine numbers)",
    "quotients are normalised assuming their denominators are not zero",
    "executions that panic are not constrained",
]


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out
    return p.returncode, out


def mir():
    """the MIR of the crate in /repo's working tree, as JSON"""
    with lock("mir"):
        drv = os.path.join(BUILD, "mirdump", "debug", "mirdump")
        rc, out = sh(["cargo", "+nightly", "build", "--offline"], {"CARGO_TARGET_DIR": os.path.join(BUILD, "mirdump")}, os.path.join(HERE, "mirdump"))
        if rc or not os.path.exists(drv):
            raise RuntimeError("mirdump does not build:\n" + out[-3000:])
        rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
        tgt = os.path.join(BUILD, "mirtarget")
        dst = os.path.join(BUILD, "mir-%d.json" % os.getpid())
        for d in ("debug/.fingerprint", "debug/build"):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                for x in os.listdir(p):
                    if x.startswith("sett-rs"):
                        subprocess.run(["rm", "-rf", os.path.join(p, x)])
        env = {
            "CARGO_TARGET_DIR": tgt, "MIRDUMP_CRATE": "sett_rs", "MIRDUMP_OUT": dst, "RUSTC_WORKSPACE_WRAPPER": drv,
            "RUSTFLAGS": "-Zmir-opt-level=0 -Awarnings", "LD_LIBRARY_PATH": os.path.join(sysroot.strip().split("\n")[-1], "lib"),
        }
        rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib"], env, REPO)
        if not os.path.exists(dst):
            raise RuntimeError("no MIR from /repo:\n" + out[-3000:])
        with open(dst) as f:
            d = json.load(f)
        os.remove(dst)
        return d


class Harness(threading.Thread):
    """builds the replay harness of one property while the verifier works"""

    def __init__(self, pid):
        super().__init__(daemon=True)
        self.pid, self.bin, self.err = pid, None, ""
        self.start()

    def run(self):
        try:
            src = os.path.join(HERE, "harness")
            tgt = os.path.join(BUILD, "harness")
            with lock("harness"):
                man = open(os.path.join(src, "Cargo.toml")).read()
                cwd = src
                if REPO != "/repo":
                    cwd = os.path.join(BUILD, "harness-src")
                    subprocess.run(["rm", "-rf", cwd])
                    subprocess.run(["cp", "-a", src, cwd])
                    open(os.path.join(cwd, "Cargo.toml"), "w").write(man.replace('"/repo"', '"%s"' % REPO))
                    tgt = os.path.join(BUILD, "harness-alt")
                rc, out = sh(["cargo", "build", "--offline", "--bin", self.pid.lower()], {"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "-Awarnings"}, cwd)
                b = os.path.join(tgt, "debug", self.pid.lower())
                if rc or not os.path.exists(b):
                    self.err = "the replay harness does not build: " + out[-2000:]
                else:
                    # other checks may rebuild while this one runs
                    mine = os.path.join(BUILD, "replay-%s-%d" % (self.pid.lower(), os.getpid()))
                    subprocess.run(["cp", b, mine], check=True)
                    self.bin = mine
        except Exception as e:  # no replay
            self.err = "replay harness: %r" % e

    def replay(self, seed, secs):
        self.join(400)
        if not self.bin:
            return {"none": self.err or "the replay harness was not built in time"}
        rc, out = sh([self.bin, str(seed), str(secs)], timeout=secs + 60)
        for l in reversed(out.strip().split("\n")):
            if l.startswith("{"):
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        return {"none": "the replay harness gave no result (exit %d)" % rc}

    def clean(self):
        if self.bin:
            try:
                os.remove(self.bin)
            except OSError:
                pass


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                k, _, text = l.strip().split("property=%s " % pid, 1)[1].partition(" ")
                out.append((k, text))
    return out


def deduce(pid, tier, seed, limit, conn):
    """in a child process: run the specification, send the outcome"""
    from dv import prove
    from dv.spec import Ctx, Prog, Lost
    from dv import specs

    t0 = time.time()
    r = {"obs": [], "findings": [], "lost": [], "error": None}
    try:
        d = mir()
        r["mir_s"] = time.time() - t0
        c = Ctx(Prog(d), seed=seed, tier=tier, deadline=time.time() + limit)
        c.report = lambda: conn.send(pack(c, r))
        try:
            specs.ALL[pid](c)
        except Lost as e:
            r["lost"].append("function not found: %s" % e)
        except Exception as e:
            r["lost"].append("%s: %s" % (type(e).__name__, str(e)[:600]))
            r["trace"] = traceback.format_exc()[-3000:]
        r = pack(c, r)
        r["stats"] = dict(prove.STATS)
    except Exception as e:
        r["error"] = "%s: %s" % (type(e).__name__, str(e)[:3000])
    r["final"] = True
    conn.send(r)
    conn.close()


def pack(c, r):
    r = dict(r)
    r["obs"] = [o.js() for o in c.obs]
    r["findings"] = [list(x) for x in c.findings]
    r["lost"] = r["lost"] + [str(x) for x in c.unsupported]
    for k in ("functions", "contracts", "models", "opaque"):
        r[k] = sorted(str(x) for x in getattr(c, k))
    r["assumptions"] = list(c.assumptions)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    hs = Harness(pid)

    import multiprocessing as mp

    limit = 400 if tier == "quick" else 2400
    r = {"obs": [], "findings": [], "lost": [], "error": "the verifier gave no answer in time"}
    rx, tx = mp.Pipe(False)
    p = mp.get_context("fork").Process(target=deduce, args=(pid, tier, seed, limit, tx))
    p.start()
    tx.close()
    end = time.time() + limit + 60
    while time.time() < end:
        if rx.poll(1.0):
            try:
                r = rx.recv()
            except EOFError:
                break
            if r.get("final"):
                break
        elif not p.is_alive():
            break
    if r.get("final"):
        p.join(5)
    elif p.is_alive():
        r["lost"] = r["lost"] + ["out of time"]
    if p.is_alive():
        p.terminate()
        p.join(5)
        if p.is_alive():
            p.kill()

    listed = known_findings(pid)
    ids = set(k for k, _ in listed)
    obs = r["obs"]
    for o in obs:
        if o["status"] == "known" and not any(o["detail"] == "known finding %s: %s" % x for x in listed):
            o["status"] = "refuted"
            o["detail"] = "a failure like %s that the known-findings file does not list" % o["detail"]
    proved = [o for o in obs if o["status"] in ("proved",)]
    refuted = [o for o in obs if o["status"] == "refuted"]
    unknown = [o for o in obs if o["status"] == "unknown"]
    decided = bool(obs) and not refuted and not unknown and not r["lost"] and not r["error"]

    rep = None
    if not decided or pid in ALWAYS or tier != "quick":
        secs = (60 if not decided else 15) * (1 if tier == "quick" else 6)
        rep = hs.replay(seed, secs)
        for k in rep.get("known", []):
            if not set(k.split()) <= ids:
                rep = {"fail": "a failure like finding %s, which the known-findings file does not list" % k, "bin": pid.lower(), "seed": seed}
    else:
        hs.join(1)
    hs.clean()

    for k, text in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    violation = None
    if rep and "fail" in rep and (not decided or pid in ALWAYS or tier != "quick"):
        violation = {"property": pid, "failing_input": rep, "how_to_rerun": "cd /verif/harness && cargo run --offline --bin %s %s 60 %s" % (rep.get("bin"), rep.get("seed"), rep.get("case")), "failed_obligations": refuted + unknown, "not_decided": r["lost"], "error": r["error"]}
        tail = ""
    elif refuted:
        violation = {"property": pid, "failed_obligations": refuted, "undecided_obligations": unknown, "not_decided": r["lost"], "replay": rep}
        tail = " no-failing-input-found"
    path = os.path.join(EVID, "replay_%s.json" % pid)
    if os.path.exists(path):
        os.remove(path)
    if violation:
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)

    st = r.get("stats", {})
    cov = {
        "obligations": len(obs),
        "discharged": len(proved),
        "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
        "trusted_base": BASE + ["models_used: " + ", ".join(r.get("models", []))],
        "decided_by_verifier": decided,
        "known_findings": [o["name"] for o in obs if o["status"] == "known"],
        "functions_under_contract": r.get("functions", []),
        "contracts_used": r.get("contracts", []),
        "opaque_component_methods": r.get("opaque", []),
        "by_back_end": {b: sum(1 for o in proved if o["backend"] == b) for b in sorted(set(o["backend"] for o in proved))},
        "solver_wall_s": round(sum(o["wall_s"] for o in obs), 2),
        "prover_statistics": {k: v for k, v in st.items() if isinstance(v, (int, float))},
        "obligation_list": [{"name": o["name"], "status": o["status"], "back_end": o["backend"], "wall_s": o["wall_s"]} for o in obs],
        "not_decided": [o["name"] for o in unknown] + r["lost"] + ([r["error"]] if r["error"] else []),
    }
    if rep is not None:
        cov["bounded_replay"] = {"label": "bounded: random inputs to the real code, never counted as proved", **{k: v for k, v in rep.items() if k != "fail"}}
    level = "proof"
    if not decided and not violation:
        # what the verifier left open was only tried, within a bound
        level = "other"
        cov["explanation"] = "%d of %d obligations discharged; the rest could not be decided on this tree and was only tried on random inputs (bounded): nothing is claimed as proved" % (len(proved), len(obs))
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
        "assumptions": ASSUME + r.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided%s; replay %s; %.1f s" % (
        pid, len(obs), len(proved), len(refuted), len(unknown), ("; not decided: " + "; ".join(r["lost"] + ([r["error"]] if r["error"] else [])))[:700] if r["lost"] or r["error"] else "",
        "not run" if rep is None else ("failed" if "fail" in rep else rep.get("none") or "%s cases passed (bounded)" % rep.get("passed")), time.time() - t0))
    if violation:
        for o in refuted[:5]:
            print("failed obligation: %s" % o["name"])
        if "failing_input" in violation:
            print("failing input: %s" % rep["fail"][:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
