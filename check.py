#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [--shard i/n --out F]

Decides one property by symbolic execution of the jaxpr of the real jax_galsim code plus
an SMT solver.  Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def child_env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        PYTHONHASHSEED="0", JAX_ENABLE_X64="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    return e


def setup_path():
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.dont_write_bytecode = True
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax_galsim

    p = os.path.realpath(jax_galsim.__file__)
    if not p.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("jax_galsim imported from %s, not %s" % (p, REPO))


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def shard_main(a):
    setup_path()
    sys.setrecursionlimit(20000)
    mod = load(a.prop)
    obs = mod.obligations(a.tier)
    i, n = map(int, a.shard.split("/"))
    obs = [o for o in obs if (a.tier == "thorough" or not getattr(o, "thorough", False))]
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    from vlib import prove

    def mine(k):  # shards share one queue: whoever creates the file first decides the obligation
        try:
            os.close(os.open("%s.claim%d" % (a.queue, k), os.O_CREAT | os.O_EXCL))
            return True
        except FileExistsError:
            return False

    with open(a.out, "w") as f:
        f.write(json.dumps({"planned": [o.name for o in obs] if i == 0 else []}) + "\n")
        f.flush()
        t0 = time.time()
        budget = float(os.environ.get("VERIF_SHARD_BUDGET", "560" if a.tier == "quick" else "9000"))
        for k, o in enumerate(obs):
            if time.time() - t0 > budget:
                break
            if not mine(k):
                continue
            r = o.run(a.tier, a.seed) if hasattr(o, "run") else prove.run_ob(o, a.tier, a.seed)
            d = r.d()
            d["bounds"] = o.bounds() if hasattr(o, "bounds") else describe(o)
            d["finding"] = getattr(o, "finding", None)
            d["note"] = getattr(o, "note", "")
            f.write(json.dumps(d, default=str) + "\n")
            f.flush()
    return 0


def describe(o):
    out = []
    for i in o.inputs:
        out.append("%s:%s%s[%s,%s]" % (i.name, i.kind, list(i.shape) if i.shape else "", i.lo, i.hi))
    return ", ".join(out) + (" + assume" if o.assume else "")


def replay_main(a):
    setup_path()
    from vlib import prove

    rep = json.load(open(a.replay))
    mod = load(rep.get("property", a.prop))
    for o in mod.obligations("thorough"):
        if o.name == rep["obligation"]:
            f = o.replay(rep) if hasattr(o, "replay") else prove.replay_fail(o, rep["inputs"])
            print("REPRODUCED: " + f if f else "not reproduced")
            return 1 if f else 0
    print("no such obligation")
    return 2


def findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--queue")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        if os.environ.get("JAX_ENABLE_X64") != "1":
            os.environ.update(child_env())
        return replay_main(a)
    if a.shard:
        return shard_main(a)
    t0 = time.time()
    sys.path.insert(0, HERE)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    procs = []
    n = NPROC
    budget = 840 if a.tier == "quick" else 3 * 3600
    for i in range(n):
        out = os.path.join(tmp, "s%d.jsonl" % i)
        cmd = ["/opt/venv/bin/python", os.path.realpath(__file__), a.prop, "--tier", a.tier, "--seed", str(a.seed),
               "--shard", "%d/%d" % (i, n), "--out", out, "--queue", os.path.join(tmp, "q")]
        if a.only:
            cmd += ["--only", a.only]
        procs.append((subprocess.Popen(cmd, cwd=HERE, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
    results, errs, planned = [], [], []
    for p, out in procs:
        try:
            log, _ = p.communicate(timeout=max(5, budget - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            log, _ = p.communicate()
            errs.append("shard timed out")
        done = []
        if os.path.exists(out):
            for line in open(out):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "planned" in d:
                    planned += d["planned"]
                else:
                    results.append(d)
                    done.append(d["name"])
            os.unlink(out)
        if p.returncode not in (0,):
            errs.append("shard exit %s: %s" % (p.returncode, log.decode(errors="replace")[-1500:]))
    shutil.rmtree(tmp)
    kf = findings(a.prop)
    viol, unknown, known = [], [], []
    for r in results:
        if r["status"] == "violation":
            if r.get("finding") and r["finding"] in kf:
                known.append(r)
            else:
                viol.append(r)
        elif r["status"] == "unknown":
            unknown.append(r)
        elif r["status"] == "error":
            errs.append("%s: %s" % (r["name"], r["detail"]))
    for r in sorted(results, key=lambda r: -r["wall"]):
        if a.v or r["status"] != "ok":
            print("%-10s %6.1fs goals=%d triv=%d q=%d split=%d val=%d %s %s" % (
                r["status"], r["wall"], r["goals"], r["trivial"], r["queries"], r["splits"], r["validated"], r["name"],
                r["detail"][-700:]))
    for r in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, kf[r["finding"]], r["detail"][:200]))
    code = 0
    if viol:
        code = 1
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for k, r in enumerate(viol[:5]):
            rp = os.path.join(rdir, "%s_%d.json" % (a.prop, k))
            rep = dict(r["replay"] or {})
            rep["property"] = a.prop
            json.dump(rep, open(rp, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            print("  obligation %s: %s" % (r["name"], r["detail"][:600]))
    missing = [p for p in planned if p not in {r["name"] for r in results}]
    held = [r for r in results if r["status"] == "ok"]
    # obligations the harness itself could not run (it names something that is gone) are reported and left undecided,
    # like inconclusive ones; when they are not a small part of the check, the check has no answer
    if code == 0 and errs and len(held) < 0.5 * max(len(planned), len(results), 1):
        code = 2
    if code == 0 and not held:
        code = 3
    for e in errs[:5]:
        print("ERROR %s" % e[:600])
    for r in unknown:
        print("INCONCLUSIVE %s: %s" % (r["name"], r["detail"][:300]))
    wall = time.time() - t0
    write_evidence(a, results, viol, unknown, errs, missing, wall)
    print("%s %s: %d obligations, %d held, %d inconclusive, %d violated, %d goals, %d solver queries, %.1fs" % (
        a.prop, a.tier, len(results), len(held), len(unknown), len(viol), sum(r["goals"] for r in results),
        sum(r["queries"] for r in results), wall))
    return code


def write_evidence(a, results, viol, unknown, errs, missing, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    calls, prims = set(), set()
    for r in results:
        calls.update(r.get("calls") or [])
        prims.update(r.get("prims") or [])
    ok = [r for r in results if r["status"] == "ok"]
    cov = {
        "explanation": "Each obligation traces the real jax_galsim code to its jaxpr (or runs it on concolic proxies), "
        "interprets it over symbolic inputs and asks z3 for a violating input; unsat = holds for all inputs in the stated bounds, "
        "floats read as exact reals with the stated tolerance.",
        "obligations": len(results),
        "discharged": len(ok),
        "inconclusive": [r["name"] for r in unknown] + missing + [e[:80] for e in errs],
        "goals": sum(r["goals"] for r in results),
        "goals_closed_by_normal_form": sum(r["trivial"] for r in results),
        "solver_queries": sum(r["queries"] for r in results),
        "case_splits": sum(r["splits"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 3),
        "jaxpr_equations_interpreted": sum(r["eqns"] for r in results),
        "translator_validation_points": sum(r["validated"] for r in results),
        "jit_functions_inlined": sorted(calls)[:200],
        "primitives": sorted(prims),
        "samples": [{"obligation": r["name"], "bounds": r["bounds"], "goals": r["goals"], "queries": r["queries"],
                     "status": r["status"], "wall_s": round(r["wall"], 2), "note": r.get("note", "")} for r in results],
    }
    mod_assume = []
    try:
        sys.path.insert(0, HERE)
        src = open(os.path.join(HERE, "checks", a.prop.lower() + ".py")).read()
        m = re.search(r"ASSUMPTIONS = (\[.*?\n\])", src, re.S)
        if m:
            mod_assume = eval(m.group(1))
        m = re.search(r"FUNCTIONS = (\[.*?\])\n", src, re.S)
        if m:
            cov["functions_encoded"] = eval(m.group(1))
    except Exception:
        pass
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "other", "coverage": cov,
        "assumptions": [
            "float64 arithmetic is treated as exact real arithmetic; equalities are decided up to the obligation's tolerance",
            "double constants are read as the simple rational / multiple of pi they round",
            "transcendental and special functions are uninterpreted up to the axioms in vlib/term.py and vlib/jx.py",
            "machine integers are mathematical integers",
        ] + mod_assume,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
