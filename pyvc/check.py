"""Decide one property: run its contract harnesses, report, write evidence.

python3 -m pyvc.check C01 [--tier quick|thorough] [--only harness]
Exit 0: every obligation accepted (or, where a function left the verifier's
subset, its labelled bounded stand-in found nothing).  Exit 1: a violation.
"""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


BUDGET = 600  # seconds for a quick check; alarms take longer to decide than acceptance
DEADLINE = None


def job(prop, h, mode, seed, runs=None, limit=None, unroll=None, given=None, max_paths=None, hard=None):
    if DEADLINE is not None and mode != "replay":
        # what follows a failed proof shares what is left of the check's time
        left = DEADLINE - time.time()
        if left < 5:
            return {"harness": h, "mode": mode, "status": "limit", "msg": "no time left", "wall": 0}
        limit = min(limit or 200, left)
        hard = left + 40
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    gf = None
    cmd = [PY, "-m", "pyvc.job", "--prop", prop, "--harness", h, "--mode", mode, "--seed", str(seed), "--out", out]
    if runs:
        cmd += ["--runs", str(runs)]
    if limit:
        cmd += ["--limit", str(limit)]
    if unroll:
        cmd += ["--unroll", str(unroll)]
    if max_paths:
        cmd += ["--max-paths", str(max_paths)]
    if given is not None:
        fd, gf = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        with open(gf, "w") as f:
            json.dump({"inputs": given}, f)
        cmd += ["--given", gf]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=hard or (limit or 200) * 1.5 + 60)
        txt = open(out).read()
        if txt:
            r = json.loads(txt)
        else:
            r = {"status": "crash", "msg": "job ended with %s: %s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-800:])}
    except subprocess.TimeoutExpired:
        r = {"status": "limit", "msg": "hard timeout"}
    finally:
        os.unlink(out)
        if gf:
            os.unlink(gf)
    r.setdefault("harness", h)
    r.setdefault("mode", mode)
    r["wall"] = round(time.time() - t, 2)
    return r


def replay_dir():
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_replay(prop, h, kind, data):
    body = {"property": prop, "harness": h, "kind": kind}
    body.update(data)
    body["how_to_replay"] = "cd /verif && ./check --replay <this file>"
    txt = json.dumps(body, indent=1, sort_keys=True, default=str)
    name = "%s-%s-%s.json" % (prop, h, hashlib.sha1(txt.encode()).hexdigest()[:10])
    path = os.path.join(replay_dir(), name)
    with open(path, "w") as f:
        f.write(txt)
    return path


def known_findings():
    """entries `finding: property=<id> harness=<h> check=<name>`; fixed entries suppress nothing"""
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:") :]))
    except FileNotFoundError:
        pass
    return out


class Verdict:
    def __init__(self, prop):
        self.prop = prop
        self.lines = []
        self.violations = []
        self.notes = []

    def violation(self, path, nfi=False, what=""):
        self.violations.append((path, nfi, what))


def decide(prop, h, sym, conc, seed, tier, V, pool):
    """verdict on one harness; returns its part of the evidence"""
    ev = {"harness": h.name, "functions": h.funcs}
    # --- concrete failures: the real code, run on real input
    concrete_fail = None
    if conc is not None:
        if conc.get("status") == "crash":
            V.notes.append("%s: concrete run not available: %s" % (h.name, conc.get("msg", "")[-300:]))
            ev["concrete"] = {"runs": 0, "note": conc.get("msg", "")[-300:]}
        else:
            ev["concrete"] = {k: conc.get(k) for k in ("runs", "distinct", "checks", "skipped", "choices_exhausted")}
            if conc.get("inapplicable"):
                V.notes.append("%s: harness no longer fits the code: %s" % (h.name, conc["inapplicable"]))
            for f in conc.get("fails", []):
                r = job(prop, h.name, "replay", seed, given=f["inputs"], limit=60)
                if r.get("result"):
                    concrete_fail = f
                    p = write_replay(prop, h.name, "input", {"inputs": f["inputs"], "failed": f["name"], "detail": f["detail"], "found_by": "concrete run"})
                    V.violation(p, False, "%s: %s (%s)" % (h.name, f["name"], f["detail"][:200]))
                    break
                else:
                    # not deterministic: report with the run itself
                    V.notes.append("%s: concrete failure %r did not replay (%s)" % (h.name, f["name"], f["detail"][:200]))
            ev["concrete"]["samples"] = conc.get("samples", [])
    if sym is None:
        ev["proof"] = None
        return ev
    obs = sym.get("obligations") or {}
    total = sum(o["n"] for o in obs.values())
    ok = sum(o["proved"] for o in obs.values())
    ev["proof"] = {
        "status": sym.get("status"),
        "msg": sym.get("msg", ""),
        "obligations": total,
        "discharged": ok,
        "named": {k: [o["n"], o["proved"]] for k, o in obs.items()},
        "paths": sym.get("paths"),
        "cut_paths": sym.get("cut"),
        "queries": sym.get("queries"),
        "solver_s": sym.get("solver_time"),
        "loops_under_contract": sym.get("loops"),
        "callee_contracts_used": sym.get("used"),
        "engine_models_used": sym.get("models"),
        "functions_executed": sym.get("touched"),
        "bounded": h.bounded,
    }
    be = {}
    for o in obs.values():
        for k, n in o["backends"].items():
            be[k] = be.get(k, 0) + n
    ev["proof"]["backends"] = be
    accepted = sym.get("status") == "ok" and total > 0 and ok == total and sym.get("sat_paths", 0) > 0
    if sym.get("status") == "ok" and not accepted and ok == total:
        V.notes.append("%s: vacuous (obligations %d, satisfiable paths %s)" % (h.name, total, sym.get("sat_paths")))
    ev["accepted"] = accepted
    if accepted or concrete_fail:
        return ev
    # --- something was not accepted
    bad = sym.get("bad", [])
    # a loop contract that met no loop (moved, rewritten, renumbered) or is not
    # preserved says that the annotation no longer fits, not that the code is wrong
    loop_broken = any(b["kind"] == "loop" for b in bad) or bool(sym.get("loops_unattached"))
    post = [b for b in bad if b["status"] == "refuted" and b["kind"] != "loop"]
    tried = []
    for b in post[:6]:
        if not b.get("inputs"):
            continue
        r = job(prop, h.name, "replay", seed, given=b["inputs"], limit=60)
        tried.append(r.get("result"))
        if r.get("result"):
            p = write_replay(prop, h.name, "input", {"inputs": b["inputs"], "failed": b["name"], "observed": r["result"], "detail": b["detail"], "found_by": "counterexample of the solver, replayed on the uninstrumented code"})
            V.violation(p, False, "%s: %s" % (h.name, b["name"]))
            return ev
    # bounded symbolic run (loops unrolled) and a wider concrete search
    futs = [pool.submit(job, prop, h.name, "unroll", seed, limit=150 if tier == "quick" else 600, unroll=h.unroll)]
    if h.conc:
        for i in range(4):
            futs.append(pool.submit(job, prop, h.name, "conc", "%s+%d" % (seed, i), runs=h.runs * 10, limit=90))
    res = [f.result() for f in futs]
    un, cs = res[0], res[1:]
    for c in cs:
        for f in c.get("fails", []):
            r = job(prop, h.name, "replay", seed, given=f["inputs"], limit=60)
            if r.get("result"):
                p = write_replay(prop, h.name, "input", {"inputs": f["inputs"], "failed": f["name"], "detail": f["detail"], "found_by": "concrete search after a failed proof", "failed_obligations": bad[:5]})
                V.violation(p, False, "%s: %s (%s)" % (h.name, f["name"], f["detail"][:200]))
                return ev
    ubad = [b for b in un.get("bad", []) if b["status"] == "refuted"]
    for b in ubad[:8]:
        if b.get("inputs"):
            r = job(prop, h.name, "replay", seed, given=b["inputs"], limit=60)
            if r.get("result"):
                p = write_replay(prop, h.name, "input", {"inputs": b["inputs"], "failed": b["name"], "observed": r["result"], "detail": b["detail"], "found_by": "bounded unrolling, replayed on the uninstrumented code"})
                V.violation(p, False, "%s: %s" % (h.name, b["name"]))
                return ev
    ev["bounded_stand_in"] = {
        "bound": "loops unrolled at most %d times" % h.unroll,
        "unroll_status": un.get("status"),
        "unroll_msg": un.get("msg", ""),
        "unroll_obligations": sum(o["n"] for o in (un.get("obligations") or {}).values()),
        "concrete_runs": sum(c.get("runs", 0) for c in cs),
    }
    if (post and not loop_broken) or ubad:
        # a refuted obligation without a failing input: still a violation
        p = write_replay(
            prop,
            h.name,
            "obligation",
            {"failed_obligations": [b for b in (post or ubad)][:8], "verifier_output": {k: sym.get(k) for k in ("status", "msg", "obligations")}, "unrolled": {k: un.get(k) for k in ("status", "msg")}},
        )
        V.violation(p, True, "%s: %s" % (h.name, (post or ubad)[0]["name"]))
        return ev
    V.notes.append(
        "%s: not proved on this tree (%s %s%s); bounded stand-in found nothing"
        % (h.name, sym.get("status"), (sym.get("msg") or "")[:300], "; loop contract not preserved: %s" % [b["name"] for b in bad if b["kind"] == "loop"][:3] if loop_broken else "")
    )
    return ev


def run_check(prop, tier, seed, only=None):
    sys.path.insert(0, HERE)
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop.lower())
    from . import harness

    hs = [h for h in harness.REGISTRY.get(prop, []) if only is None or h.name == only]
    V = Verdict(prop)
    thorough = tier == "thorough"
    pool = concurrent.futures.ThreadPoolExecutor(WORKERS)
    futs = {}
    for h in hs:
        if h.sym:
            futs[(h.name, "sym")] = pool.submit(job, prop, h.name, "sym", seed, limit=h.time_limit * (3 if thorough else 1), max_paths=h.max_paths * (4 if thorough else 1))
    for h in hs:
        if h.conc:
            futs[(h.name, "conc")] = pool.submit(job, prop, h.name, "conc", seed, runs=h.thorough_runs if thorough else (h.runs if h.runs <= 1 else 2 * h.runs), limit=400 if thorough else 60)
        if thorough and h.sym:
            futs[(h.name, "unroll")] = pool.submit(job, prop, h.name, "unroll", seed, limit=300, unroll=h.unroll + 1)
    parts = []
    res = {k: f.result() for k, f in futs.items()}
    pool2 = concurrent.futures.ThreadPoolExecutor(WORKERS)
    global DEADLINE
    if not thorough:
        DEADLINE = t0 + BUDGET
    pool3 = concurrent.futures.ThreadPoolExecutor(4)
    parts = [f.result() for f in [pool3.submit(decide, prop, h, res.get((h.name, "sym")), res.get((h.name, "conc")), seed, tier, V, pool2) for h in hs]]
    # known findings: only an exact match of harness and failed check is silenced
    kf = [k for k in known_findings() if k.get("property") == prop]
    shown = set()
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", "")))
    nviol = 0
    # those with an input first; when there is one, the others say no more
    V.violations.sort(key=lambda x: x[1])
    for path, nfi, what in V.violations:
        print("# " + what)
        if nfi and nviol and not V.violations[0][1]:
            print("# an obligation without a failing input: " + path)
            continue
        print("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if nfi else ""))
        nviol += 1
    for n in V.notes:
        print("note: " + n)
    write_evidence(prop, tier, seed, hs, parts, V, time.time() - t0, mod, res)
    return 1 if nviol else 0


def write_evidence(prop, tier, seed, hs, parts, V, wall, mod, res):
    from . import assumed

    by = {h.name: h for h in hs}
    full = [p for p in parts if p.get("proof") and not by[p["harness"]].bounded]
    bnd = [p for p in parts if p.get("proof") and by[p["harness"]].bounded]
    ob = sum(p["proof"]["obligations"] for p in full)
    dis = sum(p["proof"]["discharged"] for p in full)
    be, solver = {}, 0.0
    models = set()
    for p in full + bnd:
        solver += p["proof"].get("solver_s") or 0
        for k, n in p["proof"]["backends"].items():
            be[k] = be.get(k, 0) + n
        models.update(p["proof"].get("engine_models_used") or [])
    evals = sum((p.get("concrete") or {}).get("runs") or 0 for p in parts)
    dist = sum((p.get("concrete") or {}).get("distinct") or 0 for p in parts)
    samples = []
    for p in parts:
        samples += (p.get("concrete") or {}).get("samples", [])[:1]
    level = getattr(mod, "LEVEL", "proof")
    if not full:
        level = "other"
    funcs = sorted({f for h in hs for f in h.funcs})
    expl = (
        "Contracts on the real functions, executed symbolically from /repo's current source (mechanical instrumentation only); every clause on every "
        "feasible path is discharged by an SMT solver. Harnesses marked bounded quantify over stated bounded shapes with symbolic leaves. "
        "A concrete run of the same contracts on the uninstrumented code cross-checks them."
    )
    cov = {
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "./check %s --tier %s" % (prop, tier),
        "trusted_base": assumed.trusted_base(),
        "explanation": expl,
        "functions_under_contract": funcs,
        "harnesses_proved": [p["harness"] for p in full if p.get("accepted")],
        "harnesses_not_proved": [p["harness"] for p in full if not p.get("accepted")],
        "harnesses_bounded": {p["harness"]: {"bound": by[p["harness"]].bounded, "obligations": p["proof"]["obligations"], "discharged": p["proof"]["discharged"]} for p in bnd},
        "harnesses_concrete_only": [p["harness"] for p in parts if not p.get("proof")],
        "backends": be,
        "solver_s": round(solver, 2),
        "evaluations": evals,
        "distinct_nontrivial": dist,
        "rule": "concrete cross-check: each harness's choice tree enumerated breadth/depth alternately, then random inputs (seeded, biased to boundary values and to literals of the source); a case is non-trivial when it satisfied the precondition and its inputs differ from every earlier case of that harness",
        "samples": samples[:8],
        "engine_models_used": sorted(models),
        "detail": parts,
        "notes": V.notes,
    }
    ass = list(assumed.for_models(models))
    for h in hs:
        for a in h.assumes:
            if a not in ass:
                ass.append(a)
    d = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": ass,
        "wall_s": round(wall, 2),
        "violations": len(V.violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    if d.get("kind") != "input":
        print(json.dumps(d, indent=1)[:6000])
        print("no failing input recorded: the obligation above was not accepted")
        return 1
    r = job(d["property"], d["harness"], "replay", 1, given=d["inputs"], limit=60)
    print(json.dumps(r, indent=1))
    return 1 if r.get("result") else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(run_check(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", seed, a.only))


if __name__ == "__main__":
    main()
