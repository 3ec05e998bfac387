"""One harness in one mode, in its own process.  Prints one JSON line."""
import argparse
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def load(prop):
    importlib.import_module("contracts." + prop.lower())
    from . import harness

    return {h.name: h for h in harness.REGISTRY.get(prop, [])}


def run_sym(h, unroll, max_paths, time_limit):
    from . import core, harness

    E = core.Engine(max_paths=max_paths, time_limit=time_limit, unroll=unroll)
    status, msg = "ok", ""

    def body():
        v = harness.Sym(E)
        try:
            h.fn(v)
            for q, n in E.left:
                E.oblige("loop %s#%d: every turn is taken" % (q.split(".")[-1], n), False, "loop", "the loop is left early")
        except (core.PathAbort, core.Unsupported, core.Limit):
            raise
        except RecursionError as e:
            raise core.Unsupported("recursion")
        except (Exception, harness.Inapplicable) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
            inside = any("/pypsrp/" in f.filename for f in tb)
            if inapplicable(e):
                raise core.Unsupported("harness no longer fits the code: %s" % e)
            if not inside and not isinstance(e, (IndexError, KeyError, AttributeError, TypeError, ValueError)):
                raise
            E.oblige("no unexpected exception", False, "post", "%s: %s at %s" % (type(e).__name__, str(e)[:200], where))

    def over(signum, frame):
        raise core.Limit("%d s without an end" % time_limit)

    signal.signal(signal.SIGALRM, over)
    signal.setitimer(signal.ITIMER_REAL, time_limit + 15)
    try:
        E.explore(body)
        if E.unsupported:
            raise E.unsupported[0]
    except core.Unsupported as e:
        status, msg = "unsupported", str(e)
        tb = traceback.extract_tb(e.__traceback__)
        msg += " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb) if "/pypsrp/" in f.filename or "/contracts/" in f.filename)[:300]
    except core.Limit as e:
        status, msg = "limit", str(e)
    except Exception as e:
        status, msg = "crash", "".join(traceback.format_exception(e))[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    obs = {}
    for o in E.obligations:
        d = obs.setdefault(o.name, {"kind": o.kind, "n": 0, "proved": 0, "refuted": 0, "unknown": 0, "backends": {}})
        d["n"] += 1
        d[o.status] += 1
        d["backends"][o.backend] = d["backends"].get(o.backend, 0) + 1
    bad = []
    seen = {}
    for o in E.obligations:
        if o.status != "proved":
            if seen.get((o.name, o.status), 0) >= 3:
                continue
            seen[(o.name, o.status)] = seen.get((o.name, o.status), 0) + 1
            bad.append({"name": o.name, "kind": o.kind, "status": o.status, "inputs": harness.enc(o.inputs) if o.inputs else o.inputs, "detail": o.detail, "smt": o.smt})
    return {
        "harness": h.name,
        "mode": "sym" if unroll is None else "unroll",
        "unroll": unroll,
        "status": status,
        "msg": msg,
        "obligations": obs,
        "bad": bad,
        "paths": E.paths_done,
        "sat_paths": E.sat_paths,
        "models": sorted(k[6:] for k in E.contract_used if k.startswith("model:")),
        "cut": E.paths_cut,
        "infeasible": E.paths_infeasible,
        "queries": E.queries,
        "solver_time": round(E.solver_time, 3),
        "time": round(time.time() - E.t0, 3),
        "used": {k: x for k, x in E.contract_used.items() if not k.startswith("model:")},
        "loops": sorted(E.loops_used),
        "loops_unattached": sorted(E.loops_wanted - E.loops_used),
        "touched": sorted(E.touched),
        "bounded_notes": sorted(E.bounded_notes),
        "reached": E.reached,
    }


def inapplicable(e):
    """the harness reached for a private name that is not there any more, or
    with a signature that changed: not evidence about the property"""
    from . import harness

    if isinstance(e, harness.Inapplicable):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    if not tb or "/pypsrp/" in tb[-1].filename:
        return False
    if isinstance(e, AttributeError) and e.name and e.name.startswith("_") and not e.name.startswith("__"):
        o = e.obj
        m = getattr(o, "__name__", "") if type(o).__name__ == "module" else getattr(o if isinstance(o, type) else type(o), "__module__", "")
        return str(m).startswith("pypsrp")
    if isinstance(e, ImportError) and "pypsrp" in str(e):
        return True
    if isinstance(e, TypeError):
        import re

        g = re.match(r"^(?:\w+\.)*(_\w+)\(\) (missing|takes|got)", str(e))
        return bool(g)
    return False


class TooLong(BaseException):
    pass


RUN_CPU = 45  # seconds of processor time; one run takes milliseconds


def too_long(signum, frame):
    raise TooLong()


def one(h, v):
    """returns None, or (name, detail) of the failed check"""
    from . import harness

    signal.signal(signal.SIGPROF, too_long)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU)
    try:
        h.fn(v)
        # a failed check stays one, wherever its exception ended up
        return v.failed[0] if v.failed else None
    except TooLong:
        return ("returns", "still running after %d s of processor time" % RUN_CPU)
    except harness.Violation as e:
        return (e.name, e.detail)
    except harness.Skip:
        return "skip"
    except (Exception, harness.Inapplicable) as e:
        if v.failed:
            return v.failed[0]
        if inapplicable(e):
            v.inapplicable = str(e)
            return "skip"
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        if not any("/pypsrp/" in f.filename for f in tb):
            # harness code itself; still evidence if it digests wrong results
            return ("no unexpected exception", "%s: %s at %s (harness)" % (type(e).__name__, str(e)[:200], where))
        return ("no unexpected exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], where))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        v.finish()


def run_conc(h, runs, time_limit, seed):
    from . import harness

    t0 = time.time()
    n = skipped = checks = 0
    samples = []
    fails = []
    covers = set()
    # systematic part: enumerate the choice tree
    work = [[]]
    sysmax = runs // 2 if runs > 4 else runs
    k = 0
    exhausted = False
    distinct = set()
    pairs = set()
    inapp = None
    while n < runs and time.time() - t0 < time_limit and len(fails) < 3:
        if work and k < sysmax:
            # spread over the tree: take the shortest pending prefix first
            prefix = work.pop(0) if k % 2 else work.pop()
            v = harness.Conc(seed="%s/%s/s%d" % (seed, h.name, k), choices=prefix)
            k += 1
            r = one(h, v)
            work.extend(v.cpending)
            if not work:
                exhausted = True
        else:
            # every second run covers pairs of choices not yet seen
            v = harness.Conc(seed="%s/%s/%d" % (seed, h.name, n), pairs=pairs if n % 2 else None)
            r = one(h, v)
        n += 1
        checks += v.checks
        covers |= v.covers
        if v.inapplicable:
            inapp = v.inapplicable
            break
        if r == "skip":
            skipped += 1
            if skipped > 20 * runs:
                break
            continue
        key = repr(sorted(v.record.items(), key=lambda x: x[0]))
        distinct.add(hash(key))
        if len(samples) < 2:
            samples.append(json.dumps(harness.enc(v.record))[:300])
        if r is not None:
            fails.append({"name": r[0], "detail": r[1], "inputs": harness.enc(v.record)})
            if r[0] == "returns":
                break
    return {
        "harness": h.name,
        "mode": "conc",
        "status": "ok",
        "runs": n,
        "skipped": skipped,
        "inapplicable": inapp,
        "checks": checks,
        "distinct": len(distinct),
        "choices_exhausted": exhausted,
        "samples": samples,
        "fails": fails,
        "covers": sorted(covers),
        "time": round(time.time() - t0, 3),
    }


def run_replay(h, given):
    from . import harness

    v = harness.Conc(given=harness.dec(given), seed=1)
    r = one(h, v)
    return {"harness": h.name, "mode": "replay", "status": "ok", "result": None if r is None or r == "skip" else list(r), "skip": r == "skip", "inputs": harness.enc(v.record)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--harness", required=True)
    ap.add_argument("--mode", required=True)
    ap.add_argument("--unroll", type=int)
    ap.add_argument("--runs", type=int, default=100)
    ap.add_argument("--limit", type=float, default=200)
    ap.add_argument("--max-paths", type=int, default=None)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--given")
    ap.add_argument("--out")
    a = ap.parse_args()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    try:
        if a.mode in ("sym", "unroll"):
            from . import instrument

            instrument.install()
        hs = load(a.prop)
        h = hs[a.harness]
        if a.mode == "sym":
            res = run_sym(h, None, a.max_paths or h.max_paths, a.limit)
        elif a.mode == "unroll":
            res = run_sym(h, a.unroll or h.unroll, a.max_paths or h.max_paths, a.limit)
        elif a.mode == "conc":
            res = run_conc(h, a.runs, a.limit, a.seed)
        else:
            res = run_replay(h, json.loads(open(a.given).read())["inputs"])
    except BaseException as e:
        res = {"harness": a.harness, "mode": a.mode, "status": "crash", "msg": "".join(traceback.format_exception(e))[-2500:]}
    txt = json.dumps(res)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(json.dumps(res, indent=1))


if __name__ == "__main__":
    main()
