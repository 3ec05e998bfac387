"""The engine has to accept the right contracts on the subject functions,
refute the wrong ones (with an input that fails on the uninstrumented code) and
notice undeclared writes."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_REPO_SRC"] = os.path.join(HERE, "selftest", "src")
sys.path.insert(0, HERE)


def accepted(s):
    obs = s.get("obligations") or {}
    return s.get("status") == "ok" and s.get("sat_paths", 0) > 0 and all(o["n"] == o["proved"] for o in obs.values()) and sum(o["n"] for o in obs.values()) > 0


def one(h):
    from .check import job

    P, n = "SELFTEST", h.name
    s = job(P, n, "sym", "1", limit=60)
    c = job(P, n, "conc", "1", runs=h.runs, limit=60)
    if n.startswith("frame_"):
        return n, s.get("status") == "unsupported" and not c.get("fails"), s.get("msg", "")
    if not n.startswith("wrong_"):
        return n, accepted(s) and not c.get("fails") and c.get("runs"), "%s %s %s" % (s.get("status"), s.get("msg"), [k for k, o in (s.get("obligations") or {}).items() if o["n"] != o["proved"]] + (c.get("fails") or []))
    if n == "wrong_vacuous":
        return n, not accepted(s), "accepted"
    bad = [b for b in s.get("bad", []) if b["status"] == "refuted"]
    found = bool(c.get("fails"))
    for b in bad:
        if b.get("inputs") and job(P, n, "replay", "1", given=b["inputs"], limit=30).get("result"):
            found = True
    return n, bool(bad) and found, "refuted %d, input found %s %s" % (len(bad), found, s.get("msg"))


def main():
    import importlib

    importlib.import_module("contracts.selftest")
    from .harness import REGISTRY

    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, REGISTRY["SELFTEST"]))
    bad = [r for r in res if not r[1]]
    for n, ok, d in bad:
        print("selftest: %s: %s" % (n, d))
    print("selftest: %d of %d as expected" % (len(res) - len(bad), len(res)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
