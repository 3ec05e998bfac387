"""Fill the generated tables of DESIGN.md: harnesses (from the contracts) and
planted bugs (from seeded/*/meta.json and tools/caught.json)."""
import glob
import importlib
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
for f in sorted(glob.glob(os.path.join(H, "contracts", "c[0-9][0-9].py"))):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
from pyvc.harness import REGISTRY  # noqa: E402


def cell(t):
    return " ".join(str(t).split()).replace("|", "\\|")


def harnesses():
    out = ["Kinds: *all* – unbounded, every obligation has to be discharged; *shapes* – symbolic over stated bounded shapes, labelled bounded;", "*runs* – concrete runs on the uninstrumented code only, never counted as proof.  Every *all* and *shapes* harness is run concretely as well.", ""]
    n = {"all": 0, "shapes": 0, "runs": 0}
    rows = []
    for p, hs in sorted(REGISTRY.items()):
        for h in hs:
            kind = "runs" if not h.sym else "shapes" if h.bounded else "all"
            n[kind] += 1
            doc = cell(h.fn.__doc__ or h.name.replace("_", " "))
            if h.bounded and kind == "shapes":
                doc += " (bound: %s)" % cell(h.bounded)
            if h.assumes:
                doc += " (assumes: %s)" % cell("; ".join(map(str, h.assumes)))
            rows.append("| %s | `%s` | %s | %s |" % (p, h.name, kind, doc))
    out.append("%d harnesses: %d all, %d shapes, %d runs." % (len(rows), n["all"], n["shapes"], n["runs"]))
    out += ["", "| property | harness | kind | what it states |", "|---|---|---|---|"] + rows
    return "\n".join(out)


def seeded():
    c = json.load(open(os.path.join(H, "tools", "caught.json")))
    rows = ["| id | what it breaks | needs | reported by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        rows.append("| %s | %s | %s | %s |" % (i, cell(m["what_it_breaks"]), cell(m["needs"]), cell(c.get(i, "not evaluated"))))
    return "%d changes kept.\n\n%s" % (len(rows) - 2, "\n".join(rows))


def main():
    p = os.path.join(H, "DESIGN.md")
    s = open(p).read()
    for name, f in (("seeded", seeded), ("harnesses", harnesses)):
        a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + f() + "\n" + s[j:]
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
