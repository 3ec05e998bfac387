"""contracts/functions.json: the functions there were when the contracts were
written, each with its number of (for, while) loops and the locals of those
that have loops, in the order of their first binding.  A loop contract follows
its loop into a function that is newer, and is not used where the number of
loops is another."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pyvc import inlined  # noqa: E402

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "functions.json")
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src") + "/pypsrp"
out = {}
for f in sorted(os.listdir(SRC)):
    if not f.endswith(".py"):
        continue

    def go(n, p):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                l = out.setdefault(".".join(p + [c.name]), [0, 0])

                def count(x):
                    for y in ast.iter_child_nodes(x):
                        if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                            continue
                        if isinstance(y, (ast.For, ast.While)):
                            l[isinstance(y, ast.While)] += 1
                        count(y)

                count(c)
                if l[0] + l[1]:
                    names = inlined.local_names(c)
                    l[2:] = [names]
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                go(c, p + [c.name])
            else:
                go(c, p)

    go(ast.parse(open(os.path.join(SRC, f)).read()), ["pypsrp", f[:-3]] if f != "__init__.py" else ["pypsrp"])
json.dump(dict(sorted(out.items())), open(OUT, "w"), indent=0)
print(len(out), "functions")
