"""Write spec/known_names.json: the functions and names the references may rely on."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(100000)
from sa.model import load  # noqa: E402

p = load(os.environ.get("VERIF_REPO", "/repo"))
names = set()
for f in p.funcs.values():
    names |= {f.name, f.qual}
for c in p.classes.values():
    names |= {c.qual, *c.attrs, *c.ann}
import ast
for m in p.modules.values():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute):
            names.add(n.attr)
json.dump({"functions": sorted(f.qual for f in p.funcs.values() if not f.nested), "names": sorted(names)},
          open(os.path.join(ROOT, "spec", "known_names.json"), "w"), indent=0)
