"""Freezes the public surface at the pinned commit (run once): module functions and methods without a leading underscore."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from lopcheck.repo import Repo
R = Repo()
out = sorted({f.qual for f in R.all_funcs() if f.parent is None and (not f.name.startswith("_") or f.name in ("__init__", "__call__"))})
json.dump(out, open(os.path.join(H, "lopcheck", "api.json"), "w"), indent=0)
print(len(out))
