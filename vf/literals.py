"""Numeric literals of the current source that the recorded tree did not have.
They only direct the search for failing inputs; no verdict depends on them."""
import ast
import json
import os
import sys

SRC = "/repo/src/tad_dftd4"
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "literals.json")
SKIP = ("reference", "wfpair.py", "r4r2.py")


def source():
    m = sys.modules.get("tad_dftd4")
    return os.path.dirname(m.__file__) if m is not None and getattr(m, "__file__", None) else SRC


def scan():
    out = {}
    top = source()
    for root, _, files in os.walk(top):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, top)
            if not f.endswith(".py") or any(s in rel for s in SKIP):
                continue
            try:
                t = ast.parse(open(p).read())
            except (SyntaxError, OSError):
                continue
            vals = {}
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    vals[repr(float(n.value))] = vals.get(repr(float(n.value)), 0) + 1
            out[rel] = vals
    return out


def new_literals():
    try:
        base = json.load(open(FILE))
    except OSError:
        return []
    out = set()
    for rel, vals in scan().items():
        b = base.get(rel, {})
        for v, c in vals.items():
            if c > b.get(v, 0) and abs(float(v)) not in (0.0, 1.0):
                out.add(abs(float(v)))
    return sorted(out)[:20]


if __name__ == "__main__":
    os.makedirs(os.path.dirname(FILE), exist_ok=True)
    json.dump(scan(), open(FILE, "w"), indent=0, sort_keys=True)
