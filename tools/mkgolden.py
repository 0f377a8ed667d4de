"""Record the published tables and damping parameters of the pinned tree:
data/tables.npz, data/params.json.  Run by hand only, never by a check."""
import json
import os
import sys

sys.path.insert(0, "/repo/src")
import numpy as np
import tomli

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.props.c21 import DEFAULTS, tables

if __name__ == "__main__":
    np.savez_compressed(f"{HERE}/data/tables.npz", **{k: v for k, v in tables().items() if v is not None})
    out = {}
    for m in ("d3", "d4"):
        out[m] = tomli.load(open(f"/repo/src/tad_dftd4/damping/parameters/{m}.toml", "rb"))
    json.dump(out, open(f"{HERE}/data/params.json", "w"), indent=0, sort_keys=True, default=str)
