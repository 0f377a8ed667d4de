"""Precision contract: the dtype of every result, no rounding of a
double-precision value to single precision, and Gaussian weighting carried out
in double precision in single-precision calculations."""
from __future__ import annotations

import time

from . import ir
from .ir import SYMS
from .relate import extract
from .scen import DT
from .sym import Unsupported


def lossy(x):
    """May converting x to single precision change its value?"""
    x = ir.strip_marks(x)
    if x.sort != "R" or x.op == "const":
        return False
    if x.op == "ite":
        return lossy(x.args[1]) or lossy(x.args[2])
    return True


def rounded(t):
    """Values (also inside conditions) rounded to single precision."""
    return [x for x in ir.subterms(t) if x.op == "mark" and x.data in ("cast32", "down") and lossy(x.args[0])]


def single(t, name="cn"):
    """Exponentials, powers and divisions depending on `name` evaluated in
    single precision, and any arithmetic on it before it is widened;
    `up`/`down` marks delimit the precision."""
    out = []
    seen = set()
    stack = [(t, 0)]  # 0 single (outer), 1 double, 2 single inside double
    while stack:
        x, st = stack.pop()
        if (x.id, st) in seen or x.sort == "B":
            continue
        seen.add((x.id, st))
        if x.op == "mark" and x.data in ("up", "down"):
            stack.append((x.args[0], 1 if x.data == "down" else 2 if st == 1 else st))
            continue
        if x.op == "app":
            continue
        heavy = x.op in ("div", "pow") or (x.op == "fun" and x.data in ("exp", "log", "sqrt"))
        arith = x.op in ("add", "mul")
        if ((heavy and st != 1) or (arith and st == 2)) and name in ir.symbols(x):
            out.append(x)
            continue
        for a in (x.args[1:] if x.op == "ite" else x.args):
            stack.append((a, st))
    return out


def check(rep, scn, weights=()):
    """Obligations of one scenario; `weights`: outputs whose Gaussian part must be double."""
    bad = []
    try:
        for k, e in enumerate(extract(rep, scn, strip=False, track=scn.dtype == "f32") or []):
            if not isinstance(e.outs, dict):
                continue
            for o in scn.outs:
                if o.name not in e.outs:
                    continue
                t0 = time.time()
                _, _, t, g = e.outs[o.name]
                nm = f"{scn.name}#{k}:{o.name}"
                if g._dtype.is_floating_point:
                    if g._dtype != DT[scn.dtype]:
                        rep.undecided(f"{nm}:dtype", f"result has {g._dtype}")
                        bad.append(rep.obs[-1])
                    else:
                        rep.ok(f"{nm}:dtype", str(g._dtype), seconds=0.0)
                if scn.dtype == "f64":
                    c = rounded(t)
                    if c:
                        rep.undecided(f"{nm}:rounding", f"rounded to single precision: {ir.pp(c[0], 5)}")
                        bad.append(rep.obs[-1])
                    else:
                        rep.ok(f"{nm}:rounding", "", seconds=time.time() - t0)
                elif o.name in weights:
                    c = single(t)
                    if c:
                        rep.undecided(f"{nm}:gaussian", f"evaluated in single precision: {ir.pp(c[0], 5)}")
                        bad.append(rep.obs[-1])
                    else:
                        rep.ok(f"{nm}:gaussian", "", seconds=time.time() - t0)
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:precision", ex)
        bad.append(rep.obs[-1])
    except Exception as ex:
        rep.unsupported(f"{scn.name}:precision", f"engine: {type(ex).__name__}: {ex}")
        bad.append(rep.obs[-1])
    return bad
