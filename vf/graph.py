"""Differentiation-graph contract: no value a result depends on smoothly is
taken out of the graph (detach, item, copies, disabled gradient mode) while
it depends on an input that may require a gradient on that path."""
from __future__ import annotations

import time

from . import ir
from .ir import SYMS
from .relate import extract
from .sym import Unsupported

CONTINUOUS = ("pos", "q", "q1", "q2", "qe", "cn", "charge", "c6", "aiw", "c9", "r4r2", "rvdw", "rr", "dist")


def mark_inputs(scn):
    for p in scn.inputs:
        if p.dtype.is_floating_point:
            p.meta["grad"] = p.name in CONTINUOUS or p.name.startswith("p_")
    return scn


def without_grad(facts):
    """Inputs known not to require gradients on this path."""
    out = set()
    for f in facts:
        if f.op == "not" and f.args[0].op == "app" and f.args[0].data.startswith("requires_grad_"):
            out.add(f.args[0].data[len("requires_grad_"):])
    return out


def carriers(t, off, stop_detach=False):
    """Symbols through which t depends smoothly on an input requiring gradients."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen or x.sort == "B":
            continue
        seen.add(x.id)
        if x.op == "app":
            if SYMS[x.data].grad and x.data not in off and not (x.data == "dist" and "pos" in off):
                out.add(x.data)
            continue
        stack.extend(x.args[1:] if x.op == "ite" else x.args)
    return out


def cuts(t, off):
    """Detached subterms (outside conditions) that carry a dependence."""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen or x.sort == "B":
            continue
        seen.add(x.id)
        if x.op == "mark" and x.data == "detach":
            c = carriers(x.args[0], off)
            if c:
                out.append((x, c))
            continue
        if x.op == "app":
            continue
        stack.extend(x.args[1:] if x.op == "ite" else x.args)
    return out


def check(rep, scn):
    mark_inputs(scn)
    bad = []
    try:
        for k, e in enumerate(extract(rep, scn, strip=False) or []):
            if not isinstance(e.outs, dict):
                continue
            off = without_grad(e.facts)
            for o in scn.outs:
                if o.name not in e.outs:
                    continue
                t0 = time.time()
                t = e.outs[o.name][2]
                nm = f"{scn.name}#{k}:{o.name}:graph"
                c = cuts(t, off)
                if c:
                    rep.undecided(nm, f"cut out of the graph although it depends on {sorted(c[0][1])}: {ir.pp(c[0][0], 6)}")
                    bad.append(rep.obs[-1])
                else:
                    rep.ok(nm, f"depends on {sorted(carriers(t, off))}", seconds=time.time() - t0)
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:graph", ex)
        bad.append(rep.obs[-1])
    except Exception as ex:
        rep.unsupported(f"{scn.name}:graph", f"engine: {type(ex).__name__}: {ex}")
        bad.append(rep.obs[-1])
    return bad
