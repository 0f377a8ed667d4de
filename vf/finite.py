"""Finiteness contracts: every elementary operation of the extracted
computation has a finite value where it is used, and a finite local
derivative wherever a derivative can flow through it -- also in branches that
`where` does not select, since reverse mode multiplies them by zero."""
from __future__ import annotations

import time

import numpy as np

from . import ir, prove
from .ir import FALSE, I, R, TRUE, band, bnot, bor, cval, depends_on_grad, eq, fv, le, lt, subst
from .prove import Failure, Prover, STATS, poly_sign, term_sign
from .relate import extract
from .scen import record
from .sym import Unsupported


def all_grad(scn):
    """Every continuous input carries a derivative."""
    for p in scn.inputs:
        if p.dtype.is_floating_point:
            p.meta["grad"] = True
    return scn


def operations(t, facts):
    """(kind, operand, facts): singular operations reachable from the result.
    Under an operation that carries a derivative the enclosing conditions are
    dropped; otherwise they may be used."""
    seen = set()
    out = []

    def go(x, rng, path):
        key = (x.id, tuple(f.id for f in rng), tuple(f.id for f in path))
        if key in seen:
            return
        seen.add(key)
        g = depends_on_grad(x)
        if x.op == "mark" and x.data == "detach":
            g = False
        if x.op in ir.BINDERS:
            v = ir.fresh("o")
            go(subst(x.args[2], {x.args[0]: v}), rng + (le(I(0), v), lt(v, x.args[1])), path)
            return
        if x.op == "ite":
            c, a, b = x.args
            go(c, rng, path)
            if g:
                for y in (a, b):
                    go(y, rng, path + ((c if y is a else bnot(c)),))
            else:
                go(a, rng, path + (c,))
                go(b, rng, path + (bnot(c),))
            return
        fs = list(facts) + list(rng) + ([] if g else list(path))
        if x.op == "div":
            need(x, "denominator", x.args[1], "nonzero", fs, g)
        elif x.op == "pow":
            e = cval(x.args[1])
            if e is None:
                need(x, "base of a variable power", x.args[0], ("power", x.args[1]), fs, g)
            elif e.denominator != 1:
                need(x, "base of a fractional power", x.args[0], "positive" if (g and e < 1) or e < 0 else "nonneg", fs, g)
            elif e < 0:
                need(x, "base of a negative power", x.args[0], "nonzero", fs, g)
        elif x.op == "fun" and x.data == "sqrt":
            need(x, "argument of sqrt", x.args[0], "positive" if g else "nonneg", fs, g)
        elif x.op == "fun" and x.data == "log":
            need(x, "argument of log", x.args[0], "positive", fs, g)
        for y in x.args:
            go(y, rng, path)

    done = set()

    def need(x, kind, t, what, fs, g):
        if cval(t) is not None and cval(t) > 0:
            return
        free = fv(t)
        # keep only facts about variables of the operand (and closed ones)
        key = (t.id, what, tuple(sorted(f.id for f in fs)) if not g else None)
        if key in done:
            return
        done.add(key)
        out.append((kind, t, what, fs, g))

    go(t, (), ())
    return out


def goal(t, what):
    z = R(0)
    if what == "nonzero":
        return bnot(eq(t, z))
    return lt(z, t) if what == "positive" else le(z, t)


def holds(pr, t, what, facts, depth=0):
    s = term_sign(t)
    if s == 2 or (what == "nonneg" and s >= 1) or (what == "nonzero" and s == -2):
        STATS.leaves += 1
        STATS.by["normal-form"] += 1
        return True
    pr.count += 1
    if pr.expired() or pr.count > pr.max_leaves:
        return Failure(facts, goal(t, what), TRUE, "time limit reached")
    c = pr.find_cond(t)
    if c is not None:
        for val in (True, False):
            (t2,), m = pr.assume(c, val, (t,))
            f2 = facts + [c if val else bnot(c)]
            if m:
                f2 = [f for f in (subst(f, m) for f in f2) if f is not TRUE]
                if any(f is FALSE for f in f2):
                    continue
            if not pr.feasible(f2):
                continue
            r = holds(pr, t2, what, f2, depth)
            if r is not True:
                return r
        return True
    # factors and positive sums
    if t.op == "mul" and what != "nonneg":
        if all(holds(pr, a, what, facts, depth + 1) is True for a in t.args):
            return True
    if t.op == "pow" and what != "nonneg" and depth < 8:
        if holds(pr, t.args[0], "positive" if what == "positive" else what, facts, depth + 1) is True:
            return True
    if t.op == "fun" and t.data == "sqrt" and what != "nonneg" and depth < 8:
        if holds(pr, t.args[0], "positive", facts, depth + 1) is True:
            return True
    if t.op == "div" and what != "nonneg" and depth < 8:
        if all(holds(pr, a, what, facts, depth + 1) is True for a in t.args):
            return True
    if t.op == "add" and depth < 8:
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if holds(pr, x, "nonneg", facts, depth + 1) is True and \
                    holds(pr, y, "nonneg" if what == "nonneg" else "positive", facts, depth + 1) is True:
                return True
    try:
        p = prove.canon(t)
        s = poly_sign(p)
        if s == 2 or (what == "nonneg" and s >= 1):
            STATS.leaves += 1
            STATS.by["normal-form"] += 1
            return True
    except prove.TooBig:
        pass
    STATS.leaves += 1
    if pr.entails(facts, goal(t, what)):
        STATS.by["z3"] += 1
        return True
    return Failure(facts, goal(t, what), TRUE, "not proved")


def power_base(pr, t, e, facts):
    """x^y: x > 0, or x >= 0 with y >= 1 (torch: no derivative in y at x = 0)."""
    r = holds(pr, t, "positive", facts)
    if r is True:
        return r
    if holds(pr, ir.sub(e, R(1)), "nonneg", facts) is True:
        return holds(pr, t, "nonneg", facts)
    return r


def check(rep, scn):
    """One obligation per result and singular operation."""
    all_grad(scn)
    n0 = len(rep.obs)
    terms = []
    try:
        for e in extract(rep, scn, strip=False) or []:
            if not isinstance(e.outs, dict):
                rep.unsupported(f"{scn.name}:finite", f"raises {e.outs}")
                continue
            for o in scn.outs:
                if o.name not in e.outs:
                    continue
                idx, f, t, _ = e.outs[o.name]
                terms.append(t)
                ops = operations(t, f)
                pr = Prover(axioms=scn.axioms, timeout=4000, deadline=rep.limit(60, 10))
                if not ops:
                    rep.ok(f"{scn.name}:{o.name}:no singular operation")
                for k, (kind, x, what, fs, g) in enumerate(ops):
                    t0 = time.time()
                    pr.count = 0
                    pr._cmps = {}
                    y, fs = prove.ideal(ir.strip_marks(x)), [prove.ideal(q) for q in fs]
                    if isinstance(what, tuple):
                        r = power_base(pr, y, ir.strip_marks(what[1]), fs)
                        what = "positive (or nonnegative and the exponent at least one)"
                    else:
                        r = holds(pr, y, what, fs)
                    nm = f"{scn.name}:{o.name}:op{k}:{kind} {what}{' (derivative)' if g else ''}"
                    if r is True:
                        rep.ok(nm, seconds=time.time() - t0)
                    else:
                        rep.undecided(nm, f"{ir.pp(x, 6)}\n{r.text()}")
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:finite", ex)
    except Exception as ex:
        rep.unsupported(f"{scn.name}:finite", f"engine: {type(ex).__name__}: {ex}")
    return [o for o in rep.obs[n0:] if o.status != "discharged"], terms
