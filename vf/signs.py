"""Sign contracts: t >= 0 (or <= 0) for every input, over extracted terms."""
from __future__ import annotations

import time

import numpy as np

from . import ir, literals, prove
from .ir import I, R, TRUE, bnot, fv, le, lt, mul, neg, subst
from .prove import ATOMS, Failure, Prover, STATS, TooBig, canon, poly_sign, term_sign
from .relate import extract, search
from .scen import Pool, record
from .sym import Unsupported


def positive_denominators(p):
    for m in p.d:
        for a, e in m:
            if ATOMS[a][0] == "P" and (not isinstance(e, prove.Fraction) or e < 0):
                if isinstance(e, prove.Fraction) and e.denominator == 1 and e.numerator % 2 == 0:
                    continue
                if poly_sign(ATOMS[a][1]) != 2:
                    return False
    return True


def struct(t, facts, memo):
    """Factor- and term-wise proof without joint case splits."""
    if term_sign(t) >= 1:
        return True
    key = (t.id, tuple(f.id for f in facts))
    if key not in memo:
        memo[key] = _struct(t, facts, memo)
    return memo[key]


def _struct(t, facts, memo):
    for f in facts:
        if f.op == "not" and f.args[0].op == "le":
            a, b = f.args[0].args
            if (a is t and ir.cval(b) is not None and ir.cval(b) >= 0) or (b is t and False):
                return True
        if f.op == "le" and f.args[1] is t and ir.cval(f.args[0]) is not None and ir.cval(f.args[0]) >= 0:
            return True
    if t.op in ("add", "mul", "div"):
        return all(struct(a, facts, memo) for a in t.args)
    if t.op == "pow":
        return struct(t.args[0], facts, memo)
    if t.op == "mark":
        return struct(t.args[0], facts, memo)
    if t.op == "ite":
        c, a, b = t.args
        return struct(a, facts + (c,), memo) and struct(b, facts + (bnot(c),), memo)
    if t.op in ("sum", "prod", "max", "min"):
        return struct(t.args[2], facts, memo)
    return False


def nonneg(pr, t, facts, depth=0):
    """True or a Failure."""
    if depth == 0 and struct(t, (), {}):
        STATS.leaves += 1
        STATS.by["normal-form"] += 1
        return True
    if term_sign(t) >= 1:
        STATS.leaves += 1
        STATS.by["normal-form"] += 1
        return True
    pr.count += 1
    if pr.expired() or pr.count > pr.max_leaves:
        return Failure(facts, le(R(0), t), TRUE, "time limit reached")
    c = pr.find_cond(t)
    if c is not None:
        for val in (True, False):
            (t2,), m = pr.assume(c, val, (t,))
            f2 = facts + [c if val else bnot(c)]
            if m:
                f2 = [f for f in (subst(f, m) for f in f2) if f is not TRUE]
                if any(f is ir.FALSE for f in f2):
                    continue
            if not pr.feasible(f2):
                continue
            r = nonneg(pr, t2, f2, depth)
            if r is not True:
                return r
        return True
    try:
        if any(x.op == "sum" for x in ir.subterms(t)):
            groups = prove.sum_groups(t)
            if depth < 6 and any(k for k in groups):
                for k, items in groups.items():
                    for vs, body in items:
                        ren, f2 = {}, list(facts)
                        for v, nid in zip(vs, k):
                            w = ir.fresh("k")
                            ren[v] = w
                            f2 += [le(I(0), w), lt(w, prove.RANGE[nid])]
                        r = nonneg(pr, subst(body, ren), f2, depth + 1)
                        if r is not True:
                            return r
                return True
        p = canon(t)
        s = poly_sign(p)
        if s < 1 and p.d and positive_denominators(p):
            s = poly_sign(prove.clear_denominators(p))
        if s >= 1:
            STATS.leaves += 1
            STATS.by["normal-form"] += 1
            return True
    except TooBig:
        pass
    STATS.leaves += 1
    if pr.entails(facts, le(R(0), t)):
        STATS.by["z3"] += 1
        return True
    return Failure(facts, le(R(0), t), TRUE, "sign not proved")


def check(rep, scn, goals, count=4):
    """goals(o, idx, term) -> list of (label, term that must be >= 0);
    the same goals are evaluated on concrete results by `value`."""
    n0 = len(rep.obs)
    pool = Pool()
    rng = np.random.default_rng([rep.seed, 5])
    try:
        for k, e in enumerate(extract(rep, scn) or []):
            if not isinstance(e.outs, dict):
                rep.unsupported(f"{scn.name}:sign", f"raises {e.outs}")
                continue
            for o in scn.outs:
                if o.name not in e.outs:
                    continue
                idx, f, t, _ = e.outs[o.name]
                pool.harvest(t)
                for lab, g in goals(o, idx, t):
                    pr = Prover(axioms=scn.axioms, timeout=4000, deadline=rep.limit(60, 10))
                    t0 = time.time()
                    r = nonneg(pr, g, f)
                    record(rep, scn, f"{scn.name}:{o.name}:{lab}", r, t0, pool, rng)
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:sign", ex)
    except Exception as ex:
        rep.unsupported(f"{scn.name}:sign", f"engine: {type(ex).__name__}: {ex}")
    bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
    return bad, pool


def run_concrete(rep, scn, values, count, pool, bad):
    """values(arrays, results) -> list of (label, array that must be >= 0)."""
    from .relate import call

    def case(rng, sizes, arrays):
        try:
            got = call(scn, arrays)
        except Exception as e:
            return f"unexpected {type(e).__name__}: {e}", arrays
        for lab, v, tol in values(arrays, got):
            v = np.asarray(v, float)
            if np.any(v < -tol) or np.any(np.isnan(v)):
                w = np.argwhere((v < -tol) | np.isnan(v))[0]
                return f"{lab}: {v[tuple(w)]!r} at {list(map(int, w))}", arrays
        return None, arrays

    pool.extra = literals.new_literals()
    if not search(rep, scn, case, count, pool) and bad:
        search(rep, scn, case, 25 * count, pool, salt=1)
