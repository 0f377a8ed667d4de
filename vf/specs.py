"""Specification vocabulary: the published formulas as terms, and generators
of admissible inputs.  Nothing in here calls the code under contract."""
from __future__ import annotations

import os
import sys
from fractions import Fraction

import numpy as np
import torch

from . import ir, scen, sym
from .ir import (FALSE, I, R, SUM, T, TRUE, absv, add, app, band, bind, bnot, bor, declare, div, eq, exp,
                 fresh, ite, ivar, le, lt, mul, neg, power, sqrt, sub)
from .scen import DT, Inp, Out, Scenario

Q = Fraction


def prod(*xs):
    r = xs[0] if isinstance(xs[0], T) else R(xs[0])
    for x in xs[1:]:
        r = mul(r, x if isinstance(x, T) else R(x))
    return r


def plus(*xs):
    r = xs[0] if isinstance(xs[0], T) else R(xs[0])
    for x in xs[1:]:
        r = add(r, x if isinstance(x, T) else R(x))
    return r


def minus(a, b):
    return sub(a if isinstance(a, T) else R(a), b if isinstance(b, T) else R(b))


def quot(a, b):
    return div(a if isinstance(a, T) else R(a), b if isinstance(b, T) else R(b))


def pw(a, n):
    return power(a, n if isinstance(n, T) else R(n))


def sc(name):
    """Scalar parameter symbol."""
    return app(name, ())


def decl_dist():
    declare("dist", sort="R", kind="derived", lo=0, grad=True, symm=(-2, -1))


decl_dist()


def D(*ix):
    return app("dist", ix)


def real(*ix, Z="Z"):
    return bnot(eq(app(Z, ix), I(0)))


# -- damping functions ----------------------------------------------------


def damp_rational(n, d, r0, p):
    r = plus(mul(p["a1"], sqrt(r0)), p["a2"])
    return quot(1, plus(pw(d, n), pw(r, n)))


def damp_zero(n, d, r0, p, only=False):
    alp = p["alp"] if n in (6, 9) else plus(p["alp"], 2)
    rs = p[f"rs{n}"]
    t = mul(rs, quot(r0, d))
    f = quot(1, plus(1, mul(R(6), power(t, alp))))
    return f if only else quot(f, pw(d, n))


def damp_mzero(n, d, r0, p):
    alp = p["alp"] if n in (6, 9) else plus(p["alp"], 2)
    rs = p[f"rs{n}"]
    t = plus(quot(d, mul(rs, r0)), mul(p["bet"], r0))
    f = quot(1, plus(1, mul(R(6), power(t, neg(alp)))))
    return quot(f, pw(d, n))


def damp_op(n, d, r0, p):
    r = plus(mul(p["a1"], sqrt(r0)), p["a2"])
    db, rb = power(d, p["bet"]), power(r, p["bet"])
    return quot(db, plus(mul(db, pw(d, n)), mul(rb, pw(r, n))))


DAMP = {"RationalDamping": (damp_rational, "r4r2", (6, 8, 10), {6: ("a1", "a2"), 8: ("a1", "a2"), 10: ("a1", "a2")}),
        "ZeroDamping": (damp_zero, "rvdw", (6, 8, 9), {6: ("rs6", "alp"), 8: ("rs8", "alp"), 9: ("rs9", "alp")}),
        "MZeroDamping": (damp_mzero, "rvdw", (6, 8), {6: ("rs6", "alp", "bet"), 8: ("rs8", "alp", "bet")}),
        "OptimisedPowerDamping": (damp_op, "r4r2", (6, 8), {6: ("a1", "a2", "bet"), 8: ("a1", "a2", "bet")})}


# -- two-body -------------------------------------------------------------


def two_body_pair(f, radius_type, p, cut, b, i, j, c6="c6", r4="r4r2", rv="rvdw", have8=True):
    """s6*C6*f6 + s8*C8*f8 (+ s10*C10*f10) of one admissible pair, else 0."""
    c = app(c6, (*b, i, j)) if isinstance(c6, str) else c6(*b, i, j)
    q = prod(3, app(r4, (*b, i)), app(r4, (*b, j)))
    r0 = q if radius_type == "r4r2" else app(rv, (*b, i, j))
    d = D(*b, i, j)
    e = prod(p.get("s6", R(1)), c, f(6, d, r0, p))
    if have8:
        e = plus(e, prod(p.get("s8", R(1)), c, q, f(8, d, r0, p)))
    if "s10" in p:
        e = plus(e, prod(p["s10"], Q(49, 40), c, q, q, f(10, d, r0, p)))
    ok = band(real(*b, i), real(*b, j), bnot(eq(i, j)), le(d, cut))
    return ite(ok, e, R(0))


def two_body_atom(f, rt, p, cut, n="n", **kw):
    def spec(*ix):
        b, i = ix[:-1], ix[-1]
        return mul(R(Q(-1, 2)), SUM(ivar(n), lambda j: two_body_pair(f, rt, p, cut, b, i, j, **kw)))
    return spec


# -- three-body -----------------------------------------------------------


def atm_triple(b, i, j, k, c9, r0, s9, alp, cut, rs9=R(1)):
    a, c, e = D(*b, i, j), D(*b, j, k), D(*b, i, k)
    a2, c2, e2 = mul(a, a), mul(c, c), mul(e, e)
    f = quot(1, plus(1, mul(R(6), power(quot(prod(rs9, r0(*b, i, j), r0(*b, j, k), r0(*b, i, k)), prod(a, c, e)),
                                        quot(alp, 3)))))
    ang = plus(quot(prod(Q(3, 8), plus(a2, c2, neg(e2)), plus(a2, neg(c2), e2), plus(neg(a2), c2, e2)),
                    pw(prod(a, c, e), 5)), quot(1, pw(prod(a, c, e), 3)))
    ok = band(real(*b, i), real(*b, j), real(*b, k), bnot(eq(i, j)), bnot(eq(j, k)), bnot(eq(i, k)),
              le(a, cut), le(c, cut), le(e, cut))
    return ite(ok, prod(s9, c9(*b, i, j, k), f, ang), R(0))


def atm_atom(c9, r0, s9, alp, cut, n="n", rs9=R(1)):
    def spec(*ix):
        b, i = ix[:-1], ix[-1]
        return quot(SUM(ivar(n), lambda j: SUM(ivar(n), lambda k: atm_triple(b, i, j, k, c9, r0, s9, alp, cut, rs9))), 6)
    return spec


# -- generators -----------------------------------------------------------


def gen_Z(lo=1, hi=86, pad=True):
    def g(rng, shape, arrays, sizes):
        a = rng.integers(lo, hi + 1, size=shape)
        mode = rng.integers(0, 4)
        if mode == 0:
            a = rng.choice([1, 6, 7, 8, 17], size=shape)
        if pad and len(shape) > 1 and shape[-1] > 1:
            flat = a.reshape(-1, shape[-1])
            for r in flat:
                if rng.random() < 0.6:
                    r[int(rng.integers(1, shape[-1] + 1)):] = 0
        elif pad and len(shape) == 1 and shape[0] > 1 and rng.random() < 0.2:
            a[-1] = 0
        return a
    return g


def gen_pos(rng, shape, arrays, sizes):
    *b, n, _ = shape
    mode = rng.integers(0, 5)
    m = max(2, int(np.ceil(n ** (1 / 3))) + 1)
    cells = np.array([(x, y, z) for x in range(m) for y in range(m) for z in range(m)])
    out = np.zeros((int(np.prod(b, dtype=int)), n, 3))
    for r in out:
        pick = cells[rng.permutation(len(cells))[:n]].astype(float)
        if mode == 0:
            r[:] = pick * 3.0  # exact lattice distances
        elif mode == 1:
            r[:] = pick * 9.0 + rng.uniform(-2, 2, size=(n, 3))
        elif mode == 2:
            r[:] = pick * 25.0 + rng.uniform(-8, 8, size=(n, 3))
        else:
            r[:] = pick * 3.2 + rng.uniform(-0.8, 0.8, size=(n, 3))
    return out.reshape(shape)


def gen_u(lo, hi, sym=False):
    def g(rng, shape, arrays, sizes):
        a = rng.uniform(lo, hi, size=shape)
        if sym:
            a = (a + np.swapaxes(a, -1, -2)) / 2
        return a
    return g


def sometimes_zero(g, p=0.3):
    """Occasionally all values exactly zero."""
    return lambda rng, shape, arrays, sizes: g(rng, shape, arrays, sizes) * (0.0 if rng.random() < p else 1.0)


def gen_wide(lo, hi, factor):
    """Mostly the usual range, sometimes a much wider one."""
    return lambda rng, shape, arrays, sizes: rng.uniform(lo, hi, size=shape) * (factor if rng.random() < 0.4 else 1.0)


def gen_cut(rng, shape, arrays, sizes):
    return np.asarray(rng.choice([3.0, 6.0, 9.0, 4.5, 60.0, 12.3, 0.5, rng.uniform(3, 30)]))


def derive_dist(arrays, sizes):
    p = arrays["pos"]
    d = p[..., :, None, :] - p[..., None, :, :]
    return {"dist": np.sqrt((d * d).sum(-1))}


BATCH = {0: (), 1: ("nb",), 2: ("mb", "nb")}


def std_inputs(rank, dt, names=("Z", "pos")):
    b = BATCH[rank]
    f = DT[dt]
    out = []
    for nm in names:
        if nm == "Z":
            out.append(Inp("Z", (*b, "n"), torch.int64, gen_Z(), lo=0, hi=103))
        elif nm == "pos":
            out.append(Inp("pos", (*b, "n", 3), f, gen_pos, grad=True))
        elif nm == "c6":
            out.append(Inp("c6", (*b, "n", "n"), f, gen_u(1, 300, True), lo=0, grad=True, symm=(-2, -1)))
        elif nm == "r4r2":
            out.append(Inp("r4r2", (*b, "n"), f, gen_u(1, 10), lo=0))
        elif nm == "rvdw":
            out.append(Inp("rvdw", (*b, "n", "n"), f, gen_u(2, 7, True), lo=Q(1, 2), symm=(-2, -1)))
        elif nm == "cut":
            out.append(Inp("cut", (), f, gen_cut, lo=0))
        elif nm == "q":
            out.append(Inp("q", (*b, "n"), f, gen_u(-1.5, 1.5), grad=True))
        elif nm == "cn":
            out.append(Inp("cn", (*b, "n"), f, gen_u(0, 8), lo=0, grad=True))
        else:
            raise KeyError(nm)
    return out


PGEN = {"a1": (0.2, 0.6), "a2": (2.0, 6.0), "s6": (0.3, 1.2), "s8": (0.2, 3.0), "s10": (0.2, 1.0), "s9": (0.5, 1.5),
        "rs6": (0.8, 1.4), "rs8": (0.8, 1.2), "rs9": (0.8, 1.4), "alp": (12.0, 17.0), "bet": (0.1, 2.0)}


def gen_p(k, real):
    """Parameter values; the collection contains zero and negative ones (s8, a1)."""
    lo, hi = PGEN[k]

    def g(rng, shape, arrays, sizes):
        u = rng.random()
        if u < 0.12:
            return np.zeros(shape)
        if real and u < 0.35:
            return rng.uniform(-0.2 * hi if u > 0.2 else -6.0 * hi, 0, size=shape)
        return rng.uniform(lo, hi, size=shape)
    return g


def params(names, dt, wide=(), ge0=()):
    """Scalar parameter inputs and the mapping used by specs.  wide: any real
    value; ge0: zero allowed; otherwise scalings >= 0, the others > 0."""
    inp = []
    for k in names:
        if k in wide:
            inp.append(Inp("p_" + k, (), DT[dt], gen_p(k, True), grad=True))
        elif k in ge0:
            inp.append(Inp("p_" + k, (), DT[dt], gen_p(k, False), lo=0, grad=True))
        else:
            inp.append(Inp("p_" + k, (), DT[dt], gen_u(*PGEN[k]), lo=0 if k[0] == "s" else Q(1, 1000), grad=True))
    return inp, {k: "p_" + k for k in names}


SCALE = ("s6", "s8", "s9", "s10")


def domain(damp):
    """Admissible parameter signs per damping function (keyword arguments of
    params): every published set lies inside."""
    if damp == "RationalDamping":
        return {"wide": (*SCALE, "a1")}  # even powers: any sign of a1
    return {"wide": SCALE, "ge0": ("a1", "bet")}


def pterms(names):
    return {k: app("p_" + k, ()) for k in names}
