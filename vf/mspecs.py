"""Specification of the D4 / D4S models (weights, polarizabilities, C6)."""
from __future__ import annotations

import math
from fractions import Fraction as Q

import numpy as np
import torch

from . import sym
from .scen import DT, Inp, Out, Scenario
from .specs import *

NREF, NFREQ = 7, 23

FREQ_WEIGHTS = [2.4999500e-002, 4.9999500e-002, 7.5000000e-002, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.15,
                0.2, 0.2, 0.2, 0.2, 0.35, 0.5, 0.75, 1.0, 1.75, 2.5, 1.25]


class Tables:
    """Element tables of the tree under check (their values are C21's job)."""

    def __init__(self):
        from tad_mctc.data import GAM
        from tad_mctc.data.zeff import ZEFF
        from tad_dftd4.reference import d4 as ref
        from tad_dftd4.reference.d4.charge_eeq import clsh, clsq
        from tad_dftd4.reference.d4.charge_gfn2 import refh, refq
        from tad_dftd4.data.wfpair import WFPAIR

        self.t = {"refc": ref.refc, "refcn": ref.refcovcn, "refsys": ref.refsys, "refascale": ref.refascale,
                  "refalpha": ref.refalpha, "refscount": ref.refscount, "secscale": ref.secscale, "secalpha": ref.secalpha,
                  "q_eeq": clsq, "h_eeq": clsh, "q_gfn2": refq, "h_gfn2": refh, "zeff": ZEFF(),
                  "gam": GAM(dtype=torch.float64), "wf": WFPAIR(dtype=torch.float64),
                  "freq": torch.tensor(FREQ_WEIGHTS, dtype=torch.float64)}
        self.gam32 = GAM(dtype=torch.float32)
        self.wf32 = WFPAIR(dtype=torch.float32)
        self.memo = {}

    def name(self, key, dt):
        k = (key, dt)
        if k not in self.memo:
            t = self.t[key]
            if t.dtype.is_floating_point:
                t = t.to(DT[dt])
                if dt == "f32" and key in ("gam", "wf"):
                    t = self.gam32 if key == "gam" else self.wf32
            self.memo[k] = t
        t = self.memo[k]
        return sym.table_symbol(t.detach().numpy(), t.dtype)


_T: list = []


def tables():
    if not _T:
        _T.append(Tables())
    return _T[0]


def tab(key, dt, *ix):
    ix += (I(0),) * (tables().t[key].ndim - len(ix))  # trailing unit axes
    return app(tables().name(key, dt), ix)


def num(t):
    """Integer-valued table entry used in arithmetic."""
    return t


def ZZ(b, i):
    return app("Z", (*b, i))


class ModelSpec:
    """Terms for one model configuration.
    wf(b, i, j): weighting factor of atom i towards j (D4: constant)."""

    def __init__(self, dt, charges="eeq", ga=None, gc=None, wf=None, cn="cn", q="q", pair=False):
        self.dt, self.charges = dt, charges
        self.ga = ga if ga is not None else R(3)
        self.gc = gc if gc is not None else R(2)
        self.wf = wf if wf is not None else (lambda b, i, j: R(6))
        self.cn, self.q, self.pair = cn, q, pair

    def CN(self, b, i):
        return app(self.cn, (*b, i)) if self.cn else R(0)

    def QQ(self, b, i):
        return app(self.q, (*b, i)) if self.q else R(0)

    def count(self, b, i, a):
        return tab("refc", self.dt, ZZ(b, i), a)

    def refcn(self, b, i, a):
        return tab("refcn", "f64", ZZ(b, i), a)

    def gauss(self, b, i, j, a):
        """Unnormalised Gaussian weight of reference a of atom i (towards j)."""
        c = self.count(b, i, a)
        d = minus(self.CN(b, i), self.refcn(b, i, a))
        d2 = mul(d, d)
        g = lambda k: exp(neg(prod(k, self.wf(b, i, j), d2)))
        return ite(eq(c, I(1)), g(1), ite(eq(c, I(3)), plus(g(1), g(2), g(3)), R(0)))

    def norm(self, b, i, j):
        return SUM(I(NREF), lambda a: self.gauss(b, i, j, a))

    def gw(self, b, i, j, a):
        """Normalised weight; all weight on the largest CN when all underflow."""
        nrm = self.norm(b, i, j)
        mx = bind("max", (v := fresh("m")), I(NREF), self.refcn(b, i, v))
        fall = ite(eq(self.refcn(b, i, a), mx), R(1), R(0))
        return ite(lt(I(0), self.count(b, i, a)), ite(eq(nrm, R(0)), fall, quot(self.gauss(b, i, j, a), nrm)), R(0))

    def zscale(self, gam, zref, z):
        return ite(lt(R(0), z), exp(mul(self.ga, minus(1, exp(mul(gam, minus(1, quot(zref, z))))))), exp(self.ga))

    def zeta(self, b, i, a):
        ze = tab("zeff", self.dt, ZZ(b, i))
        gam = mul(tab("gam", self.dt, ZZ(b, i)), self.gc)
        return self.zscale(gam, plus(tab("q_" + self.charges, self.dt, ZZ(b, i), a), ze), plus(self.QQ(b, i), ze))

    def W(self, b, i, j, a):
        return mul(self.gw(b, i, j, a), self.zeta(b, i, a))

    def alpha(self, b, i, a, w):
        """Corrected reference polarizability at frequency w."""
        z = ZZ(b, i)
        dt = self.dt
        s = tab("refsys", dt, z, a)
        ze = tab("zeff", dt, s)
        gam = mul(tab("gam", dt, s), self.gc)
        zet = ite(lt(I(0), s), self.zscale(gam, ze, plus(tab("h_" + self.charges, dt, z, a), ze)), R(0))
        aiw = prod(tab("secscale", dt, s), tab("secalpha", dt, s, w), zet)
        v = mul(tab("refascale", dt, z, a), minus(tab("refalpha", dt, z, a, w), mul(tab("refscount", dt, z, a), aiw)))
        return ite(lt(R(0), v), v, R(0))

    def rc6(self, b, i, j, a, c):
        return mul(R(3 / math.pi), SUM(I(NFREQ), lambda w: prod(tab("freq", self.dt, w), self.alpha(b, i, a, w), self.alpha(b, j, c, w))))


def minputs(rank, dt, names, cnlo=0):
    b = BATCH[rank]
    out = []
    for nm in names:
        if nm == "Z":
            out.append(Inp("Z", (*b, "n"), torch.int64, gen_Z(1, 103), lo=0, hi=103))
        elif nm == "cn":
            out.append(Inp("cn", (*b, "n"), DT[dt], gen_cn, grad=True))
        elif nm == "q":
            out.append(Inp("q", (*b, "n"), DT[dt], gen_q, grad=True))
        elif nm == "ga":
            out.append(Inp("ga", (), DT[dt], gen_u(0.5, 4), lo=0))
        elif nm == "gc":
            out.append(Inp("gc", (), DT[dt], gen_u(0.5, 3), lo=0))
        elif nm == "wf":
            out.append(Inp("wf", (), DT[dt], gen_u(2, 8), lo=Q(1, 10)))
        else:
            raise KeyError(nm)
    return out


def underflows_first(Z, cn, w):
    """exp(-dcn^2) is formed before it is raised to the power wf: for wf < 1 it
    may be a denormal number or zero where the weight itself is neither.
    w broadcasts against (..., n, n) or is a number."""
    ref = tables().t["refcn"].double().numpy()[Z]
    d = np.where((tables().t["refc"].numpy()[Z] > 0) & (Z > 0)[..., None], (cn[..., None] - ref) ** 2, 0.0)
    w = np.asarray(w, float)
    x = d[..., :, None, :] * w[..., None] if w.ndim else d * w
    far = d[..., :, None, :] > 660 if w.ndim else d > 660
    small = w[..., None] < 1 if w.ndim else w < 1
    return bool(np.any(far & small & (x < 760)))


def no_denormals(wf):
    """Concrete cases whose Gaussian norm is a denormal number (which has lost
    its digits) are not compared; wf: number, name of an input, or "table"."""
    def ok(arrays, sizes):
        Z = np.asarray(arrays["Z"])
        cn = np.asarray(arrays["cn"], float) if "cn" in arrays else np.zeros(Z.shape)
        ref = tables().t["refcn"].double().numpy()[Z]
        d = np.where(tables().t["refc"].numpy()[Z] > 0, (cn[..., None] - ref) ** 2, np.inf).min(-1)
        d = np.where(np.isfinite(d) & (Z > 0), d, 0.0)
        w = table_wf(Z) if wf == "table" else np.asarray(arrays[wf] if isinstance(wf, str) else wf, float)
        x = d[..., :, None] * w if w.ndim else d * w
        return not np.any((x > 660) & (x < 760)) and not underflows_first(Z, cn, w)
    return ok


def table_wf(Z):
    return tables().t["wf"].double().numpy()[Z[..., :, None], Z[..., None, :]]


def gen_cn(rng, shape, arrays, sizes):
    m = rng.integers(0, 4)
    if m == 0:
        return rng.uniform(0, 9.5, size=shape)
    if m == 1:  # far away: Gaussian underflow for light elements
        return rng.choice([3.0, 8.0, 9.5, 30.0, 60.0], size=shape)
    if m == 2:
        return rng.integers(0, 7, size=shape).astype(float)
    return rng.uniform(0, 6, size=shape)


def gen_q(rng, shape, arrays, sizes):
    m = rng.integers(0, 3)
    if m == 0:
        return rng.choice([-3.0, -1.0, -0.999, 0.0, 0.5, 2.0], size=shape)
    return rng.uniform(-1.2, 1.2, size=shape)
