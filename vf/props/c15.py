"""C15 finiteness of values and derivatives."""
import itertools
from fractions import Fraction as Q

import numpy as np
import torch

from .. import e2e, finite, whole
from ..ir import I, R, app, bor, eq, le
from ..scen import DT, dist_axioms
from . import c01, c16

SINGLE = {"r4r2": Q(1, 2)}
PAIR = {"rvdw": Q(1, 2), "c6": Q(1, 100)}


def honest(scn):
    """Padded entries of atom-resolved inputs are arbitrary and may be zero;
    only real atoms have positive radii and coefficients."""
    names = {p.name: p for p in scn.inputs}
    z = "Z" in names
    for nm, lo in SINGLE.items():
        if nm in names and z:
            names[nm].meta["lo"] = 0
            scn.axioms[nm] = lambda *a, nm=nm, lo=lo: [bor(eq(app("Z", a), I(0)), le(R(lo), app(nm, a)))]
    for nm, lo in PAIR.items():
        if nm in names and z:
            names[nm].meta["lo"] = 0
            scn.axioms[nm] = lambda *a, nm=nm, lo=lo: [
                bor(eq(app("Z", a[:-1]), I(0)), eq(app("Z", (*a[:-2], a[-1])), I(0)), le(R(lo), app(nm, a)))]
    for nm in ("p_a1", "p_bet", "p_s8"):
        if nm in names:
            names[nm].meta["lo"] = 0
    if "p_alp" in names:
        names["p_alp"].meta["lo"] = 6
    return scn


def scenarios(tier):
    cfg = ((0, "f64"), (1, "f64"), (1, "f32"), (2, "f64")) if tier == "quick" else tuple(itertools.product((0, 1, 2), ("f64", "f32")))
    for mk in e2e.makers():
        for r, dt in cfg:
            yield lambda mk=mk, r=r, dt=dt: honest(mk(r, dt))
    for r, dt in cfg:
        for d, pn in c01.BASE.items():
            yield lambda r=r, dt=dt, d=d, pn=pn: honest(c01.scenario(d, r, dt, pn, False, True))
        yield lambda r=r, dt=dt: honest(c16.scen16("D4Model", r, dt, 1, 1))
        yield lambda r=r, dt=dt: honest(c16.scen16("D4SModel", r, dt, 0, 1))


# ------------------------------------------------------------------ concrete --

DAMPS = [("RationalDamping", {}), ("ZeroDamping", {"rs6": 1.1, "rs8": 1.0, "alp": 14.0}),
         ("MZeroDamping", {"rs6": 1.1, "rs8": 1.0, "alp": 14.0, "bet": 0.02}), ("OptimisedPowerDamping", {"bet": 2.0}),
         ("ZeroDamping", {"rs6": 1.2, "rs8": 1.1, "alp": 22.0}), ("RationalDamping", {"s8": 0.0, "a1": 0.0}),
         ("OptimisedPowerDamping", {"bet": 0.0}), ("RationalDamping", {"s9": 0.0})]


def bad(name, t):
    if t is None:
        return None
    t = t.detach()
    if not t.dtype.is_floating_point or bool(torch.isfinite(t).all()):
        return None
    w = torch.nonzero(~torch.isfinite(t))[0].tolist()
    return f"{name} is {t[tuple(w)].item()} at {w}"


def spread(z, x, rng):
    """Geometries with pairs beyond the cutoffs and far-away atoms."""
    x = x.copy()
    if len(z) > 1 and rng.random() < 0.3:
        x[-1] += rng.choice([30.0, 59.0, 90.0, 400.0])
    return x


def system(rng, dt):
    if rng.random() < 0.5:
        z, x = whole.molecule(rng)
        Z, x = torch.tensor(np.asarray(z)), torch.tensor(spread(z, x, rng), dtype=dt)
    else:
        mols = [whole.molecule(rng) for _ in range(int(rng.integers(2, 4)))]
        mols = [(z, spread(z, x, rng)) for z, x in mols]
        Z, x, _ = whole.pad_batch(mols, rng)
        Z, x = torch.tensor(Z), torch.tensor(x, dtype=dt)
        if rng.random() < 0.4:  # padded positions are arbitrary
            x = torch.where((Z == 0).unsqueeze(-1), torch.tensor(rng.uniform(-5, 5, size=tuple(x.shape)), dtype=dt), x)
    if rng.random() < 0.5:
        all_z = torch.tensor(rng.integers(1, 87, size=tuple(Z.shape)))
        Z = torch.where(Z > 0, all_z, Z)
    return Z, x


def gen_q(rng, shape, Z):
    from tad_dftd4 import data
    zeff = data.ZEFF()[Z].double().numpy()
    u = rng.random()
    if u < 0.25:  # at and around the point where the effective charge vanishes
        return -zeff + rng.choice([0.0, 1e-16, -1e-16, 1e-9, -1e-9, 1e-3, -1e-3, 0.02], size=shape)
    if u < 0.4:
        return rng.choice([-50.0, -3.0, 3.0, 50.0], size=shape)
    return rng.uniform(-1, 1, size=shape)


def energy(rep, rng):
    import tad_dftd4 as d4
    from tad_dftd4.damping import functions as dfun
    from tad_dftd4.dispersion.d4 import DispD4Exact

    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    Z, x = system(rng, dt)
    x.requires_grad_(True)
    dn, over = DAMPS[int(rng.integers(0, len(DAMPS)))]
    par = {k: v.requires_grad_(True) for k, v in whole.param(dt, **over).items()}
    giveq = rng.random() < 0.5
    q = torch.tensor(gen_q(rng, tuple(Z.shape), Z), dtype=dt, requires_grad=True) if giveq else None
    charge = torch.zeros(Z.shape[:-1], dtype=dt, requires_grad=True)
    model = str(rng.choice(["d4", "d4s"]))
    kw = {}
    if rng.random() < 0.3:
        kw["cutoff"] = d4.cutoff.Cutoff(disp2=float(rng.uniform(3, 20)), disp3=float(rng.uniform(3, 12)), dtype=dt)
    own = {}
    if rng.random() < 0.5:  # the caller's radii, zero for padded atoms like the tabulated ones
        own["r4r2"] = (d4.data.R4R2(dtype=dt)[Z] * float(rng.uniform(0.9, 1.1))).requires_grad_(True)
    if rng.random() < 0.5:
        own["rvdw"] = (d4.data.VDW_PAIRWISE(dtype=dt)[Z.unsqueeze(-1), Z.unsqueeze(-2)] * float(rng.uniform(0.9, 1.1))).requires_grad_(True)
    info = {"dtype": str(dt), "Z": Z.tolist(), "positions": x.tolist(), "damping": dn, "param": {k: float(v) for k, v in par.items()}, "given": sorted(own),
            "q": q.tolist() if giveq else None, "model": model, "cutoff": str(kw.get("cutoff"))}
    kw.update(own)
    u = rng.random()
    if model == "d4" and u < 0.15:
        from tad_dftd4.dispersion import d3 as D3
        cls = D3.DispD3BJ if rng.random() < 0.5 else D3.DispD3Zero
        info["class"] = cls.__name__
        for k, v in (("rs6", 1.1), ("rs8", 1.0)):
            par.setdefault(k, torch.tensor(v, dtype=dt, requires_grad=True))
        e = cls(model="d4", dtype=dt).calculate(Z, x, charge, par, **kw)
    elif model == "d4" and u < 0.35:
        info["class"] = "DispD4Exact"
        e = DispD4Exact(dtype=dt).calculate(Z, x, charge, par, q=q, **kw)
    else:
        e = d4.dftd4(Z, x, charge, par, q=q, model=model, damping_function=getattr(dfun, dn)(), **kw)
    if r := bad("energy", e):
        return r, info
    leaves = {"positions": x, "total charge": charge, **own, **par}
    if giveq:
        leaves["charges"] = q
    g = torch.autograd.grad(e.sum(), list(leaves.values()), allow_unused=True, create_graph=rng.random() < 0.2)
    for nm, v in zip(leaves, g):
        if r := bad(f"derivative of the energy with respect to {nm}", v):
            return r, info
    return None, info


def weights(rep, rng):
    from tad_dftd4 import model

    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    n = int(rng.integers(1, 7))
    shape = (n,) if rng.random() < 0.5 else (2, n)
    ch = str(rng.choice(["eeq", "gfn2"]))
    Z = torch.tensor(rng.integers(1, 87 if ch == "gfn2" else 104, size=shape))
    if rng.random() < 0.4:
        Z = torch.where(torch.tensor(rng.random(shape) < 0.3), 0, Z)
    u = rng.random()
    cn = rng.uniform(0, 9, size=shape) if u < 0.4 else rng.choice([0.0, 1e-8, 4.0, 8.5, 9.5, 10.5, 11.5, 12.0, 15.0, 20.0, 40.0, 300.0], size=shape)
    cn = torch.tensor(cn, dtype=dt, requires_grad=True)
    q = torch.tensor(gen_q(rng, shape, Z), dtype=dt, requires_grad=True)
    cls = str(rng.choice(["D4Model", "D4SModel"]))
    m = getattr(model, cls)(Z, dtype=dt, ref_charges=ch)
    info = {"dtype": str(dt), "class": cls, "charges": ch, "Z": Z.tolist(), "cn": cn.tolist(), "q": q.tolist()}
    fl = {}
    if rng.random() < 0.4:
        fl["with_dgwdq"] = True
        if cls == "D4Model":
            fl["with_dgwdcn"] = True
    out = m.weight_references(cn, q, **fl)
    outs = list(out) if isinstance(out, tuple) else [out]
    names = ["weights", "derivative A", "derivative B"][:len(outs)]
    if not fl:
        outs.append(m.get_atomic_c6(outs[0]))
        names.append("C6")
        if cls == "D4Model":
            outs.append(m.get_polarizabilities(outs[0]))
            names.append("polarizability")
    for nm, o in zip(names, outs):
        if r := bad(nm, o):
            return r, info
        if not o.requires_grad:
            continue
        for lab, v in zip(("coordination numbers", "charges"), torch.autograd.grad(o.sum(), [cn, q], retain_graph=True, allow_unused=True)):
            if r := bad(f"derivative of {nm} with respect to {lab}", v):
                return r, info
    return None, info


def masked(rep, rng):
    """The pair and triple kernels, with zeros in every padded input."""
    from tad_dftd4.damping import functions as dfun
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import dispersion2

    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    Z, x = system(rng, dt)
    x.requires_grad_(True)
    n = Z.shape[-1]
    real = (Z > 0).to(dt)
    pair = real.unsqueeze(-1) * real.unsqueeze(-2)
    sym = lambda lo, hi: (lambda a: (a + a.mT) / 2)(torch.tensor(rng.uniform(lo, hi, size=(*Z.shape, n)), dtype=dt)) * pair
    c6, rv, r4 = sym(5, 200), sym(2, 6), torch.tensor(rng.uniform(1, 8, size=tuple(Z.shape)), dtype=dt) * real
    dn, over = DAMPS[int(rng.integers(0, len(DAMPS)))]
    par = {k: v.requires_grad_(True) for k, v in whole.param(dt, **over).items()}
    leaves = {"positions": x, "c6": c6.requires_grad_(True), "rvdw": rv.requires_grad_(True), "r4r2": r4.requires_grad_(True), **par}
    info = {"dtype": str(dt), "Z": Z.tolist(), "positions": x.tolist(), "damping": dn, "param": {k: float(v) for k, v in par.items()}}
    cut = torch.tensor(float(rng.choice([4.0, 12.0, 60.0])), dtype=dt)
    if rng.random() < 0.5:
        what = "dispersion2"
        e = dispersion2(Z, x, par, c6, r4, damping_function=getattr(dfun, dn)(), rvdw=rv, cutoff=cut, as_matrix=bool(rng.random() < 0.3))
    else:
        what = "get_atm_dispersion"
        c9 = torch.tensor(rng.uniform(1, 100, size=(*Z.shape, n, n)), dtype=dt) * pair.unsqueeze(-1) * real[..., None, None, :]
        r0 = rv if rng.random() < 0.5 else rv + (1 - pair)
        e = get_atm_dispersion(Z, x, c9, r0, cut, s9=par["s9"], alp=par["alp"])
    if r := bad(what, e):
        return r, info
    for nm, v in zip(leaves, torch.autograd.grad(e.sum(), list(leaves.values()), allow_unused=True)):
        if nm in ("rvdw", "r4r2", "c6"):
            continue  # radii and coefficients of padded atoms carry no derivative contract
        if r := bad(f"derivative of {what} with respect to {nm}", v):
            return r, info
    return None, info


def properties(rep, rng):
    import tad_dftd4 as d4

    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    Z, x = system(rng, dt)
    x.requires_grad_(True)
    charge = torch.zeros(Z.shape[:-1], dtype=dt)
    info = {"dtype": str(dt), "Z": Z.tolist(), "positions": x.tolist()}
    for nm, t in zip(whole.NAMES, d4.get_properties(Z, x, charge)):
        if r := bad(nm, t):
            return r, info
        if r := bad(f"derivative of {nm}", torch.autograd.grad(t.sum(), x, retain_graph=True)[0]):
            return r, info
    return None, info


def run(rep):
    rep.assume("distinct real atoms do not coincide; radii and coefficients of real atoms are positive; damping offset a2 > 0",
               "storch.cdist has finite derivatives for coinciding points (exercised concretely on diagonals and padding)",
               "overflow of finite expressions in floating point is covered by the concrete runs (distances below 1000 bohr), not by the proof")
    whole.run(rep, energy, 60, "energy:finite")
    whole.run(rep, weights, 80, "weights:finite")
    whole.run(rep, masked, 60, "kernels:finite")
    whole.run(rep, properties, 15, "get_properties:finite")
    if rep.enough():
        return
    open_ = []
    for s in scenarios(rep.tier):
        if rep.left() < 40:
            rep.notes.append("time limit: remaining scenarios skipped")
            break
        b, _ = finite.check(rep, s())
        open_ += b
    if open_ and not rep.violations:
        for fn, c, nm in ((energy, 150, "energy:finite(search)"), (weights, 300, "weights:finite(search)"), (masked, 300, "kernels:finite(search)")):
            whole.run(rep, fn, c, nm)
