"""C17 differentiability in every continuous input."""
import itertools

import numpy as np
import torch

from .. import e2e, graph, whole
from ..mspecs import *
from ..scen import Out, Scenario
from ..stubs import Eeq, StubModel, patched
from . import c08, c10, c12, c13, c16, c22


def with_eeq(rank, dt, api):
    """No charges given: the EEQ charges carry positions and total charge."""
    def body(env, eeq, param, cut, F):
        import tad_dftd4 as d4
        from tad_dftd4.damping import RationalDamping, ZeroDamping
        from tad_dftd4.dispersion import Disp
        from tad_dftd4.dispersion.d4 import D4ATMApprox
        from tad_dftd4.dispersion.twobody import TwoBodyTerm
        if api == "dftd4":
            return c13.run_d4(env, param, F, cut=cut)
        d = c13._disp(Disp, env, F, [TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True),
                                     D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=True)])
        return d.calculate(env["Z"], env["pos"], env["charge"], param, cutoff=cut)
    return c13.mk(rank, dt, f"{api} with EEQ charges", body)


def props(rank, dt):
    s = c13.properties(rank, dt, True, True)
    b = BATCH[rank]

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.cutoff import Cutoff
        with patched("tad_multicharge", "get_eeq_charges", Eeq(env["qe"])), patched("tad_mctc.ncoord", "cn_d4", lambda numbers, positions, *a, **k: env["cn"]):
            return d4.get_properties(env["Z"], env["pos"], env["charge"], cutoff=Cutoff(cn_eeq=env["ceeq"], dtype=DT[dt]))

    s.call = call
    s.outs = [Out("cn", (*b, "n"), None), Out("q", (*b, "n"), None), Out("c6", (*b, "n", "n"), None), Out("alpha", (*b, "n"), None)]
    return s


def scenarios(tier):
    cfg = ((0, "f64"), (1, "f64"), (1, "f32")) if tier == "quick" else tuple(itertools.product((0, 1, 2), ("f64", "f32")))
    for r, dt in cfg:
        for mk in e2e.makers():
            yield lambda mk=mk, r=r, dt=dt: mk(r, dt)
        for d in c22.PN:
            yield lambda r=r, dt=dt, d=d: c22.full(r, dt, d)
        for t in ("D4ATMExact", "D3ATM"):
            yield lambda r=r, dt=dt, t=t: c22.full(r, dt, "RationalDamping", t, "Disp")
        for api in ("dftd4", "Disp"):
            yield lambda r=r, dt=dt, api=api: with_eeq(r, dt, api)
        yield lambda r=r, dt=dt: props(r, dt)
        yield lambda r=r, dt=dt: c16.scen16("D4Model", r, dt, 1, 1)
        yield lambda r=r, dt=dt: c16.scen16("D4SModel", r, dt, 0, 1)


# ------------------------------------------------------------------ concrete --

DAMPS = {"RationalDamping": {}, "ZeroDamping": {"rs6": 1.1, "rs8": 1.0}, "MZeroDamping": {"rs6": 1.1, "rs8": 1.0, "bet": 0.02},
         "OptimisedPowerDamping": {"bet": 2.0}}
USES = {"RationalDamping": ("s6", "s8", "a1", "a2", "s9", "alp"), "ZeroDamping": ("s6", "s8", "rs6", "rs8", "alp", "s9", "a1", "a2"),
        "MZeroDamping": ("s6", "s8", "rs6", "rs8", "alp", "bet", "s9", "a1", "a2"), "OptimisedPowerDamping": ("s6", "s8", "a1", "a2", "bet", "s9", "alp")}


def fd_check(fn, leaves, chosen, rng, what):
    """Reverse-mode derivative along a random direction of each chosen input
    against central differences of the same function."""
    args = {k: v.detach().clone().requires_grad_(k in chosen) for k, v in leaves.items()}
    out = fn(args)
    w = torch.tensor(rng.uniform(0.5, 1.5, size=tuple(out.shape)), dtype=out.dtype)
    val = (out * w).sum()
    if "positions" in leaves:  # no derivative at the sharp cutoffs
        x = leaves["positions"].detach()
        dist = torch.linalg.vector_norm(x.unsqueeze(-2) - x.unsqueeze(-3), dim=-1)
        if any(bool(((dist - c).abs() < 0.05).any()) for c in (25.0, 30.0, 40.0, 60.0)):
            return None
    gr = torch.autograd.grad(val, [args[k] for k in chosen], allow_unused=True) if val.requires_grad else [None] * len(chosen)
    for k, g in zip(chosen, gr):
        d = torch.tensor(rng.normal(size=tuple(leaves[k].shape)), dtype=torch.float64)
        if k in ("rvdw", "c6"):
            d = (d + d.mT) / 2
        if k == "r4r2":
            d = d * (leaves[k] != 0)
        res = []
        for h in (1e-3, 2.5e-4):
            vals = []
            for s in (-2, -1, 1, 2):
                a = {m: v.detach() for m, v in leaves.items()}
                a[k] = a[k] + s * h * d
                with torch.no_grad():
                    vals.append(float((fn(a) * w).sum()))
            res.append((vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h))
        want = res[1]
        got = float((g * d).sum()) if g is not None else 0.0
        err = abs(res[0] - res[1])
        scale = max(abs(want), abs(got), 1e-6 * float(val.detach().abs()))
        if abs(got - want) > 1e-4 * scale + 20 * err + 1e-10 or (not np.isfinite(got) and np.isfinite(want)):
            return f"{what}: derivative with respect to {k} is {got!r}, finite differences give {want!r} (inputs requiring gradients: {sorted(chosen)})"
    return None


def subset(rng, names):
    u = rng.random()
    if u < 0.35:
        return [str(rng.choice(names))]
    if u < 0.6:
        return list(names)
    return [k for k in names if rng.random() < 0.5] or [str(rng.choice(names))]


def special(rng, par, dn):
    """Optional tenth-order term; scale factors that are exactly zero."""
    extra = ()
    if dn == "RationalDamping" and rng.random() < 0.4:
        par["s10"] = torch.tensor(rng.uniform(0.2, 1.5), dtype=torch.float64)
        extra = ("s10",)
    for k in ("s6", "s8", "s9", "s10"):
        if k in par and rng.random() < 0.15:
            par[k] = torch.zeros_like(par[k])
    return extra


def energy(rep, rng):
    import tad_dftd4 as d4
    from tad_dftd4.damping import functions as dfun
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    f = torch.float64
    if rng.random() < 0.5:
        z, x = whole.molecule(rng)
        Z, x = torch.tensor(np.asarray(z)), torch.tensor(x)
    else:
        Z, x, _ = whole.pad_batch([whole.molecule(rng) for _ in range(2)], rng)
        Z, x = torch.tensor(Z), torch.tensor(x)
    dn = str(rng.choice(list(DAMPS)))
    model = str(rng.choice(["d4", "d4s"]))
    api = str(rng.choice(["dftd4", "exact", "mixed", "dftd4"]))
    if api != "dftd4":
        model, dn = "d4", "RationalDamping"
    par = whole.param(f, **DAMPS[dn])
    if api == "mixed":
        par["rs9"] = torch.tensor(1.1, dtype=f)
    extra = special(rng, par, dn)
    n = Z.shape[-1]
    giveq, giver4, giverv = rng.random() < 0.5, rng.random() < 0.4, rng.random() < 0.4
    leaves = {"positions": x}
    if giveq:
        leaves["q"] = torch.tensor(rng.uniform(-0.4, 0.4, size=tuple(Z.shape))) * float(rng.random() < 0.8)
    else:
        leaves["charge"] = torch.tensor(rng.uniform(-1, 1, size=tuple(Z.shape[:-1]))) * float(rng.random() < 0.8)
    if giver4:
        leaves["r4r2"] = torch.tensor(rng.uniform(1.5, 6, size=tuple(Z.shape)))
        if rng.random() < 0.5:  # padded atoms as in the tables
            leaves["r4r2"] = leaves["r4r2"] * (Z > 0)
    if giverv:
        a = torch.tensor(rng.uniform(3, 6, size=(*Z.shape, n)))
        leaves["rvdw"] = (a + a.mT) / 2
    use = [k for k in (USES[dn] if api != "mixed" else (*USES[dn], "rs9")) + extra if k in par]
    leaves.update({k: par[k] for k in use})

    def fn(a):
        p = {k: a.get(k, v) for k, v in par.items()}
        kw = {k: a[k] for k in ("q", "r4r2", "rvdw") if k in a}
        ch = a.get("charge", torch.zeros(Z.shape[:-1], dtype=f))
        if api == "dftd4":
            return d4.dftd4(Z, a["positions"], ch, p, model=model, damping_function=getattr(dfun, dn)(), **kw)
        if api == "exact":
            return DispD4Exact(dtype=f).calculate(Z, a["positions"], ch, p, **kw)
        d = Disp(model="d4", dtype=f)
        d.register(TwoBodyTerm(damping_fn=dfun.RationalDamping(), charge_dependent=True))
        d.register(D3ATM(damping_fn=dfun.ZeroDamping(), charge_dependent=True))
        d.register(D4ATMExact(damping_fn=dfun.ZeroDamping(), charge_dependent=True))
        return d.calculate(Z, a["positions"], ch, p, **kw)

    names = list(leaves)
    chosen = subset(rng, names)
    info = {"Z": Z.tolist(), "positions": x.tolist(), "api": api, "damping": dn, "model": model, "requires_grad": chosen,
            "inputs": {k: v.tolist() for k, v in leaves.items() if k != "positions"}}
    return fd_check(fn, leaves, chosen, rng, f"{api}/{model}/{dn}"), info


def kernels(rep, rng):
    from tad_dftd4 import model
    from tad_dftd4.damping import functions as dfun
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import dispersion2
    import tad_dftd4 as d4

    f = torch.float64
    z, x = whole.molecule(rng)
    Z, x = torch.tensor(np.asarray(z)), torch.tensor(x)
    n = len(z)
    sym = lambda lo, hi: (lambda a: (a + a.mT) / 2)(torch.tensor(rng.uniform(lo, hi, size=(n, n))))
    kind = str(rng.choice(["dispersion2", "atm", "weights", "c6", "properties"]))
    dn = str(rng.choice(list(DAMPS)))
    par = whole.param(f, **DAMPS[dn])
    extra = special(rng, par, dn)
    cls = str(rng.choice(["D4Model", "D4SModel"]))
    ref = str(rng.choice(["eeq", "gfn2"]))
    if kind == "dispersion2":
        leaves = {"positions": x, "c6": sym(5, 100), "r4r2": torch.tensor(rng.uniform(1.5, 6, size=n)), "rvdw": sym(3, 6),
                  **{k: par[k] for k in USES[dn] + extra if k in par and k not in ("s9",)}}
        asm = bool(rng.random() < 0.3)
        fn = lambda a: dispersion2(Z, a["positions"], {k: a.get(k, v) for k, v in par.items()}, a["c6"], a["r4r2"],
                                   damping_function=getattr(dfun, dn)(), rvdw=a["rvdw"], as_matrix=asm)
    elif kind == "atm":
        leaves = {"positions": x, "c9": torch.tensor(rng.uniform(1, 50, size=(n, n, n))), "rvdw": sym(3, 6), "s9": par["s9"], "alp": par["alp"]}
        cut = torch.tensor(40.0, dtype=f)
        fn = lambda a: get_atm_dispersion(Z, a["positions"], a["c9"], a["rvdw"], cut, s9=a["s9"], alp=a["alp"])
    elif kind == "properties":
        which = int(rng.integers(0, 4))
        leaves = {"positions": x, "charge": torch.tensor(float(rng.uniform(-1, 1)), dtype=f)}
        fn = lambda a: d4.get_properties(Z, a["positions"], a["charge"])[which]
    else:
        leaves = {"cn": torch.tensor(rng.uniform(0.3, 5, size=n)), "q": torch.tensor(rng.uniform(-0.4, 0.4, size=n))}
        m = getattr(model, cls)(Z, dtype=f, ref_charges=ref)
        fn = (lambda a: m.weight_references(a["cn"], a["q"])) if kind == "weights" else \
            (lambda a: m.get_atomic_c6(m.weight_references(a["cn"], a["q"])))
    chosen = subset(rng, list(leaves))
    if kind == "properties" and which == 0 and "positions" not in chosen:
        chosen.append("positions")
    info = {"Z": Z.tolist(), "kind": kind, "damping": dn, "class": cls, "requires_grad": chosen, "inputs": {k: v.tolist() for k, v in leaves.items()}}
    if kind in ("dispersion2", "atm", "properties") and n == 1 and kind != "properties":
        return None, info
    return fd_check(fn, leaves, chosen, rng, kind), info


def run(rep):
    rep.assume("torch's reverse-mode rules of elementary operations; dependencies (coordination number, EEQ) are differentiable",
               "derivatives at the sharp cutoffs and at vanishing effective charge are not part of the contract")
    whole.run(rep, energy, 60, "energy:derivative")
    whole.run(rep, kernels, 80, "kernels:derivative")
    if rep.enough():
        return
    bad = []
    for s in scenarios(rep.tier):
        if rep.left() < 40:
            rep.notes.append("time limit: remaining scenarios skipped")
            break
        bad += graph.check(rep, s())
    if bad and not rep.violations:
        whole.run(rep, energy, 250, "energy:derivative(search)")
        whole.run(rep, kernels, 250, "kernels:derivative(search)")
