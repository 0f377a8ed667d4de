"""C11 signs of weights, coefficients, damping and two-body energies."""
import torch

from .. import signs
from ..e2e import model_props
from ..ir import neg, sub
from ..mspecs import *
from ..scen import Out, Scenario
from ..stubs import StubModel
from . import c01, c02, c03, c08, c09, c10


def nonneg(rep, scn, label="non-negative", count=4):
    bad, pool = signs.check(rep, scn, lambda o, ix, t: [(label, t)])
    signs.run_concrete(rep, scn, lambda a, g: [(f"{k} must not be negative", v, 0.0) for k, v in g.items()], count, pool, bad)


def gen_scale(rng, shape, arrays, sizes):
    x = 10.0 ** rng.uniform(-3, 1, size=shape)
    zero = any(k in arrays and float(np.max(arrays[k])) == 0 for k in ("p_s6", "p_s8", "p_s10"))
    return np.where(rng.random(shape) < (0.7 if zero else 0.35), 0.0, x)


def nonpos(rep, scn, count=6):
    for p in scn.inputs:
        if p.name in ("p_s6", "p_s8", "p_s10"):
            p.gen = gen_scale
    bad, pool = signs.check(rep, scn, lambda o, ix, t: [("at-most-zero", neg(t))])
    signs.run_concrete(rep, scn, lambda a, g: [(f"{k} must not be positive", -v, 0.0) for k, v in g.items()], count, pool, bad)


def damping(rep, cls, order, dt):
    f, rt, orders, req = DAMP[cls]
    names = [f"s{order}"] + ([f"rs{order}"] if rt == "rvdw" else []) + sorted({x for x in req[order]} - {f"rs{order}"})
    scn = c03.scenario(cls, order, names, [], dt)

    def goals(o, ix, t):
        return [("non-negative", t), ("at-most-undamped", sub(R(1), mul(t, pw(app("dd", ix), order))))]

    bad, pool = signs.check(rep, scn, goals)
    signs.run_concrete(rep, scn, lambda a, g: [("damping must not be negative", g["f"], 0.0),
                                              ("damped must not exceed undamped", 1 - g["f"] * np.asarray(a["dd"], float) ** order, 1e-12 if dt == "f64" else 1e-5)],
                       6, pool, bad)


def c9(cls, rank, dt):
    """C9 coefficients from non-negative C6 coefficients or polarizabilities."""
    b = BATCH[rank]
    inp = minputs(rank, dt, ["Z"]) + std_inputs(rank, dt, ["cn"])
    inp.append(Inp("c6", (*b, "n", "n"), DT[dt], gen_u(0, 200, True), lo=0, symm=(-2, -1)))
    inp.append(Inp("aiw", (*b, "n", 23), DT[dt], gen_u(0, 20), lo=0))

    def call(env):
        from tad_dftd4.damping import ZeroDamping
        from tad_dftd4.dispersion import d3, d4
        C = getattr(d4, cls, None) or getattr(d3, cls)
        return C(damping_fn=ZeroDamping(), charge_dependent=False).get_c9(StubModel(env["c6"], env["aiw"]), env["cn"], None)

    return Scenario(f"{cls}.get_c9[rank{rank},{dt}]", f"tad_dftd4.dispersion.threebody.{cls}.get_c9", inp, call,
                    [Out("c9", (*b, "n", "n", "n"), None)], dtype=dt, axioms={}, positions=(), dims={"n": (1, 4)})


def run(rep):
    rep.assume("over the reals; floating-point rounding can not change the sign of the quantities, which are sums and products of non-negative numbers (the polarizability clipping is explicit in the code)")
    for cls, (f, rt, orders, req) in DAMP.items():
        for order in orders:
            if order == 9:
                continue
            for dt in ("f64", "f32"):
                damping(rep, cls, order, dt)
    for rank in (0, 1):
        for d, pn in c01.BASE.items():
            for matrix in (False, True):
                nonpos(rep, c01.scenario(d, rank, "f64" if rank else "f32", pn, True, matrix))
        nonpos(rep, c01.scenario("RationalDamping", rank, "f64", c01.R1, False, False))
        nonpos(rep, c01.term_scenario(rank, "f64", True, False))
    for dt in ("f64", "f32"):
        for rank in (0, 1):
            for cls in ("D4ATMApprox", "D4ATMExact", "D3ATM"):
                nonneg(rep, c9(cls, rank, dt))
            nonneg(rep, c08.d4_weights(rank, dt))
            nonneg(rep, c10.weights(rank, dt, sym_ga=True))
            nonneg(rep, c09.alpha(rank, dt, "gfn2" if rank else "eeq", True))
            nonneg(rep, c09.refc6(rank, dt, "eeq", bool(rank)))
            nonneg(rep, c09.atomic_c6(rank, dt))
            nonneg(rep, c10.atomic_c6(rank, dt))
            nonneg(rep, model_props(rank, dt, "D4Model", "c6"))
            nonneg(rep, model_props(rank, dt, "D4SModel", "c6"))
            nonneg(rep, model_props(rank, dt, "D4Model", "pol"))
