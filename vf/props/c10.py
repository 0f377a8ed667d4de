"""C10 D4S: pair-specific Gaussian width."""
import torch

from .. import whole
from ..mspecs import *
from ..scen import Out, Scenario, drive, lemma


def gen_sym(lo, hi):
    def g(rng, shape, arrays, sizes):
        x = rng.uniform(lo, hi, size=shape)
        return (x + np.swapaxes(x, -1, -2)) / 2
    return g


def gen_wfm(rng, shape, arrays, sizes):
    if rng.integers(0, 2):
        return gen_sym(2, 8)(rng, shape, arrays, sizes)
    x = 10.0 ** rng.uniform(0, 3.2, size=shape)  # narrow Gaussians: the fallback also between two references
    return (x + np.swapaxes(x, -1, -2)) / 2


def pairwf(kind, dt):
    if kind == "table":
        return lambda b, i, j: tab("wf", dt, ZZ(b, i), ZZ(b, j))
    if kind == "matrix":
        return lambda b, i, j: app("wfm", (*b, i, j))
    if kind == "debug":
        return lambda b, i, j: R(6)
    return lambda b, i, j: sc("wf")


def weights(rank, dt, charges="eeq", wf="table", sym_ga=False, cn=True, q=True, ga0=False):
    names = ["Z"] + (["cn"] if cn else []) + (["q"] if q else [])
    if sym_ga:
        names += ["ga", "gc"]
    if wf in ("const", "scalar"):
        names.append("wf")
    b = BATCH[rank]
    inp = minputs(rank, dt, names)
    if wf == "matrix":
        inp.append(Inp("wfm", (*b, "n", "n"), DT[dt], gen_wfm, lo=Q(1, 10), symm=(-2, -1)))
    if charges == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4.model import D4SModel
        from tad_dftd4.model.d4s import D4SDebug
        kw = {}
        if sym_ga:
            kw.update(ga=env["ga"], gc=env["gc"])
        if ga0:
            kw["ga"] = 0.0
        if wf == "matrix":
            kw["wf"] = env["wfm"]
        elif wf == "const":
            Z = env["Z"]
            kw["wf"] = env["wf"].expand(*Z.shape, Z.shape[-1])
        elif wf == "scalar":  # one weighting factor for all pairs
            kw["wf"] = env["wf"]
        if charges != "eeq":
            kw["ref_charges"] = charges
        cls = D4SDebug if wf == "debug" else D4SModel
        m = cls(env["Z"], dtype=DT[dt], rc6=torch.zeros(1), **kw)
        return m.weight_references(env.get("cn"), env.get("q"))

    def spec(*ix):
        m = ModelSpec(dt, charges, ga=sc("ga") if sym_ga else (R(0) if ga0 else None), gc=sc("gc") if sym_ga else None,
                      wf=pairwf(wf, dt), cn="cn" if cn else None, q="q" if q else None)
        *bb, j, i, a = ix
        return m.gw(bb, i, j, a) if ga0 else m.W(bb, i, j, a)

    nm = f"D4SModel.weight_references[rank{rank},{dt},{charges},ga/gc={'any' if sym_ga else ('0' if ga0 else 'default')},wf={wf},cn={cn},q={q}]"
    return Scenario(nm, "tad_dftd4.model.d4s.D4SModel.weight_references", inp, call, [Out("weights", (*b, "n", "n", 7), spec)],
                    dtype=dt, axioms={}, positions=(), conc_ok=no_denormals({"table": "table", "matrix": "wfm", "const": "wf", "scalar": "wf", "debug": 6.0}[wf]), rtol=1e-7 if dt == "f64" else 2e-3)


def atomic_c6(rank, dt):
    b = BATCH[rank]
    inp = [minputs(rank, dt, ["Z"])[0], Inp("gw", (*b, "n", "n", 7), DT[dt], gen_u(0, 1.2), lo=0, grad=True),
           Inp("rc6", (*b, "n", "n", 7, 7), DT[dt], gen_u(0, 100), lo=0)]

    def call(env):
        from tad_dftd4.model import D4SModel
        return D4SModel(env["Z"], rc6=env["rc6"], dtype=DT[dt]).get_atomic_c6(env["gw"])

    def spec(*ix):
        *b_, i, j = ix
        return SUM(I(7), lambda a: SUM(I(7), lambda c: prod(app("rc6", (*b_, i, j, a, c)), app("gw", (*b_, j, i, a)), app("gw", (*b_, i, j, c)))))

    return Scenario(f"D4SModel.get_atomic_c6[rank{rank},{dt}]", "tad_dftd4.model.d4s.D4SModel.get_atomic_c6", inp, call,
                    [Out("c6", (*b, "n", "n"), spec)], dtype=dt, axioms={}, positions=())


def getwf(rank, dt):
    b = BATCH[rank]

    def call(env):
        from tad_dftd4.model import D4SModel
        return D4SModel(env["Z"], rc6=torch.zeros(1), dtype=DT[dt]).wf

    return Scenario(f"D4SModel.wf[rank{rank},{dt}]", "tad_dftd4.model.d4s.D4SModel._get_wf", minputs(rank, dt, ["Z"]), call,
                    [Out("wf", (*b, "n", "n"), lambda *ix: pairwf("table", dt)(ix[:-2], ix[-2], ix[-1]))], dtype=dt, axioms={}, positions=())


def wpols(rank, dt, charges="eeq"):
    """Polarizability of an atom averaged over its partners (real atoms)."""
    b = BATCH[rank]
    inp = [minputs(rank, dt, ["Z"])[0], Inp("gw", (*b, "n", "n", 7), DT[dt], gen_u(0, 1.2), lo=0, grad=True)]
    if charges == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4.model import D4SModel
        return D4SModel(env["Z"], rc6=torch.zeros(1), ref_charges=charges, dtype=DT[dt]).get_weighted_pols(env["gw"])

    def spec(*ix):
        m = ModelSpec(dt, charges)
        *b_, i, w = ix
        real = lambda x: ite(lt(I(0), ZZ(b_, x)), R(1), R(0))
        n = SUM(ivar("n"), real)
        n = ite(lt(n, R(1)), R(1), n)
        return quot(SUM(ivar("n"), lambda j: mul(real(j), SUM(I(7), lambda a: mul(app("gw", (*b_, j, i, a)), m.alpha(b_, i, a, w))))), n)

    return Scenario(f"D4SModel.get_weighted_pols[rank{rank},{dt},{charges}]", "tad_dftd4.model.d4s.D4SModel.get_weighted_pols", inp, call,
                    [Out("pol", (*b, "n", 23), spec)], dtype=dt, axioms={}, positions=(), rtol=1e-7 if dt == "f64" else 2e-3)


def scenarios(tier):
    for rank, dt, ch in ((0, "f64", "eeq"), (1, "f64", "gfn2"), (1, "f32", "eeq"), (2, "f64", "eeq")):
        yield wpols(rank, dt, ch)
    for rank in (0, 1, 2):
        for dt in ("f64", "f32"):
            yield getwf(rank, dt)
            yield weights(rank, dt, "gfn2" if rank == 1 else "eeq", ga0=rank == 2 and dt == "f64")
            yield weights(rank, dt, wf="matrix", sym_ga=rank == 1, ga0=rank == 0)
            yield atomic_c6(rank, dt)
    yield weights(0, "f64", wf="debug")
    yield weights(1, "f64", wf="debug")
    yield weights(1, "f64", wf="const", sym_ga=True)
    yield weights(1, "f32", wf="const", q=False)
    yield weights(1, "f64", wf="scalar", sym_ga=True)
    yield weights(0, "f32", wf="scalar")
    yield weights(1, "f64", cn=False)
    yield weights(0, "f64", cn=False, q=False)
    yield weights(0, "f32", q=False)


def lemmas(rep):
    """With one weighting factor for all pairs the D4S contracts are the D4 contracts."""
    from ..sym import array

    for p in minputs(0, "f64", ["Z", "cn", "q", "wf"]):
        array(p.name, tuple(1 for _ in p.dims), p.dtype, **p.meta)
    declare("rc", sort="R")
    i, j, a = ivar("ix0"), ivar("ix1"), ivar("ix2")
    w = pairwf("const", "f64")
    d4 = ModelSpec("f64", wf=w)
    declare("wfm", sort="R", lo=Q(1, 10))
    d4s = ModelSpec("f64", wf=lambda b, x, y: app("wfm", (x, y)))
    fa = [eq(app("wfm", (i, j)), sc("wf"))]
    sub = lambda t: ir.replace(t, lambda x: sc("wf") if x.op == "app" and x.data == "wfm" else None)
    lemma(rep, "constant-factor-weights-are-D4-weights", sub(d4s.W((), i, j, a)), d4.W((), i, None, a), facts=fa)

    def c6(wa, wb):
        return SUM(I(7), lambda a_: SUM(I(7), lambda c: prod(app("rc", (i, j, a_, c)), wa(a_), wb(c))))

    lemma(rep, "constant-factor-C6-is-D4-C6", c6(lambda v: sub(d4s.W((), i, j, v)), lambda v: sub(d4s.W((), j, i, v))),
          c6(lambda v: d4.W((), i, None, v), lambda v: d4.W((), j, None, v)))
    declare("P", sort="R")
    real = lambda x: ite(lt(I(0), ZZ((), x)), R(1), R(0))
    n = SUM(ivar("n"), real)
    lemma(rep, "constant-factor-polarizability-is-D4-polarizability", SUM(ivar("n"), lambda x: mul(real(x), sc("P"))), mul(n, sc("P")))
    t = tables().t["wf"]
    import numpy as np
    x = t.numpy()
    bad = np.argwhere(x[1:104, 1:104] != x[1:104, 1:104].T)
    if len(bad):
        rep.fail_input("weighting-factor-table-symmetric", f"wf[A,B] != wf[B,A] at {(bad[:4] + 1).tolist()}", {"entries": bad[:10].tolist()})
    else:
        rep.ok("weighting-factor-table-symmetric")


def run(rep):
    drive(rep, scenarios(rep.tier), count=6, thorough=40)
    lemmas(rep)
    whole.run(rep, whole.d4s_constant, 40, "whole program: D4S with a constant factor")
