"""C01 two-body energy."""
import torch

from tad_dftd4.damping import functions as dfun
from tad_dftd4.dispersion.twobody import dispersion2

from ..scen import Out, Scenario, drive
from ..specs import *


def scenario(damp, rank, dt, pn, cut, matrix, wide=False):
    f, rt, orders, _ = DAMP[damp]
    names = ["Z", "pos", "c6", "r4r2"]
    if rt == "rvdw":
        names.append("rvdw")
    if cut:
        names.append("cut")
    inp = std_inputs(rank, dt, names)
    pin, pmap = params(pn, dt, **(domain(damp) if wide else {}))
    inp += pin
    b = BATCH[rank]
    cls = getattr(dfun, damp)

    def call(env):
        kw = {}
        if rt == "rvdw":
            kw["rvdw"] = env["rvdw"]
        if cut:
            kw["cutoff"] = env["cut"]
        if damp != "RationalDamping" or rank == 1:
            kw["damping_function"] = cls()
        if matrix:
            kw["as_matrix"] = True
        return dispersion2(env["Z"], env["pos"], {k: env[v] for k, v in pmap.items()}, env["c6"], env["r4r2"], **kw)

    have8 = "s8" in pn or "rs8" in pn

    def mkspec():
        p = pterms(pn)
        if rt == "rvdw":
            p.setdefault("alp", R(16))
        c = sc("cut") if cut else R(60)
        if matrix:
            return lambda *ix: neg(two_body_pair(f, rt, p, c, ix[:-2], ix[-2], ix[-1], have8=have8))
        return two_body_atom(f, rt, p, c, have8=have8)

    spec = lambda *ix: mkspec()(*ix)
    dims = (*b, "n", "n") if matrix else (*b, "n")
    nm = f"dispersion2[{damp},rank{rank},{dt},{'+'.join(pn)}{',cutoff' if cut else ''}{',matrix' if matrix else ''}]"
    return Scenario(nm, "tad_dftd4.dispersion.twobody.dispersion2", inp, call,
                    [Out("energy", dims, spec)], derive=derive_dist, dtype=dt)


def term_scenario(rank, dt, cd, have_q, damp="RationalDamping", wide=False):
    """TwoBodyTerm.calculate against the model contract."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    from ..stubs import StubModel

    f, rt, _, _ = DAMP[damp]
    pn = BASE[damp]
    names = ["Z", "pos", "c6", "r4r2", "rvdw", "cn"] + (["q"] if have_q else []) + ["cut"]
    inp = std_inputs(rank, dt, names)
    pin, pmap = params(pn, dt, **(domain(damp) if wide else {}))
    b = BATCH[rank]

    def call(env):
        t = TwoBodyTerm(damping_fn=getattr(dfun, damp)(), charge_dependent=cd)
        cut = Cutoff(disp2=env["cut"], disp3=40.0, dtype=DT[dt])
        return t.calculate(env["Z"], env["pos"], {k: env[v] for k, v in pmap.items()}, env["cn"], StubModel(env["c6"]),
                           env.get("q"), env["r4r2"], env["rvdw"], cut)

    def c6(*ix):
        def w(i):
            x = plus(2, app("cn", (*ix[:-2], i)))
            return plus(x, mul(R(3), app("q", (*ix[:-2], i)))) if (cd and have_q) else plus(x, Q(1, 2))
        return plus(app("c6", ix), mul(w(ix[-2]), w(ix[-1])))

    spec = lambda *ix: two_body_atom(f, rt, pterms(pn), sc("cut"), c6=c6)(*ix)
    return Scenario(f"TwoBodyTerm.calculate[{damp},rank{rank},{dt},charge_dependent={cd},q={have_q}]",
                    "tad_dftd4.dispersion.twobody.TwoBodyTerm.calculate", inp + pin, call,
                    [Out("energy", (*b, "n"), spec)], derive=derive_dist, dtype=dt)


R1 = ["s6", "s8", "s10", "a1", "a2"]
BASE = {"RationalDamping": ["s6", "s8", "a1", "a2"], "ZeroDamping": ["s6", "s8", "rs6", "rs8", "alp"],
        "MZeroDamping": ["s6", "s8", "rs6", "rs8", "alp", "bet"], "OptimisedPowerDamping": ["s6", "s8", "a1", "a2", "bet"]}


def scenarios(tier):
    for rank in (0, 1, 2):
        for dt in ("f64", "f32"):
            for matrix in (False, True):
                yield scenario("RationalDamping", rank, dt, R1, True, matrix, wide=True)
    for d, pn in BASE.items():
        for matrix in (False, True):
            yield scenario(d, 1, "f64", pn, True, matrix, wide=True)
        yield scenario(d, 0, "f32", pn, False, False, wide=True)
    for pn in (["a1", "a2"], ["s8", "a1", "a2"], ["s6", "a1", "a2"], ["s10", "a1", "a2"], ["s6", "s10", "a1", "a2"]):
        yield scenario("RationalDamping", 1, "f64", pn, False, False, wide=True)
    yield scenario("ZeroDamping", 0, "f64", ["rs6", "rs8"], True, False, wide=True)
    for cd, hq in ((True, True), (False, True), (False, False), (True, False)):
        yield term_scenario(1, "f64", cd, hq, wide=True)
    yield term_scenario(0, "f32", True, True, wide=True)
    yield term_scenario(0, "f64", True, True, "ZeroDamping", wide=True)
    yield scenario("ZeroDamping", 0, "f64", ["s6", "rs6"], True, True, wide=True)


def run(rep):
    drive(rep, scenarios(rep.tier))
