"""Whole-calculation scenarios: dftd4 / Disp.calculate on symbolic systems with
the model replaced by its contract stand-in, and composed model properties."""
import torch

from .mspecs import *
from .scen import DT, Inp, Out, Scenario
from .specs import *
from .stubs import StubModel


def dftd4_stub(rank, dt, damping="RationalDamping", given=("r4r2", "rvdw"), cutoff=True, name=None):
    """dftd4 with a stand-in model and coordination-number function."""
    b = BATCH[rank]
    inp = std_inputs(rank, dt, ["Z", "pos", "c6", "cn", "q", *given] + (["cut"] if cutoff else []))
    for p in inp:
        if p.name == "c6":
            p.meta["symm"] = (-2, -1)
            p.meta["lo"] = Q(1, 100)
            p.gen = gen_u(1, 200, True)
        if p.name == "q":
            p.gen = gen_u(0, 0.5)
            p.meta["lo"] = 0
        if p.name == "r4r2":
            p.meta["lo"] = Q(1, 2)
    pn = ["s6", "s8", "a1", "a2", "s9", "alp"] + (["rs6", "rs8"] if damping == "ZeroDamping" else [])
    pin, pmap = params(pn, dt)

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.damping import functions as dfun
        kw = {k: env[k] for k in given}
        if cutoff:
            kw["cutoff"] = d4.cutoff.Cutoff(disp2=env["cut"], disp3=env["cut"], dtype=DT[dt])
        if damping != "RationalDamping":
            kw["damping_function"] = getattr(dfun, damping)()
        charge = torch.zeros((), dtype=DT[dt])
        return d4.dftd4(env["Z"], env["pos"], charge, {k: env[v] for k, v in pmap.items()},
                        model=StubModel(env["c6"]), q=env["q"], cn_function=lambda numbers, positions, **k: env["cn"], **kw)

    return Scenario(name or f"dftd4[model contract,{damping},rank{rank},{dt},{'+'.join(given)}]", "tad_dftd4.disp.dftd4", inp + pin, call,
                    [Out("energy", (*b, "n"), None)], derive=derive_dist, dtype=dt, dims={"n": (1, 5)})


def model_props(rank, dt, cls="D4Model", what="c6", charges="eeq", q=True):
    """C6 coefficients / polarizabilities as a function of numbers, CN and charges."""
    b = BATCH[rank]
    inp = minputs(rank, dt, ["Z", "cn"] + (["q"] if q else []))
    if charges == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4 import model
        m = getattr(model, cls)(env["Z"], dtype=DT[dt], ref_charges=charges)
        w = m.weight_references(env["cn"], env.get("q"))
        if what == "c6":
            return m.get_atomic_c6(w)
        if what == "pol":
            return m.get_polarizabilities(w)
        return m.get_weighted_pols(w)

    dims = {"c6": (*b, "n", "n"), "pol": (*b, "n"), "wpol": (*b, "n", 23)}[what]
    return Scenario(f"{cls}.{what}[rank{rank},{dt},{charges}]", f"tad_dftd4.model.{cls}", inp, call, [Out(what, dims, None)],
                    conc_ok=no_denormals(6.0 if cls == "D4Model" else "table"), dtype=dt, axioms={}, positions=(), dims={"n": (1, 5)})


def cn(rank, dt, fn):
    """Coordination numbers of the dependency, executed rather than assumed."""
    b = BATCH[rank]

    def call(env):
        import tad_mctc.ncoord as nc
        return getattr(nc, fn)(env["Z"], env["pos"])

    return Scenario(f"{fn}[rank{rank},{dt}]", f"tad_mctc.ncoord.{fn}", std_inputs(rank, dt, ["Z", "pos"]), call, [Out("cn", (*b, "n"), None)],
                    derive=derive_dist, dtype=dt, dims={"n": (1, 5)})


def distances(rank, dt):
    """storch.cdist, executed rather than assumed: the Euclidean distance of two
    atoms (never below the root of the machine epsilon)."""
    b = BATCH[rank]
    eps = Q(1, 2 ** (52 if dt == "f64" else 23))

    def call(env):
        from tad_mctc import storch
        from tad_mctc.batch import real_pairs
        d = storch.cdist(env["pos"], env["pos"], p=2)
        return torch.where(real_pairs(env["Z"], mask_diagonal=True), d, torch.zeros_like(d))

    def spec(*ix):
        *bb, i, j = ix
        s = SUM(I(3), lambda k: pw(sub(app("pos", (*bb, i, k)), app("pos", (*bb, j, k))), 2))
        return ite(band(real(*bb, i), real(*bb, j), bnot(eq(i, j))), sqrt(ite(le(s, R(eps)), R(eps), s)), R(0))

    return Scenario(f"storch.cdist[rank{rank},{dt}]", "tad_mctc.storch.cdist", std_inputs(rank, dt, ["Z", "pos"]), call, [Out("dist", (*b, "n", "n"), spec)],
                    dtype=dt, axioms={}, stub_cdist=False, positions=())


def complete(rank, dt, model="d4", damping=None):
    """dftd4 with the real coordination numbers and the real model; only the
    atomic charges are given."""
    b = BATCH[rank]
    inp = std_inputs(rank, dt, ["Z", "pos", "q"])
    for p in inp:
        if p.name == "q":
            p.gen = gen_u(-0.4, 0.4)
    pin, pmap = params(["s6", "s8", "a1", "a2", "s9", "alp"] + (["rs6", "rs8"] if damping == "ZeroDamping" else []), dt)

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.damping import functions as dfun
        kw = {"damping_function": getattr(dfun, damping)()} if damping else {}
        return d4.dftd4(env["Z"], env["pos"], torch.zeros((), dtype=DT[dt]), {k: env[v] for k, v in pmap.items()}, model=model, q=env["q"], **kw)

    return Scenario(f"dftd4[complete,{model},{damping or 'default'},rank{rank},{dt}]", "tad_dftd4.disp.dftd4", inp + pin, call, [Out("energy", (*b, "n"), None)],
                    derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def complete_makers():
    out = [lambda r, dt, fn=fn: cn(r, dt, fn) for fn in ("cn_d4", "cn_d3")]
    for m, d in (("d4", None), ("d4s", None), ("d4", "ZeroDamping")):
        out.append(lambda r, dt, m=m, d=d: complete(r, dt, m, d))
    return out


def makers():
    """Functions under relational contracts: (rank, dt) -> Scenario."""
    from .props import c01, c02, c08, c09, c10

    def owner(s):  # weights[..., seen by, owner, reference]
        for o in s.outs:
            o.zero_pad = (-2,)
        return s

    out = []
    for d, pn in c01.BASE.items():
        out.append(lambda r, dt, d=d, pn=pn: c01.scenario(d, r, dt, pn, True, False))
    out.append(lambda r, dt: c01.scenario("RationalDamping", r, dt, c01.R1, True, True))
    out.append(lambda r, dt: c01.term_scenario(r, dt, True, True))
    out.append(lambda r, dt: c02.direct(r, dt, "t", "t"))
    for cls in ("D4ATMApprox", "D4ATMExact", "D3ATM"):
        full = ["s9", "alp", "rs9" if cls == "D3ATM" else "a1"] + ([] if cls == "D3ATM" else ["a2"])
        out.append(lambda r, dt, cls=cls, full=full: c02.term(cls, r, dt, True, True, full))
    for ch in ("eeq", "gfn2"):
        out.append(lambda r, dt, ch=ch: c08.d4_weights(r, dt, ch))
        out.append(lambda r, dt, ch=ch: owner(c10.weights(r, dt, ch)))
    for cls in ("D4Model", "D4SModel"):
        out.append(lambda r, dt, cls=cls: model_props(r, dt, cls, "c6"))
        out.append(lambda r, dt, cls=cls: c09.refc6(r, dt, "eeq", False, cls))
    out.append(lambda r, dt: model_props(r, dt, "D4Model", "pol"))
    out.append(lambda r, dt: model_props(r, dt, "D4Model", "wpol", "gfn2"))
    out.append(lambda r, dt: model_props(r, dt, "D4SModel", "wpol"))
    out.append(lambda r, dt: dftd4_stub(r, dt))
    out.append(lambda r, dt: dftd4_stub(r, dt, "ZeroDamping"))
    out.append(lambda r, dt: dftd4_stub(r, dt, given=()))
    return out
