"""C08 charge scaling and C07-style weights of the D4 model."""
import torch

from ..mspecs import *
from ..scen import Out, Scenario, drive
from . import c10


def d4_weights(rank, dt, charges="eeq", sym_ga=True, wf=None, cn=True, q=True, name=None, ga0=False):
    names = ["Z"] + (["cn"] if cn else []) + (["q"] if q else [])
    if sym_ga:
        names += ["ga", "gc"]
    if wf == "t":
        names.append("wf")
    b = BATCH[rank]
    inp = minputs(rank, dt, names)
    if charges == "gfn2":  # the GFN2 reference charges end at Rn
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4.model import D4Model
        kw = {}
        if sym_ga:
            kw.update(ga=env["ga"], gc=env["gc"])
        if ga0:
            kw["ga"] = 0.0
        if wf is not None:
            kw["wf"] = env["wf"] if wf == "t" else wf
        if charges != "eeq":
            kw["ref_charges"] = charges
        m = D4Model(env["Z"], dtype=DT[dt], rc6=torch.zeros(1), **kw)
        return m.weight_references(env.get("cn"), env.get("q"))

    def ms():
        w = None
        if wf == "t":
            w = lambda b_, i, j: sc("wf")
        elif wf is not None:
            w = lambda b_, i, j: R(Q(str(wf)))
        return ModelSpec(dt, charges, ga=sc("ga") if sym_ga else (R(0) if ga0 else None), gc=sc("gc") if sym_ga else None, wf=w,
                         cn="cn" if cn else None, q="q" if q else None)

    def spec(*ix):
        m = ms()
        *bb, i, a = ix
        return m.gw(bb, i, None, a) if ga0 else m.W(bb, i, None, a)

    nm = name or f"D4Model.weight_references[rank{rank},{dt},{charges},ga/gc={'any' if sym_ga else ('0' if ga0 else 'default')},wf={wf},cn={cn},q={q}]"
    return Scenario(nm, "tad_dftd4.model.d4.D4Model.weight_references", inp, call, [Out("weights", (*b, "n", 7), spec)],
                    dtype=dt, axioms={}, positions=(), conc_ok=no_denormals("wf" if wf == "t" else (6.0 if wf is None else wf)), rtol=1e-7 if dt == "f64" else 2e-3)


def scenarios(tier):
    yield d4_weights(1, "f64")
    yield d4_weights(0, "f64")
    yield d4_weights(0, "f32")
    yield d4_weights(2, "f64", "gfn2", wf="t")
    yield d4_weights(1, "f32", "gfn2")
    yield d4_weights(1, "f64", sym_ga=False)
    yield d4_weights(1, "f64", q=False)
    yield d4_weights(1, "f64", cn=False)
    yield d4_weights(0, "f32", cn=False, q=False)
    yield c10.weights(1, "f64", sym_ga=True, wf="matrix")
    yield c10.weights(0, "f64", "gfn2")
    yield c10.weights(1, "f32", q=False)
    for cls in ("D4Model", "D4SModel"):
        for where in ("init", "weights"):
            yield unknown_set(cls, where)




def unknown_set(cls, where):
    """An unknown charge set is rejected, on construction and on weighting."""
    inp = minputs(1, "f64", ["Z", "cn", "q"])

    def call(env):
        from tad_dftd4 import model
        C = getattr(model, cls)
        if where == "init":
            m = C(env["Z"], ref_charges="gfn1", dtype=torch.float64)
        else:
            m = C(env["Z"], ref_charges="gfn1", rc6=torch.zeros(1), dtype=torch.float64)
        return m.weight_references(env["cn"], env["q"])

    return Scenario(f"{cls}[unknown charge set,{where}]", f"tad_dftd4.model.{cls}", inp, call, [Out("w", ("nb", "n"), None)],
                    raises=[(TRUE, ValueError)], axioms={}, positions=())


def lemmas(rep):
    from ..scen import lemma
    from ..sym import array

    for p in minputs(0, "f64", ["Z", "cn", "q", "ga", "gc"]):
        array(p.name, tuple(1 for _ in p.dims), p.dtype, **p.meta)
    i, a = ivar("ix0"), ivar("ix1")
    m = ModelSpec("f64", ga=sc("ga"), gc=sc("gc"))
    declare("zz", sort="R", lo=0, lo_strict=True)
    z = sc("zz")
    lemma(rep, "zeta-is-one-at-reference-charge", m.zscale(mul(tab("gam", "f64", ZZ((), i)), m.gc), z, z), R(1), facts=[lt(R(0), z)])
    # all reference charges leave a positive effective charge (finite check)
    T_ = tables().t
    zeff = T_["zeff"].double().numpy()
    for ch in ("eeq", "gfn2"):
        q = T_["q_" + ch].double().numpy()
        cnt = T_["refc"].numpy()[: q.shape[0]]
        bad = [(z, k) for z in range(1, q.shape[0]) for k in range(NREF) if cnt[z, k] > 0 and zeff[z] + q[z, k] <= 0]
        if bad:
            rep.fail_input(f"reference-charge-domain[{ch}]", f"Zeff + q_ref <= 0 for (Z, ref) {bad[:5]}", {"entries": bad})
        else:
            rep.ok(f"reference-charge-domain[{ch}]")


def run(rep):
    drive(rep, scenarios(rep.tier))
    lemmas(rep)
