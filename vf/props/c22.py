"""C22 settings reach the calculation, omitted ones get their defaults."""
import math

import numpy as np
import torch

from .. import relate, whole
from ..e2e import dftd4_stub
from ..mspecs import *
from ..scen import Inp, Out, Scenario, drive
from ..stubs import Eeq, StubModel, patched
from . import c02

DEF = dict(s6=1.0, s8=0.0, s9=1.0, a1=0.4, a2=5.0, alp=16.0, rs6=1.0, rs8=1.0, rs9=1.0, bet=0.0)
PN = {"RationalDamping": ["s6", "s8", "a1", "a2", "s9", "alp"], "ZeroDamping": ["s6", "s8", "a1", "a2", "s9", "alp", "rs6", "rs8"],
      "MZeroDamping": ["s6", "s8", "a1", "a2", "s9", "alp", "rs6", "rs8", "bet"], "OptimisedPowerDamping": ["s6", "s8", "a1", "a2", "s9", "alp", "bet"]}


def inputs(rank, dt, pn, extra=()):
    """Independent symbols for every setting."""
    b = BATCH[rank]
    inp = std_inputs(rank, dt, ["Z", "pos", "c6", "cn", "q", "r4r2", "rvdw"])
    for p in inp:
        if p.name == "c6":
            p.meta.update(symm=(-2, -1), lo=Q(1, 100))
            p.gen = gen_u(1, 200, True)
        if p.name == "q":
            p.gen = gen_u(0, 0.5)
            p.meta["lo"] = 0
        if p.name == "r4r2":
            p.meta["lo"] = Q(1, 2)
    inp.append(Inp("c2", (), DT[dt], gen_cut, lo=0))
    inp.append(Inp("c3", (), DT[dt], gen_cut, lo=0))
    for e in extra:
        inp.append(Inp(e, (), DT[dt], gen_u(0.5, 3), lo=Q(1, 10)))
    pin, pmap = params(pn, dt, wide=SCALE)
    return inp + pin, pmap


def full(rank, dt, damping, three="D4ATMApprox", api="dftd4", order=("q", "r4r2")):
    """The whole expression, every setting an independent symbol."""
    pn = PN[damping] + (["rs9"] if three == "D3ATM" else [])
    inp, pmap = inputs(rank, dt, pn)
    b = BATCH[rank]
    f, rt, orders, _ = DAMP[damping]
    exact = three == "D4ATMExact"
    if exact:
        inp.append(Inp("aiw", (*b, "n", 23), DT[dt], gen_u(0.1, 3), lo=0, grad=True))

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.damping import functions as dfun
        from tad_dftd4.dispersion import Disp, d3 as D3, d4 as D4
        from tad_dftd4.dispersion.twobody import TwoBodyTerm
        F = DT[dt]
        cut = d4.cutoff.Cutoff(disp2=env["c2"], disp3=env["c3"], dtype=F)
        param = {k: env[v] for k, v in pmap.items()}
        m = StubModel(env["c6"], env.get("aiw"))
        cnf = lambda numbers, positions, **k: env["cn"]
        kw = dict(cutoff=cut, q=env["q"], r4r2=env["r4r2"], rvdw=env["rvdw"])
        z = torch.zeros((), dtype=F)
        if api == "dftd4":
            return d4.dftd4(env["Z"], env["pos"], z, param, model=m, cn_function=cnf, damping_function=getattr(dfun, damping)(), **kw)
        d = Disp(model=m, cn_fn=cnf, dtype=F)
        T3 = getattr(D4, three, None) or getattr(D3, three)
        d.register(TwoBodyTerm(damping_fn=getattr(dfun, damping)(), charge_dependent=True))
        d.register(T3(damping_fn=dfun.ZeroDamping(), charge_dependent=False))
        return d.calculate(env["Z"], env["pos"], z, param, **kw)

    def wq(*ix):
        return plus(2, app("cn", ix), mul(R(3), app("q", ix)))

    def w0(*ix):
        return plus(2, app("cn", ix), Q(1, 2))

    def c6(w):
        return lambda *ix: plus(app("c6", ix), mul(w(*ix[:-1]), w(*ix[:-2], ix[-1])))

    def c9(*ix):
        *bb, i, j, k = ix
        if not exact:
            g = c6(w0)
            return sqrt(prod(g(*bb, i, j), g(*bb, j, k), g(*bb, i, k)))
        tab = c02.wtable(dt)
        return mul(R(3 / math.pi, 14 if dt == "f64" else 6), SUM(I(23), lambda v: prod(
            app(tab, (v,)), *[plus(app("aiw", (*bb, x, v)), w0(*bb, x)) for x in (i, j, k)])))

    def r0(*ix):
        *bb, i, j = ix
        if three == "D3ATM":
            return mul(sc("p_rs9"), app("rvdw", ix))
        return plus(mul(sc("p_a1"), sqrt(prod(3, app("r4r2", (*bb, i)), app("r4r2", (*bb, j))))), sc("p_a2"))

    def spec(*ix):
        p = pterms(pn)
        two = two_body_atom(f, rt, p, sc("c2"), c6=c6(wq))(*ix)
        return plus(two, atm_atom(c9, r0, sc("p_s9"), sc("p_alp"), sc("c3"))(*ix))

    return Scenario(f"{api}[every setting,{damping}+{three},rank{rank},{dt}]", "tad_dftd4.disp.dftd4" if api == "dftd4" else "tad_dftd4.dispersion.base.Disp.calculate",
                    inp, call, [Out("energy", (*b, "n"), spec)], derive=derive_dist, dtype=dt, dims={"n": (1, 5)})


def defaults(rank, dt, what, api="dftd4", damping="RationalDamping"):
    """Omitting a setting equals passing its documented default."""
    pn = PN[damping]
    inp, pmap = inputs(rank, dt, pn)
    b = BATCH[rank]

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.damping import functions as dfun
        from tad_dftd4.data import R4R2, VDW_PAIRWISE
        from tad_dftd4.dispersion import DispD4
        from tad_mctc.ncoord import erf_count
        F = DT[dt]
        Z = env["Z"]
        param = {k: env[v] for k, v in pmap.items()}
        seen = []

        def cnf(numbers, positions, **k):
            seen.append(sorted(k))
            return env["cn"] + (0.5 if k.get("counting_function") is not None and k["counting_function"] is not erf_count else 0.0)

        base = dict(cutoff=Cutoff(disp2=env["c2"], disp3=env["c3"], dtype=F), q=env["q"], r4r2=env["r4r2"], rvdw=env["rvdw"])
        if api == "dftd4":
            base["damping_function"] = getattr(dfun, damping)()
        full = dict(base)
        less = dict(base)
        p1, p2 = dict(param), dict(param)
        if what == "r4r2":
            full["r4r2"] = R4R2(dtype=F)[Z]
            del less["r4r2"]
        elif what == "rvdw":
            full["rvdw"] = VDW_PAIRWISE(dtype=F)[Z.unsqueeze(-1), Z.unsqueeze(-2)]
            del less["rvdw"]
        elif what == "cutoff":
            full["cutoff"] = Cutoff(torch.tensor(60.0, dtype=F), torch.tensor(40.0, dtype=F), torch.tensor(30.0, dtype=F), torch.tensor(25.0, dtype=F), dtype=F)
            del less["cutoff"]
        elif what == "disp3":
            full["cutoff"] = Cutoff(disp2=env["c2"], disp3=40.0, dtype=F)
            less["cutoff"] = Cutoff(disp2=env["c2"], dtype=F)
        elif what == "disp2":
            full["cutoff"] = Cutoff(disp2=60, disp3=env["c3"], dtype=F)
            less["cutoff"] = Cutoff(disp3=env["c3"], dtype=F)
        elif what == "damping_function":
            full["damping_function"] = dfun.RationalDamping()
            del less["damping_function"]
        elif what == "all":
            for k in list(less):
                del less[k]
            full = dict(r4r2=R4R2(dtype=F)[Z], rvdw=VDW_PAIRWISE(dtype=F)[Z.unsqueeze(-1), Z.unsqueeze(-2)],
                        cutoff=Cutoff(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0, dtype=F), q=env["q"])
            less["q"] = env["q"]
        elif what == "counting_function":
            full["counting_function"] = erf_count
        elif what in pn:
            p1[what] = torch.tensor(DEF[what], dtype=F)
            del p2[what]
        elif what == "parameters":
            req = [k for k in pn if k in ("a1", "a2", "rs6", "rs8", "s8")]
            p1 = {k: param[k] if k in req else torch.tensor(DEF[k], dtype=F) for k in pn}
            p2 = {k: param[k] for k in req}
        elif what == "parameters as numbers":
            p1 = {k: torch.tensor(DEF[k] * 1.25 + 0.5, dtype=F) for k in pn}
            p2 = {k: DEF[k] * 1.25 + 0.5 for k in pn}
        z = torch.zeros((), dtype=F)

        def go(kw, p):
            if api == "dftd4":
                return d4.dftd4(Z, env["pos"], z, p, model=StubModel(env["c6"]), cn_function=cnf, **kw)
            return DispD4(model=StubModel(env["c6"]), cn_fn=cnf, dtype=F).calculate(Z, env["pos"], z, p, **kw)

        return [(f"default {what}", go(less, p2), go(full, p1))]

    return Scenario(f"{api}[omitted {what},{damping},rank{rank},{dt}]", "tad_dftd4.disp.dftd4" if api == "dftd4" else "tad_dftd4.dispersion.d4.DispD4", inp, call,
                    [Out("energy", (*b, "n"), None)], derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


class StubModel4(StubModel):
    """A model of the D4 family (the default coordination number follows the class name)."""


def forwarding(rank, dt, case):
    """Coordination function, its arguments and the model reach the terms."""
    inp, pmap = inputs(rank, dt, PN["RationalDamping"], extra=("kw1",))
    b = BATCH[rank]
    inp.append(Inp("cn2", (*b, "n"), DT[dt], gen_u(0, 6), lo=0))

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.dispersion import DispD4
        from tad_mctc.ncoord import erf_count, exp_count
        F = DT[dt]
        param = {k: env[v] for k, v in pmap.items()}
        cut = Cutoff(disp2=env["c2"], disp3=env["c3"], dtype=F)
        kw = dict(cutoff=cut, q=env["q"], r4r2=env["r4r2"], rvdw=env["rvdw"])
        z = torch.zeros((), dtype=F)
        seen = []

        def cnf(numbers, positions, counting_function=None, **k):
            seen.append((numbers, positions, counting_function, sorted(k)))
            r = env["cn"]
            if counting_function is exp_count:
                r = r + 0.25
            for v in k.values():
                r = r + v
            return r

        fix = lambda c: (lambda numbers, positions, **k: c)
        M = lambda: StubModel(env["c6"])
        run = lambda c: d4.dftd4(env["Z"], env["pos"], z, param, model=M(), cn_function=fix(c), **kw)
        if case == "counting_function":
            a = d4.dftd4(env["Z"], env["pos"], z, param, model=M(), cn_function=cnf, counting_function=exp_count, **kw)
            if not seen or any(s[2] is not exp_count for s in seen):
                raise relate.Mismatch("counting-function", f"coordination function called with {[(s[2], s[3]) for s in seen]}")
            return [("counting-function", a, run(env["cn"] + 0.25))]
        if case == "cn_fn_kwargs":
            a = DispD4(model=M(), cn_fn=cnf, cn_fn_kwargs={"kcn": env["kw1"]}, dtype=F).calculate(env["Z"], env["pos"], z, param, **kw)
            return [("cn_fn_kwargs", a, run(env["cn"] + env["kw1"]))]
        if case == "default cn":
            with patched("tad_mctc.ncoord", "cn_d4", cnf):
                a = DispD4(model=StubModel4(env["c6"]), dtype=F).calculate(env["Z"], env["pos"], z, param, **kw)
            return [("default-coordination-function", a, run(env["cn"]))]
        raise KeyError(case)

    return Scenario(f"forwarding {case}[rank{rank},{dt}]", "tad_dftd4.dispersion.base.Disp.calculate", inp, call, [Out("energy", (*b, "n"), None)],
                    derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def model_settings(rank, dt, cls, what):
    """Model settings by keyword, through Disp(model_kwargs) and by default."""
    b = BATCH[rank]
    inp = minputs(rank, dt, ["Z", "cn", "q"])
    if what == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4 import model
        from tad_dftd4.data.wfpair import WFPAIR
        from tad_dftd4.dispersion import Disp
        F = DT[dt]
        Z = env["Z"]
        key = "d4" if cls == "D4Model" else "d4s"
        M = getattr(model, cls)
        W = lambda m: m.weight_references(env["cn"], env["q"])
        if what == "defaults":
            wf = 6.0 if cls == "D4Model" else WFPAIR(dtype=F)[Z.unsqueeze(-1), Z.unsqueeze(-2)]
            return [("model-defaults", W(M(Z, dtype=F)), W(M(Z, ga=3.0, gc=2.0, wf=wf, ref_charges="eeq", dtype=F))),
                    ("model-by-name", W(Disp(model=key, dtype=F).get_model(Z)), W(M(Z, dtype=F)))]
        kw = {"ga": dict(ga=2.5), "gc": dict(gc=1.5), "wf": dict(wf=4.0) if cls == "D4Model" else dict(wf=torch.full_like(env["cn"], 4.0).unsqueeze(-1) + torch.zeros_like(env["cn"]).unsqueeze(-2)), "gfn2": dict(ref_charges="gfn2"),
              "both": dict(ga=2.5, gc=1.5), "zero": dict(ga=0.0, gc=0.0) if cls == "D4SModel" else dict(ga=0.0, gc=0.0, wf=0.0)}[what]
        if what == "zero":  # zero is a setting, not an omission
            ts = {k: torch.tensor(v, dtype=F) for k, v in kw.items()}
            return [("zero-settings", W(M(Z, dtype=F, **kw)), W(M(Z, dtype=F, **ts))), ("zero-settings-kwargs", W(Disp(model=key, model_kwargs=kw, dtype=F).get_model(Z)), W(M(Z, dtype=F, **ts)))]
        want = W(M(Z, dtype=F, **kw))
        if what == "wf" and cls == "D4SModel":  # one number for all pairs
            return [("model-wf-number", W(M(Z, dtype=F, wf=4.0)), want)] + [
                (f"model-kwargs[{k}]-wf-number", W(Disp(model=k, model_kwargs={"wf": 4.0}, dtype=F).get_model(Z)), want) for k in (key, key.upper())]
        return [(f"model-kwargs[{k}]", W(Disp(model=k, model_kwargs=kw, dtype=F).get_model(Z)), want) for k in (key, key.upper())]

    return Scenario(f"{cls} settings {what}[rank{rank},{dt}]", f"tad_dftd4.model.{cls}.__init__", inp, call, [Out("w", (*b, "n", 7), None)],
                    dtype=dt, axioms={}, positions=(), dims={"n": (1, 3)})


def atm_alone(rank, dt, three, what):
    """The three-body term by itself: omitted parameters, own damping function."""
    inp, pmap = inputs(rank, dt, ["a1", "a2", "s9", "alp"] + (["rs9"] if three == "D3ATM" else []))
    b = BATCH[rank]
    if three == "D4ATMExact":
        inp.append(Inp("aiw", (*b, "n", 23), DT[dt], gen_u(0.1, 3), lo=0))

    def call(env):
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.damping import ZeroDamping
        from tad_dftd4.dispersion import Disp, d3 as D3, d4 as D4
        F = DT[dt]
        T3 = getattr(D4, three, None) or getattr(D3, three)
        param = {k: env[v] for k, v in pmap.items()}
        cut = Cutoff(disp2=env["c2"], disp3=env["c3"], dtype=F)
        z = torch.zeros((), dtype=F)

        class Half(ZeroDamping):
            """A user's damping function."""

            def __call__(self, *a, **k):
                return 0.5 * super().__call__(*a, **k)

        def go(p, damp=ZeroDamping):
            d = Disp(model=StubModel(env["c6"], env.get("aiw")), cn_fn=lambda numbers, positions, **k: env["cn"], dtype=F)
            d.register(T3(damping_fn=damp(), charge_dependent=False))
            return d.calculate(env["Z"], env["pos"], z, p, cutoff=cut, r4r2=env["r4r2"], rvdw=env["rvdw"])

        if what == "custom damping":
            e, h = go(param), go(param, Half)
            return [("own-damping-function", h, 0.5 * e)]
        t = lambda k: torch.tensor(DEF[k], dtype=F)
        out = []
        # parameters of other terms, which this one must not touch
        more = {k: torch.tensor(v, dtype=F) for k, v in dict(s6=0.7, s8=1.7, s10=0.3, rs6=1.21, rs8=0.83, bet=0.4).items()}
        out.append(("parameters of other terms", go({**more, **param}), go(param)))
        for om in ("s9", "alp", "rs9") if three == "D3ATM" else ("s9", "alp", "a1", "a2"):
            out.append((f"omitted {om}", go({k: v for k, v in (more | param).items() if k != om}), go({**param, om: t(om)})))
        names = [k for k in param]
        out.append(("omitted all", go({}), go({k: t(k) for k in names})))
        return out

    return Scenario(f"three-body term {what}[{three},rank{rank},{dt}]", "tad_dftd4.dispersion.threebody", inp, call, [Out("energy", (*b, "n"), None)],
                    derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def cutoffs(rep):
    """Cutoff: every field independent, numbers and tensors, both precisions."""
    from tad_dftd4.cutoff import Cutoff
    rep.functions.add("tad_dftd4.cutoff.Cutoff.__init__")
    names = ("disp2", "disp3", "cn", "cn_eeq")
    dv = dict(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0)
    bad = None
    for dt in (torch.float32, torch.float64):
        for mask in range(16):
            for mode in ("int", "float", "tensor"):
                kw = {}
                for k, nm in enumerate(names):
                    if mask >> k & 1:
                        v = 7 + 3 * k
                        kw[nm] = v if mode == "int" else (v + 0.3 if mode == "float" else torch.tensor(v + 0.7, dtype=dt))
                for pos in (False, True):
                    if pos and mask != 15:
                        continue
                    rep.concrete += 1
                    try:
                        c = Cutoff(*[kw[n] for n in names], dtype=dt) if pos else Cutoff(**kw, dtype=dt)
                    except Exception as e:
                        bad = f"Cutoff({kw}): {type(e).__name__}: {e}"
                        continue
                    for nm in names:
                        v = getattr(c, nm)
                        w = torch.as_tensor(kw.get(nm, dv[nm]), dtype=dt)
                        if not isinstance(v, torch.Tensor) or v.dtype != dt or v.shape != () or not torch.equal(v, w):
                            bad = f"Cutoff({kw}, dtype={dt}).{nm} = {v!r} instead of {w!r}"
    if bad:
        rep.fail_input("Cutoff", bad, {"observed": bad})
    else:
        rep.ok("Cutoff: every subset of fields, as int, float and tensor")


def cn_cutoff(rep):
    """Cutoff.cn (coordination number cutoff)."""
    import tad_dftd4 as d4
    f = torch.float64
    Z = torch.tensor([6, 1, 8])
    X = torch.tensor([[0.0, 0, 0], [2, 0, 0], [0, 2.4, 0]], dtype=f)
    p = whole.param(f)
    a = d4.dftd4(Z, X, 0.0, p, cutoff=d4.cutoff.Cutoff(cn=1.0, dtype=f))
    b = d4.dftd4(Z, X, 0.0, p, cutoff=d4.cutoff.Cutoff(dtype=f))
    rep.concrete += 1
    if torch.equal(a, b):
        rep.fail_input("Cutoff.cn", "the coordination number cutoff has no effect: cn=1.0 and cn=30.0 give the same energy for atoms 2.0 Bohr apart",
                       {"numbers": [6, 1, 8], "positions": X.tolist(), "cutoff": {"cn": 1.0}})


def settings_whole(rep, rng):
    """Random subsets of explicit defaults with the real model and dependencies."""
    import tad_dftd4 as d4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.damping import RationalDamping
    from tad_dftd4.data import R4R2, VDW_PAIRWISE
    from tad_dftd4.dispersion import Disp, DispD4
    from tad_mctc.ncoord import cn_d4, erf_count, exp_count
    from tad_multicharge import get_eeq_charges
    f = torch.float64 if rng.integers(3) else torch.float32
    z, x = whole.molecule(rng)
    Z, X = torch.as_tensor(z), torch.as_tensor(x, dtype=f)
    p = whole.param(f)
    ch = torch.tensor(float(rng.integers(-1, 2)), dtype=f)
    opts = dict(model=["d4", "D4", d4.model.D4Model(Z, dtype=f), d4.model.D4Model(Z, ga=3.0, gc=2.0, wf=6.0, ref_charges="eeq", dtype=f)][int(rng.integers(4))],
                r4r2=R4R2(dtype=f)[Z], rvdw=VDW_PAIRWISE(dtype=f)[Z.unsqueeze(-1), Z.unsqueeze(-2)], q=get_eeq_charges(Z, X, ch, cutoff=torch.tensor(25.0, dtype=f)),
                cutoff=Cutoff(60.0, 40.0, 30.0, 25.0, dtype=f), cn_function=cn_d4, counting_function=erf_count, damping_function=RationalDamping())
    use = {k: v for k, v in opts.items() if rng.integers(2)}
    rt, at = (1e-9, 1e-12) if f == torch.float64 else (2e-4, 1e-6)
    a = d4.dftd4(Z, X, ch, p, **use).double().numpy()
    b = d4.dftd4(Z, X, ch, p).double().numpy()
    r = relate.cmp(a, b, rt, at)
    if r:
        return f"explicit defaults {sorted(use)}: {r}", (z, x)
    c = DispD4(dtype=f).calculate(Z, X, ch, p, **{k: v for k, v in use.items() if k in ("r4r2", "rvdw", "q", "cutoff")}).double().numpy()
    r = relate.cmp(c, b, rt, at)
    if r:
        return f"class interface with explicit defaults {sorted(use)}: {r}", (z, x)
    # model settings by name and by instance
    kw = dict(ga=float(rng.uniform(1, 4)), gc=float(rng.uniform(1, 3)), ref_charges=("eeq", "gfn2")[int(rng.integers(2))] if max(z) <= 86 else "eeq")
    for nm, M in (("d4", d4.model.D4Model), ("d4s", d4.model.D4SModel)):
        a = DispD4(model=nm, model_kwargs=kw, dtype=f).calculate(Z, X, ch, p).double().numpy()
        b = d4.dftd4(Z, X, ch, p, model=M(Z, **kw, dtype=f)).double().numpy()
        r = relate.cmp(a, b, rt, at)
        if r:
            return f"{nm} with {kw}: {r} (model instance)", (z, x)
    # property interface: charge and EEQ cutoff, explicit or omitted
    ce = torch.tensor(float(rng.choice([3.0, 6.0, 25.0])), dtype=f)
    for kw, c_, e_ in (({}, ch * 0, 25.0), ({"charge": ch}, ch, 25.0), ({"charge": ch.item()}, ch, 25.0), ({"cutoff": Cutoff(cn_eeq=ce, dtype=f)}, ch * 0, ce),
                       ({"charge": ch, "cutoff": Cutoff(1.0, 2.0, 3.5, ce, dtype=f)}, ch, ce)):
        got = d4.get_properties(Z, X, **kw)
        m = d4.model.D4Model(Z, dtype=f)
        cn, q = cn_d4(Z, X), get_eeq_charges(Z, X, c_, cutoff=torch.as_tensor(e_, dtype=f))
        w = m.weight_references(cn, q)
        for nm, u, v in zip(("coordination numbers", "charges", "C6", "polarizabilities"), got, (cn, q, m.get_atomic_c6(w), m.get_polarizabilities(w))):
            r = relate.cmp(u.double().numpy(), v.double().numpy(), rt, at)
            if r:
                return f"get_properties with {sorted(kw)} {nm}: {r}", (z, x)
    # coordination function and its arguments
    cnf = lambda Z, X, **k: cn_d4(Z, X, **k) * 0.9
    a = d4.dftd4(Z, X, ch, p, cn_function=cnf, counting_function=exp_count).double().numpy()
    b = d4.dftd4(Z, X, ch, p, cn_function=lambda Z, X, **k: cn_d4(Z, X, exp_count) * 0.9).double().numpy()
    r = relate.cmp(a, b, rt, at)
    if r:
        return f"coordination and counting function: {r}", (z, x)
    return None, None


def run(rep):
    rep.assume("documented defaults: two-body cutoff 60, three-body 40, EEQ 25 Bohr; s6=s9=1, alp=16, no eighth-order term without s8 or rs8 (a1, a2, rs6, rs8, bet are required by the damping functions that use them); rational damping; D4 model; cn_d4 with erf counting; EEQ charges (see C13)")
    scns = []
    for dmp in PN:
        scns.append(lambda dmp=dmp: full(1, "f64", dmp))
    for three in ("D4ATMApprox", "D4ATMExact", "D3ATM"):
        scns.append(lambda three=three: full(0, "f64", "RationalDamping", three, "calculate"))
    scns += [lambda: full(2, "f64", "RationalDamping"), lambda: full(0, "f64", "RationalDamping"), lambda: full(1, "f32", "RationalDamping"),
             lambda: full(1, "f64", "ZeroDamping", "D3ATM", "calculate")]
    drive(rep, scns, count=5, thorough=40)
    for rank, dt in ((0, "f64"), (1, "f64"), (1, "f32")):
        for what in ("r4r2", "rvdw", "cutoff", "disp2", "disp3", "damping_function", "all", "counting_function", "s6", "s8", "s9", "alp", "parameters", "parameters as numbers"):
            relate.equal_runs(rep, defaults(rank, dt, what), count=3)
    for what in ("r4r2", "rvdw", "cutoff", "all", "parameters"):
        relate.equal_runs(rep, defaults(1, "f64", what, api="DispD4"), count=3)
    for what in ("rvdw", "alp", "s6", "parameters"):
        relate.equal_runs(rep, defaults(0, "f64", what, damping="ZeroDamping"), count=3)
    for rank, dt in ((0, "f64"), (1, "f64"), (1, "f32")):
        for case in ("counting_function", "cn_fn_kwargs", "default cn"):
            relate.equal_runs(rep, forwarding(rank, dt, case), count=3)
    for cls in ("D4Model", "D4SModel"):
        for what in ("defaults", "ga", "gc", "wf", "gfn2", "both", "zero"):
            relate.equal_runs(rep, model_settings(1, "f64", cls, what), count=3)
        relate.equal_runs(rep, model_settings(0, "f32", cls, "defaults"), count=3)
    from . import c13
    for rank, dt in ((0, "f64"), (1, "f64")):
        relate.equal_runs(rep, c13.mk(rank, dt, "EEQ cutoff", c13.eeq_used), count=3)
        relate.equal_runs(rep, c13.mk(rank, dt, "default EEQ cutoff", c13.eeq_default_cut), count=3)
    for rank, dt, three in ((0, "f64", "D4ATMApprox"), (1, "f64", "D3ATM"), (1, "f64", "D4ATMExact"), (1, "f32", "D4ATMApprox")):
        for what in ("alone", "custom damping"):
            relate.equal_runs(rep, atm_alone(rank, dt, three, what), count=4)
    for rank, dt in ((0, "f64"), (1, "f32")):  # the property interface's charge and cutoff
        for ch in (True, False):
            for cu in (True, False):
                relate.equal_runs(rep, c13.properties(rank, dt, ch, cu), count=3)
    cutoffs(rep)
    cn_cutoff(rep)
    whole.run(rep, settings_whole, 12, "whole program: settings")
