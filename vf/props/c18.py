"""C18 precision of results and intermediates."""
import contextlib
import itertools

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .. import e2e, precision, relate, whole
from ..mspecs import *
from ..scen import Out, Scenario, run_concrete
from . import c01, c02, c03, c08, c09, c10, c13, c16, c17, c22

F32, F64 = torch.float32, torch.float64


def scenarios(tier):
    ranks = (0, 1) if tier == "quick" else (0, 1, 2)
    for r, dt in itertools.product(ranks, ("f64", "f32")):
        for mk in e2e.makers():
            yield (lambda mk=mk, r=r, dt=dt: mk(r, dt)), ()
        for d in c22.PN:
            yield (lambda r=r, dt=dt, d=d: c22.full(r, dt, d)), ()
        for t in ("D4ATMExact", "D3ATM"):
            yield (lambda r=r, dt=dt, t=t: c22.full(r, dt, "RationalDamping", t, "Disp")), ()
        for api in ("dftd4", "Disp"):
            yield (lambda r=r, dt=dt, api=api: c17.with_eeq(r, dt, api)), ()
        yield (lambda r=r, dt=dt: c17.props(r, dt)), ("c6", "alpha")
        for cls, a, b in (("D4Model", 0, 0), ("D4Model", 1, 1), ("D4SModel", 0, 0), ("D4SModel", 0, 1)):
            yield (lambda cls=cls, r=r, dt=dt, a=a, b=b: c16.scen16(cls, r, dt, a, b)), ("w", "dcn", "dq", "weights", "dgwdcn", "dgwdq")
        for ch in ("eeq", "gfn2"):
            yield (lambda r=r, dt=dt, ch=ch: c08.d4_weights(r, dt, ch)), ("w", "weights", "gw")
            yield (lambda r=r, dt=dt, ch=ch: c10.weights(r, dt, ch)), ("w", "weights", "gw")


# ------------------------------------------------------------------ concrete --

class Rounding(TorchDispatchMode):
    """Records conversions to a lower precision that change a value."""

    def __init__(self):
        super().__init__()
        self.found = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        try:
            src = None
            if func.overloadpacket in (torch.ops.aten._to_copy, torch.ops.aten.to):
                src, dst = args[0], out
            elif func.overloadpacket is torch.ops.aten.copy_:
                src, dst = args[1], out
            if (src is not None and src.dtype == F64 and dst.dtype in (F32, torch.float16, torch.bfloat16)
                    and self.found is None and src.numel()):
                a, b = torch.broadcast_tensors(src.detach(), dst.detach().double())
                bad = ~((a == b) | (a.isnan() & b.isnan()))
                if bool(bad.any()):
                    self.found = (float(a[bad].reshape(-1)[0]), float(b[bad].reshape(-1)[0]))
        except RuntimeError:
            pass
        return out


@contextlib.contextmanager
def default(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


APIS = ("dftd4", "d4s", "exact", "mixed", "properties", "twobody", "atm", "model", "refc6", "cutoff")


def case(rng):
    """A calculation f(dtype) -> dict of tensors on random data."""
    if rng.random() < 0.5:
        z, x = whole.molecule(rng)
        Z, x = np.asarray(z), np.asarray(x)
    else:
        Z, x, _ = whole.pad_batch([whole.molecule(rng) for _ in range(2)], rng)
    s = np.asarray
    x = s(x)
    n = Z.shape[-1]
    api = str(rng.choice(APIS))
    dn = str(rng.choice(list(c17.DAMPS)))
    kind = str(rng.choice(["tensor", "python"]))
    q = s(rng.uniform(-0.4, 0.4, size=Z.shape))
    ch = s(rng.uniform(-1, 1, size=Z.shape[:-1]))
    giveq, givec = bool(rng.random() < 0.5), bool(rng.random() < 0.4)
    cuts = [float(rng.uniform(20, 70)) for _ in range(4)]
    c6 = s(rng.uniform(5, 100, size=(*Z.shape, n)))
    c6 = s((c6 + c6.swapaxes(-1, -2)) / 2)
    cls = str(rng.choice(["D4Model", "D4SModel"]))
    ref = str(rng.choice(["eeq", "gfn2"]))
    cn = s(rng.uniform(0, 6, size=Z.shape))
    asm = bool(rng.random() < 0.3)
    drop = bool(rng.random() < 0.6)
    own = bool(rng.random() < 0.4)
    vals = {**whole.PARAM, **c17.DAMPS[dn]}
    if rng.random() < 0.4:
        for k in rng.permutation(["s6", "s9", "alp"])[:int(rng.integers(1, 3))]:
            vals.pop(str(k), None)
    if rng.random() < 0.3 and dn == "RationalDamping":
        vals["s10"] = 0.3
    info = {"Z": Z.tolist(), "positions": x.tolist(), "api": api, "damping": dn, "param": vals, "parameters as": kind, "model": cls, "without three-body parameters": drop,
            "ref_charges": ref, "cn": cn.tolist(), "q": q.tolist() if giveq else None, "charge": ch.tolist(), "cutoff": cuts if givec else None}

    def fn(f):
        import tad_dftd4 as d4
        from tad_dftd4 import model
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.damping import functions as dfun
        from tad_dftd4.dispersion import Disp
        from tad_dftd4.dispersion.d3 import D3ATM
        from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
        from tad_dftd4.dispersion.threebody import get_atm_dispersion
        from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
        t = lambda a: torch.tensor(a, dtype=f)
        N = torch.tensor(Z)
        p = {k: (t(v) if kind == "tensor" else v) for k, v in vals.items()}
        kw = {"q": t(q)} if giveq else {}
        if givec:
            kw["cutoff"] = Cutoff(*cuts, dtype=f)
        if api in ("dftd4", "d4s"):
            return {"energy": d4.dftd4(N, t(x), t(ch), p, model="d4s" if api == "d4s" else "d4", damping_function=getattr(dfun, dn)(), **kw)}
        if api == "exact":
            return {"energy": DispD4Exact(dtype=f).calculate(N, t(x), t(ch), p, **kw)}
        if api == "mixed":
            if drop:
                p = {k: v for k, v in p.items() if k not in ("a1", "a2", "rs9", "s9", "alp")}
            d = Disp(model="d4", dtype=f)
            d.register(D4ATMApprox(damping_fn=dfun.ZeroDamping(), charge_dependent=False))
            d.register(D3ATM(damping_fn=dfun.ZeroDamping(), charge_dependent=True))
            d.register(D4ATMExact(damping_fn=dfun.ZeroDamping(), charge_dependent=True))
            return {"energy": d.calculate(N, t(x), t(ch), p, **kw)}
        if api == "properties":
            kw.pop("q", None)
            return dict(zip(("cn", "q", "c6", "alpha"), d4.get_properties(N, t(x), t(ch), **kw)))
        if api == "cutoff":
            c = Cutoff(*cuts, dtype=f) if givec else Cutoff(dtype=f)
            r = {k: getattr(c, k) for k in ("disp2", "disp3", "cn", "cn_eeq")}
            if givec and f == F64:
                for (k, v), w in zip(r.items(), cuts):
                    if v.dtype == F64 and float(v) != w:
                        raise relate.Mismatch("cutoff", f"Cutoff({k}={w!r}) in double precision holds {float(v)!r}")
            return r
        if api == "twobody":
            from tad_dftd4.data import R4R2
            from tad_mctc.data import VDW_PAIRWISE
            kw = {"cutoff": t(cuts[0])} if givec else {}
            return {"energy": dispersion2(N, t(x), p, t(c6), R4R2(dtype=f)[N], damping_function=getattr(dfun, dn)(),
                                          rvdw=VDW_PAIRWISE(dtype=f)[N.unsqueeze(-1), N.unsqueeze(-2)], as_matrix=asm, **kw)}
        if api == "atm":
            from tad_mctc.data import VDW_PAIRWISE
            a = {k: p[k] for k in ("s9", "alp") if k in p}
            return {"energy": get_atm_dispersion(N, t(x), t(c6).unsqueeze(-1).expand(*c6.shape, n), VDW_PAIRWISE(dtype=f)[N.unsqueeze(-1), N.unsqueeze(-2)], t(cuts[1]), **a)}
        k3 = {}
        if own:
            k3 = {"ga": 2.7, "gc": 1.9, "wf": 5.3 if kind == "python" else t(5.3)} if cls == "D4Model" else {"ga": 2.7, "gc": 1.9}
        m = getattr(model, cls)(N, dtype=f, ref_charges=ref, **k3)
        if own and cls == "D4Model" and f == F64 and float(m.wf) != 5.3:
            raise relate.Mismatch("wf", f"D4Model(wf=5.3) in double precision holds {float(m.wf)!r}")
        if api == "refc6":
            return {"rc6": m.rc6, "wf": torch.as_tensor(m.wf)}
        w, dq = m.weight_references(t(cn), t(q) if giveq else None, with_dgwdq=True)
        r = {"weights": w, "dgwdq": dq, "c6": m.get_atomic_c6(w)}
        if cls == "D4Model":
            r["dgwdcn"] = m.weight_references(t(cn), t(q) if giveq else None, with_dgwdcn=True)[1]
            r["alpha"] = m.get_polarizabilities(w)
            r["aiw"] = m.get_weighted_pols(w)
        return r

    return fn, info


def whole_dtype(rep, rng):
    fn, info = case(rng)
    api = info["api"]
    with default(F32), Rounding() as mode:
        try:
            a = fn(F64)
        except relate.Mismatch as e:
            return f"{api}: {e}", info
    if mode.found:
        return f"{api}: double-precision calculation rounds {mode.found[0]!r} to {mode.found[1]!r}", info
    with default(F64):
        b = fn(F64)
        c = fn(F32)
    with default(F32):
        d = fn(F32)
    for k in a:
        for lab, r, f in (("double", a[k], F64), ("double (default dtype double)", b[k], F64), ("single", d[k], F32), ("single (default dtype double)", c[k], F32)):
            if r.dtype != f:
                return f"{api} {k}: {lab} precision input gives {r.dtype}", info
        sc = float(b[k].abs().max()) if b[k].numel() else 0.0
        for lab, u, v, rt, at in (("double precision", a[k], b[k], 1e-12, 1e-14), ("single precision", c[k].double(), d[k].double(), 2e-4, 2e-5)):
            e = (u - v).abs()
            if bool((e > rt * v.abs() + at * sc + 1e-30).any()):
                return f"{api} {k}: {lab} result depends on torch's default dtype: {u.reshape(-1)[int(e.argmax())]!r} against {v.reshape(-1)[int(e.argmax())]!r}", info
        e = (d[k].double() - b[k]).abs()
        fl = 1e-9 if k == "energy" else 1e-5
        if bool((e > 2e-3 * b[k].abs() + 2e-3 * sc + fl).any()) or bool(torch.isnan(d[k]).any()):
            return f"{api} {k}: single precision gives {float(d[k].reshape(-1)[int(e.argmax())])!r}, double {float(b[k].reshape(-1)[int(e.argmax())])!r}", info
    return None, info


def gaussians(rep, rng):
    """Weights in single precision against double precision where the
    Gaussians are far below the single-precision range."""
    from tad_dftd4 import model
    from tad_dftd4.reference import d4 as ref
    n = int(rng.integers(1, 5))
    Z = torch.tensor(rng.integers(1, 87, size=n))
    mx = ref.refcovcn[Z].max(-1)[0].double().numpy()
    u = rng.random()
    wf = 6.0
    if u < 0.3:
        cn = mx + np.sqrt(rng.uniform(60, 690, size=n) / 6.0)
    elif u < 0.6:
        cn = -np.sqrt(rng.uniform(30, 690, size=n) / 6.0)
    else:
        wf = float(rng.choice([6.0, 24.0, 64.0, 128.0, 256.0]))
        cn = rng.uniform(0, mx + 1.5)
    cn = torch.tensor(cn.astype(np.float32))
    q = torch.tensor(rng.uniform(-0.3, 0.3, size=n).astype(np.float32))
    cls = str(rng.choice(["D4Model", "D4SModel"]))
    chs = str(rng.choice(["eeq", "gfn2"]))
    info = {"Z": Z.tolist(), "cn": cn.tolist(), "q": q.tolist(), "class": cls, "ref_charges": chs, "wf": wf}
    kw = lambda f: {"wf": torch.full((n, n) if cls == "D4SModel" else (), wf, dtype=f)} if wf != 6.0 else {}
    a = getattr(model, cls)(Z, dtype=F32, ref_charges=chs, **kw(F32)).weight_references(cn, q)
    if a.dtype != F32:
        return f"{cls} weights have {a.dtype}", info
    b = getattr(model, cls)(Z, dtype=F64, ref_charges=chs, **kw(F64)).weight_references(cn.double(), q.double())
    e = (a.double() - b).abs()
    # the pair widths of D4S are tabulated numbers rounded to single precision
    tol = 2e-4 if cls == "D4Model" else 5e-3
    if bool((e > tol * (1 + b.abs())).any()) or bool(torch.isnan(a).any()):
        i = int(e.argmax())
        return f"{cls}: weight in single precision {float(a.reshape(-1)[i])!r}, in double precision {float(b.reshape(-1)[i])!r}", info
    # without charge scaling only the final conversion rounds
    m = getattr(model, cls)(Z, dtype=F32, ref_charges=chs, ga=0.0, **kw(F32))
    a = m.weight_references(cn).double()
    b = getattr(model, cls)(Z, dtype=F64, ref_charges=chs, ga=0.0, wf=m.wf.double()).weight_references(cn.double())
    e = torch.where(b.abs() > 1e-30, (a - b).abs() / b.abs().clamp(min=1e-30), torch.zeros_like(b))
    if bool((e > 1e-6).any()):
        i = int(e.argmax())
        return (f"{cls}: Gaussian weight in single precision {float(a.reshape(-1)[i])!r} instead of {float(b.reshape(-1)[i])!r}: "
                "more than the rounding of the result"), info
    return None, info


def tight(rep):
    """The f64 contracts at a tolerance that excludes single-precision rounding."""
    scns = [c01.scenario("RationalDamping", 1, "f64", c01.R1, True, False), c02.direct(1, "f64", "t", "t"), c09.refc6(0, "f64", "eeq", False, "D4Model"),
            c09.refc6(0, "f64", "gfn2", False, "D4Model")]
    for ch in ("eeq", "gfn2"):
        scns += [c08.d4_weights(1, "f64", ch), c10.weights(0, "f64", ch)]
    for cls in ("D4ATMApprox", "D3ATM"):
        scns.append(c02.term(cls, 0, "f64", True, True, []))
        scns.append(c02.term(cls, 0, "f64", True, True, ["s9", "alp", "rs9"] if cls == "D3ATM" else ["s9", "alp", "a1", "a2"]))
    for rank in (0, 1):
        scns.append(c02.trapz_atm(rank, "f64"))
        for fn in ("trapzd", "trapzd_noref"):
            scns.append(c09.trapz(fn, rank, "f64", bool(rank)))
        for cls in ("D4ATMExact", "D3ATM", "D4ATMApprox"):
            scns.append(c02.term(cls, rank, "f64", True, True, ["s9"]))
        scns += [c10.wpols(rank, "f64"), c09.pols(rank, "f64", "gfn2", "get_weighted_pols"), c09.pols(rank, "f64", "eeq", "get_polarizabilities"),
                 c09.alpha(rank, "f64", "eeq", True), c09.refc6(rank, "f64", "eeq", True, "D4SModel")]
    for s in c03.scenarios("quick"):
        s = s() if callable(s) and not isinstance(s, Scenario) else s
        if s.dtype == "f64" and s.outs:
            scns.append(s)
    for s in scns:
        s.rtol = 1e-10
        s.symenv()
        run_concrete(rep, s, 4 if rep.tier == "quick" else 30, tag="tight")


def run(rep):
    rep.assume("calculators, models and per-call inputs share one dtype (mixed dtypes are rejected by torch)",
               "torch's type promotion as modelled in vf/sym.py (compared with real runs)", "precision of the dependencies (sampled)")
    whole.run(rep, whole_dtype, 200, "precision")
    whole.run(rep, gaussians, 150, "gaussians")
    tight(rep)
    if rep.enough():
        return
    bad = []
    for s, w in scenarios(rep.tier):
        if rep.left() < 40:
            rep.notes.append("time limit: remaining scenarios skipped")
            break
        bad += precision.check(rep, s(), w)
    if bad and not rep.violations:
        whole.run(rep, whole_dtype, 300, "precision(search)")
        whole.run(rep, gaussians, 300, "gaussians(search)")
