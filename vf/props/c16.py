"""C16 analytical derivatives of the weights."""
import torch

from .. import whole
from ..deriv import diff
from ..mspecs import *
from ..scen import Out, Scenario, drive
from .c10 import gen_sym, pairwf


def smooth(arrays, sizes):
    """Concrete inputs at which floating point resolves the derivative."""
    Z = arrays["Z"]
    zeff = tables().t["zeff"].double().numpy()[Z]
    q = arrays.get("q")
    if q is not None and (np.abs(q + zeff) < 0.05).any():
        return False
    cn = arrays.get("cn")
    if cn is not None:
        ref = tables().t["refcn"].double().numpy()[Z]
        cnt = tables().t["refc"].numpy()[Z]
        d = np.where(cnt > 0, np.abs(cn[..., None] - ref), np.inf).min(-1)
        d = np.where(np.isfinite(d), d, 0)
        wf = arrays.get("wf", 6.0)
        wf = np.max(wf) if np.size(wf) else 6.0
        wf = max(float(wf), 9.0)
        if ((wf * d * d > 600) & (2.0 * d * d < 780)).any():
            return False
        for w in ["table", 6.0] + [k for k in ("wf", "wfm") if k in arrays]:
            if not no_denormals(w)(arrays, sizes):
                return False
    return True


def scen16(cls, rank, dt, dcn, dq, charges="eeq", sym_ga=True, wf=None, cn=True, q=True):
    names = ["Z"] + (["cn"] if cn else []) + (["q"] if q else [])
    if sym_ga:
        names += ["ga", "gc"]
    if wf == "t":
        names.append("wf")
    b = BATCH[rank]
    inp = minputs(rank, dt, names)
    if wf == "matrix":
        inp.append(Inp("wfm", (*b, "n", "n"), DT[dt], gen_sym(2, 8), lo=Q(1, 10), symm=(-2, -1)))
    if charges == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)

    def call(env):
        from tad_dftd4 import model
        kw = {}
        if sym_ga:
            kw.update(ga=env["ga"], gc=env["gc"])
        if wf == "t":
            kw["wf"] = env["wf"]
        elif wf == "matrix":
            kw["wf"] = env["wfm"]
        if charges != "eeq":
            kw["ref_charges"] = charges
        m = getattr(model, cls)(env["Z"], dtype=DT[dt], rc6=torch.zeros(1), **kw)
        fl = {}
        if dcn:
            fl["with_dgwdcn"] = True
        if dq:
            fl["with_dgwdq"] = True
        r = m.weight_references(env.get("cn"), env.get("q"), **fl)
        if isinstance(r, torch.Tensor) or len(r) != 1 + dcn + dq:
            raise AssertionError(f"expected a tuple of {1 + dcn + dq} tensors")
        return r

    def spec(what):
        def f(*ix):
            if cls == "D4Model":
                *bb, i, a = ix
                j = None
                w = (lambda b_, x, y: sc("wf")) if wf == "t" else None
            else:
                *bb, j, i, a = ix
                w = pairwf(wf or "table", dt)
            m = ModelSpec(dt, charges, ga=sc("ga") if sym_ga else None, gc=sc("gc") if sym_ga else None, wf=w,
                          cn="cn" if cn else None, q="q" if q else None)
            W = m.W(bb, i, j, a)
            if what == "w":
                return W
            if what == "cn":
                return neg(diff(W, "cn", (*bb, i)))
            return diff(W, "q", (*bb, i))
        return f

    def underflow(*ix):
        """The norm is a sum of non-negative terms: if it vanishes, so does each (lemma below)."""
        *bb, i, a = ix
        w = (lambda b_, x, y: sc("wf")) if wf == "t" else None
        m = ModelSpec(dt, charges, wf=w, cn="cn")
        d = minus(m.CN(bb, i), m.refcn(bb, i, a))
        c = m.count(bb, i, a)
        g = lambda k: exp(neg(prod(k, m.wf(bb, i, None), mul(d, d))))
        return [bor(bnot(eq(m.norm(bb, i, None), R(0))), bnot(lt(I(0), c)), eq(g(1), R(0)))] + [
            bor(bnot(eq(m.norm(bb, i, None), R(0))), bnot(eq(c, I(3))), eq(g(k), R(0))) for k in (2, 3)]

    dims = (*b, "n", 7) if cls == "D4Model" else (*b, "n", "n", 7)
    outs = [Out("weights", dims, spec("w"))]
    if dcn:
        outs.append(Out("d/dcn", dims, spec("cn") if cn else None, facts=underflow))
    if dq:
        outs.append(Out("d/dq", dims, spec("q") if q else None))
    nm = f"{cls}.weight_references[dcn={dcn},dq={dq},rank{rank},{dt},{charges},ga/gc={'any' if sym_ga else 'default'},wf={wf},cn={cn},q={q}]"
    raises = [(TRUE, NotImplementedError)] if cls == "D4SModel" and dcn else []
    return Scenario(nm, f"tad_dftd4.model.{cls}.weight_references", inp, call, outs, raises=raises, dtype=dt, axioms={}, positions=(),
                    rtol=1e-6 if dt == "f64" else 5e-3, conc_ok=smooth, atol=1e-12 if dt == "f64" else 1e-7)


def scenarios(tier):
    for rank, dt in ((0, "f64"), (1, "f64"), (0, "f32"), (1, "f32")):
        for dcn, dq in ((1, 0), (0, 1), (1, 1)):
            yield scen16("D4Model", rank, dt, dcn, dq)
        yield scen16("D4SModel", rank, dt, 0, 1)
    yield scen16("D4Model", 2, "f64", 1, 1)
    yield scen16("D4Model", 1, "f64", 1, 1, "gfn2")
    yield scen16("D4Model", 0, "f64", 1, 1, wf="t")
    yield scen16("D4Model", 0, "f64", 1, 1, sym_ga=False)
    yield scen16("D4Model", 0, "f64", 1, 1, q=False)
    yield scen16("D4Model", 0, "f64", 0, 1, cn=False)
    yield scen16("D4SModel", 2, "f64", 0, 1, "gfn2", wf="matrix")
    yield scen16("D4SModel", 1, "f64", 0, 1, sym_ga=False)
    yield scen16("D4SModel", 1, "f64", 1, 0)
    yield scen16("D4SModel", 1, "f64", 1, 1)


def autograd(rep, rng):
    """The returned derivatives against reverse mode through the real code."""
    from tad_dftd4 import model

    n = int(rng.integers(1, 6))
    ch = str(rng.choice(["eeq", "gfn2"]))
    shape = (n,) if rng.random() < 0.5 else (2, n)
    Z = torch.tensor(rng.integers(1, 87 if ch == "gfn2" else 104, size=shape))
    if shape != (n,) and n > 1:
        Z[1, -1] = 0
    cls = str(rng.choice(["D4Model", "D4SModel"]))
    cn = torch.tensor(rng.uniform(0, 7, size=shape), requires_grad=True)
    q = torch.tensor(rng.uniform(-0.8, 1.5, size=shape), requires_grad=True)
    m = getattr(model, cls)(Z, ref_charges=ch, dtype=torch.float64, rc6=torch.zeros(1))
    info = {"cls": cls, "charges": ch, "Z": Z.tolist(), "cn": cn.tolist(), "q": q.tolist()}
    arr = {"Z": Z.numpy(), "q": q.detach().numpy(), "cn": cn.detach().numpy()}
    if not smooth(arr, {}):
        return None, info
    w0 = m.weight_references(cn, q)
    out = m.weight_references(cn, q, with_dgwdq=True, **({"with_dgwdcn": True} if cls == "D4Model" else {}))
    if not torch.equal(out[0], w0):
        return "weights change when derivatives are requested", info
    v = torch.tensor(rng.uniform(0.5, 1.5, size=w0.shape[:-2] + (w0.shape[-2], 7)) if cls == "D4Model" else rng.uniform(0.5, 1.5, size=w0.shape))
    gcn, gq = torch.autograd.grad((w0 * v).sum(), [cn, q])
    red = (lambda t: (t * v).sum(-1)) if cls == "D4Model" else (lambda t: (t * v).sum(-1).sum(-2))
    got = [("charge derivative", red(out[-1]), gq)]
    if cls == "D4Model":
        got.append(("coordination-number derivative", -red(out[1]), gcn))
    for nm, g, want in got:
        e = (g - want).abs().max().item()
        if not e <= 1e-7 * (1 + want.abs().max().item()):
            return f"{nm} differs from the derivative of the weights by {e:.3e}", info
    return None, info


def run(rep):
    rep.assume("derivatives are compared where the weights are smooth: conditions (effective charge zero, underflow of the norm) "
               "are locally constant", "machine arithmetic treated as real: the eps shift in _dzeta's denominator is below resolution")
    from ..scen import lemma

    for k in range(NREF):
        declare(f"nn{k}", sort="R", lo=0)
    tot = plus(*[sc(f"nn{k}") for k in range(NREF)])
    for k in range(NREF):
        lemma(rep, f"vanishing-norm-term{k}", bor(bnot(eq(tot, R(0))), eq(sc(f"nn{k}"), R(0))))
    drive(rep, scenarios(rep.tier))
    whole.run(rep, autograd, 15, "weights:autograd")
