"""C21 reference data and defaults: data invariants, decided entry by entry."""
import importlib
import inspect
import os

import numpy as np
import torch

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "tables.npz")
D = torch.float64

DEFAULTS = dict(D4_CN_CUTOFF=30.0, D4_CN_EEQ_CUTOFF=25.0, D4_CN_EEQ_MAX=8.0, D4_DISP2_CUTOFF=60.0, D4_DISP3_CUTOFF=40.0, D4_KCN=7.5,
                D4_K4=4.10451, D4_K5=19.08857, D4_K6=2 * 11.28174**2, A1=0.4, A2=5.0, RS6=1.0, S6=1.0, RS8=1.0, S8=1.0, S9=1.0, S10=0.0,
                RS9=1.0, ALP=16.0, BET=0.0)

SOURCES = {
    **{k: ("tad_dftd4.reference.d4.params", k, False) for k in ("refcovcn", "refalpha", "refascale", "refscount", "refsys", "refc", "secscale", "secalpha")},
    "clsq": ("tad_dftd4.reference.d4.charge_eeq", "clsq", False), "clsh": ("tad_dftd4.reference.d4.charge_eeq", "clsh", False),
    "refq": ("tad_dftd4.reference.d4.charge_gfn2", "refq", False), "refh": ("tad_dftd4.reference.d4.charge_gfn2", "refh", False),
    "R4R2": ("tad_dftd4.data", "R4R2", True), "WFPAIR": ("tad_dftd4.data.wfpair", "WFPAIR", True),
    "GAM": ("tad_dftd4.data", "GAM", True), "ZEFF": ("tad_dftd4.data", "ZEFF", True), "COV_D3": ("tad_dftd4.data", "COV_D3", True),
    "VDW_PAIRWISE": ("tad_dftd4.data", "VDW_PAIRWISE", True),
}


def get(name, dtype=D):
    mod, attr, call = SOURCES[name]
    v = getattr(importlib.import_module(mod), attr)
    if call:
        v = v(dtype=dtype)
    return v


def tables():
    out = {}
    for k in SOURCES:
        out[k] = get(k).to(D if get(k).is_floating_point() else torch.int64).numpy()
    return out


def freq_weights():
    """Trapezoidal weights of the published frequency grid."""
    w = np.array([1e-6, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.2, 1.4, 1.6, 1.8, 2.0, 2.5, 3.0, 4.0, 5.0, 7.5, 10.0])
    d = np.diff(w)
    out = np.zeros(23)
    out[:-1] += d / 2
    out[1:] += d / 2
    return out


def run(rep):
    rep.functions |= {f"{m}.{a}" for m, a, _ in SOURCES.values()} | {"tad_dftd4.defaults", "tad_dftd4.cutoff.Cutoff.__init__", "tad_dftd4.utils.trapzd",
                                                                  "tad_dftd4.model.d4.D4Model.__init__", "tad_dftd4.model.d4s.D4SModel.__init__"}
    rep.assume("published values: the recorded tables data/tables.npz (taken from the pinned commit) and the constants written in vf/props/c21.py",
               "VDW_PAIRWISE, COV_D3, GAM and ZEFF are re-exported from tad_mctc (dependency)")
    gold = np.load(GOLD)
    tab = {}

    def ob(name, bad):
        """bad: None, or a text that names the failing entry"""
        rep.concrete += 1
        rep.concrete_nontrivial += 1
        if bad:
            rep.fail_input(name, bad, {"entry": name, "text": bad})
        else:
            rep.ok(name)

    for k in SOURCES:
        try:
            v = get(k)
        except (AttributeError, ImportError, TypeError) as e:
            rep.unsupported(f"table {k}", f"not found: {e}")
            continue
        v = np.asarray(v.detach().numpy())
        tab[k] = v
        g = gold[k]
        if v.shape != g.shape:
            ob(f"{k}: shape", f"shape {v.shape} instead of {g.shape}")
            continue
        ob(f"{k}: shape", None)
        # entry by entry; a few units in the last place are representation
        d = np.argwhere(~(np.abs(v.astype(float) - g.astype(float)) <= 1e-13 * np.abs(g.astype(float))))
        for z in range(v.shape[0]):
            hit = d[d[:, 0] == z] if len(d) else []
            ob(f"{k}[{z}]: published values", None if len(hit) == 0 else f"{k}{tuple(int(i) for i in hit[0])} = {v[tuple(hit[0])]!r}, published {g[tuple(hit[0])]!r}")
        rep.samples.append(f"{k}: {v.size} entries")
    T = tab.get
    if all(T(k) is not None for k in ("refcovcn", "refalpha", "refascale", "refscount", "refsys", "refc", "clsq", "clsh")):
        n = T("refc")
        for z in range(0, min(104, len(n))):
            have = n[z] != 0
            cn = T("refcovcn")[z]
            if z == 0:
                rest = [k for k in ("refcovcn", "refalpha", "refascale", "refscount", "refc", "clsq", "clsh") if np.any(T(k)[0] != 0) and k != "refcovcn"]
                ob("row 0 is empty", f"tables {rest} have values for element 0" if rest or have.any() else None)
                continue
            ob(f"element {z}: has references", None if have.any() else f"element {z} has no reference")
            if not have.any():
                continue
            ob(f"element {z}: one reference of largest coordination number",
               None if (cn[have] == cn[have].max()).sum() == 1 else f"element {z}: reference coordination numbers {cn[have]}")
            a = T("refalpha")[z].reshape(-1, 23) if T("refalpha")[z].size % 23 == 0 else None
            if a is not None:
                ob(f"element {z}: every reference has polarizabilities", None if np.all(np.abs(a[:len(have)][have]).sum(-1) > 0) else f"element {z}")
    for k in ("WFPAIR", "VDW_PAIRWISE"):
        if T(k) is not None:
            a = np.argwhere(T(k) != T(k).T)
            ob(f"{k}: symmetric", None if len(a) == 0 else f"{k}{tuple(int(i) for i in a[0])} differs from its transpose")
    if T("R4R2") is not None:
        ob("R4R2: positive for every element, zero for padding", None if T("R4R2")[0] == 0 and np.all(T("R4R2")[1:] > 0) else "sign")
        # sqrt(0.5 * <r4>/<r2> * sqrt(Z)); H and C as independent anchors
        for z, r in ((1, 8.0589), (6, 7.8715), (92, 15.6161)):
            w = (0.5 * r * z**0.5) ** 0.5
            ob(f"R4R2[{z}] from the expectation value", None if abs(T("R4R2")[z] - w) < 1e-12 else f"{T('R4R2')[z]} instead of {w}")
    # frequency weights through the integration itself
    w = freq_weights()
    for nm, shape in (("trapzd", (1, 1, 23)), ("trapzd_noref", (1, 23))):
        try:
            f = getattr(importlib.import_module("tad_dftd4.utils"), nm)
        except AttributeError as e:
            rep.unsupported(nm, e)
            continue
        for i in range(23):
            p = torch.zeros(shape, dtype=D)
            p[..., i] = 1.0
            v = float(f(p).reshape(-1)[0]) * np.pi / 3.0
            ob(f"{nm}: weight of frequency {i}", None if abs(v - w[i]) < 1e-12 else f"{v!r} instead of {w[i]!r}")
    # defaults
    mod = importlib.import_module("tad_dftd4.defaults")
    for k, v in DEFAULTS.items():
        if not hasattr(mod, k):
            rep.unsupported(f"defaults.{k}", "not found")
            continue
        ob(f"defaults.{k}", None if abs(getattr(mod, k) - v) <= 1e-14 * abs(v) else f"{getattr(mod, k)} instead of {v}")
    from tad_dftd4.cutoff import Cutoff
    for dt in (torch.float32, torch.float64):
        c = Cutoff(dtype=dt)
        for k, v in (("disp2", 60.0), ("disp3", 40.0), ("cn", 30.0), ("cn_eeq", 25.0)):
            x = getattr(c, k)
            ob(f"Cutoff().{k}[{dt}]", None if float(x) == v and x.dtype == dt else f"{x} {x.dtype} instead of {v}")
    from tad_dftd4.model.d4 import D4Model
    from tad_dftd4.model.d4s import D4SModel
    Z = torch.tensor([6, 1, 0, 92])
    for cls in (D4Model, D4SModel):
        m = cls(Z, dtype=D)
        for k, v in (("ga", 3.0), ("gc", 2.0), ("ref_charges", "eeq")):
            if hasattr(m, k):
                ob(f"{cls.__name__}().{k}", None if getattr(m, k) == v else f"{getattr(m, k)} instead of {v}")
        if not hasattr(m, "wf"):
            continue
        if cls is D4Model:
            ob("D4Model().wf", None if float(torch.as_tensor(m.wf).max()) == 6.0 == float(torch.as_tensor(m.wf).min()) else f"{m.wf}")
        elif T("WFPAIR") is not None and torch.is_tensor(m.wf) and m.wf.ndim >= 2:
            x = m.wf.reshape(4, 4).numpy()
            ob("D4SModel().wf", None if np.allclose(x, gold["WFPAIR"][np.ix_(Z, Z)], rtol=1e-12) else f"{x}")
    rep.level = "proof"
