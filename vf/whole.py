"""Bounded whole-program runs of the real entry points on random molecules
(coordination numbers and EEQ charges included; those are dependencies)."""
import numpy as np
import torch

from .relate import cmp, motion

ELEMENTS = [1, 1, 1, 6, 6, 7, 8, 8, 9, 14, 15, 16, 17, 3, 11, 20, 26, 35, 46, 53, 79, 86]
PARAM = {"s6": 1.0, "s8": 0.95948085, "s9": 1.0, "a1": 0.38574991, "a2": 4.80688534, "alp": 16.0}


def molecule(rng, nmax=6):
    n = int(rng.integers(1, nmax + 1))
    Z = rng.choice(ELEMENTS, size=n)
    x = np.zeros((n, 3))
    for i in range(1, n):
        for _ in range(200):
            base = x[rng.integers(0, i)]
            d = rng.normal(size=3)
            d *= rng.uniform(2.0, 5.0) / np.linalg.norm(d)
            if np.linalg.norm(x[:i] - (base + d), axis=1).min() > 1.8:
                x[i] = base + d
                break
        else:
            x[i] = x[:i].max(0) + 4.0
    style = rng.random()
    if style < 0.12:  # far apart: pairs beyond every cutoff
        x = x * rng.uniform(4.0, 14.0)
    elif style < 0.2:  # stretched along the diagonal
        x = x + np.arange(n)[:, None] * rng.uniform(5.0, 14.0)
    elif style < 0.3:  # crowded: large coordination numbers
        x = x * rng.uniform(0.45, 0.8)
    return Z, x + rng.normal(size=3)


def same(nm, g, v, rt, at):
    """Charges of neutral atoms are zero up to rounding only."""
    if nm == "q" and np.shape(g) == np.shape(v) and np.all(np.abs(np.asarray(g) - v) < 1e-11):
        return None
    return cmp(g, v, rt, at)


def param(dt, **kw):
    return {k: torch.tensor(v, dtype=dt) for k, v in {**PARAM, **kw}.items()}


def energies(Z, x, charge, model="d4", q=None, dt=torch.float64, kind="dftd4"):
    import tad_dftd4 as d4

    Z = torch.as_tensor(Z)
    x = torch.as_tensor(x, dtype=dt)
    charge = torch.as_tensor(charge, dtype=dt)
    q = None if q is None else torch.as_tensor(q, dtype=dt)
    if kind == "dftd4":
        return d4.dftd4(Z, x, charge, param(dt), model=model, q=q).double().numpy()
    if kind == "exact":
        from tad_dftd4.dispersion.d4 import DispD4Exact
        return DispD4Exact(model=model, dtype=dt).calculate(Z, x, charge, param(dt), q=q).double().numpy()
    if kind == "zero":
        return d4.dftd4(Z, x, charge, param(dt, rs6=1.1, rs8=1.0), model=model, q=q,
                        damping_function=d4.damping.ZeroDamping()).double().numpy()
    raise KeyError(kind)


def props(Z, x, charge, dt=torch.float64):
    import tad_dftd4 as d4
    r = d4.get_properties(torch.as_tensor(Z), torch.as_tensor(x, dtype=dt), torch.as_tensor(charge, dtype=dt))
    return [t.double().numpy() for t in r]


CONFIGS = [("dftd4", "d4", False), ("dftd4", "d4s", False), ("zero", "d4", True), ("exact", "d4", False), ("dftd4", "d4s", True), ("dftd4", "d4", True), ("exact", "d4s", False)]
NAMES = ("cn", "q", "c6", "alpha")


def pad_batch(mols, rng, fill=True):
    n = max(len(z) for z, _ in mols) + int(rng.integers(0, 2))
    Z = np.zeros((len(mols), n), dtype=np.int64)
    x = np.zeros((len(mols), n, 3))
    at = []
    for b, (z, y) in enumerate(mols):
        i = np.arange(len(z)) if rng.random() < 0.6 else np.sort(rng.choice(n, size=len(z), replace=False))
        Z[b, i], x[b, i] = z, y
        at.append(i)
    if rng.random() < 0.3:  # coordinates left in the padded entries
        x = np.where((Z == 0)[..., None], rng.normal(size=x.shape) * 3.0, x)
    return Z, x, at


def batch(rep, rng):
    mols = [molecule(rng) for _ in range(int(rng.integers(2, 5)))]
    Z, x, at = pad_batch(mols, rng)
    ch = rng.choice([-1.0, 0.0, 0.0, 1.0], size=len(mols))
    qs = rng.uniform(-0.5, 0.5, size=Z.shape)
    kind, model, giveq = CONFIGS[int(rng.integers(0, len(CONFIGS)))]
    e = energies(Z, x, ch, model, qs if giveq else None, kind=kind)
    p = props(Z, x, ch)
    for b, (z, y) in enumerate(mols):
        k = at[b]
        off = np.setdiff1d(np.arange(Z.shape[-1]), k)
        w = energies(z, y, ch[b], model, qs[b, k] if giveq else None, kind=kind)
        r = cmp(e[b, k], w, 1e-8, 1e-9)
        if r:
            return f"{kind}/{model}: system {b} in the batch: {r}", (Z, x, ch)
        if np.any(e[b, off] != 0):
            return f"{kind}/{model}: padded atom has energy {e[b, off]}", (Z, x, ch)
        pw = props(z, y, ch[b])
        for nm, g, v in zip(NAMES, p, pw):
            sub = g[b][k] if g[b].ndim == 1 else g[b][np.ix_(k, k)]
            r = same(nm, sub, v, 1e-8, 1e-9)
            if r:
                return f"get_properties {nm}: system {b} in the batch: {r}", (Z, x, ch)
            if nm in ("c6", "alpha") and (np.any(g[b][off] != 0) or (nm == "c6" and np.any(g[b][:, off] != 0))):
                return f"get_properties {nm}: padded atom is not zero", (Z, x, ch)
    return None, None


def perm(rep, rng):
    z, x = molecule(rng)
    pi = rng.permutation(len(z))
    q = rng.uniform(-0.5, 0.5, size=len(z))
    kind, model, giveq = CONFIGS[int(rng.integers(0, len(CONFIGS)))]
    a = energies(z, x, 0.0, model, q if giveq else None, kind=kind)
    b = energies(z[pi], x[pi], 0.0, model, q[pi] if giveq else None, kind=kind)
    r = cmp(b, a[pi], 1e-8, 1e-9)
    if r:
        return f"{kind}/{model} after reordering {pi.tolist()}: {r}", (z, x)
    for nm, g, v in zip(NAMES, props(z[pi], x[pi], 0.0), props(z, x, 0.0)):
        v = v[pi] if v.ndim == 1 else v[np.ix_(pi, pi)]
        r = same(nm, g, v, 1e-8, 1e-9)
        if r:
            return f"get_properties {nm} after reordering {pi.tolist()}: {r}", (z, x)
    return None, None


def rigid(rep, rng):
    z, x = molecule(rng)
    y = motion(rng, x, (0.0, 30.0, 300.0, 1000.0))
    q = rng.uniform(-0.5, 0.5, size=len(z))
    kind, model, giveq = CONFIGS[int(rng.integers(0, len(CONFIGS)))]
    r = cmp(energies(z, y, 0.0, model, q if giveq else None, kind=kind), energies(z, x, 0.0, model, q if giveq else None, kind=kind), 1e-7, 1e-8)
    if r:
        return f"{kind}/{model} after a rigid motion: {r}", (z, x, y)
    for nm, g, v in zip(NAMES, props(z, y, 0.0), props(z, x, 0.0)):
        r = same(nm, g, v, 1e-7, 1e-8)
        if r:
            return f"get_properties {nm} after a rigid motion: {r}", (z, x, y)
    return None, None


def d4s_constant(rep, rng):
    """D4S with one weighting factor for all pairs against D4."""
    from tad_dftd4.model import D4Model, D4SModel

    z, x = molecule(rng)
    n = len(z)
    wf = float(rng.uniform(3, 8))
    Z = torch.as_tensor(z)
    f = torch.float64
    kind = ("dftd4", "exact")[int(rng.integers(0, 2))]
    ms, m = D4SModel(Z, wf=torch.full((n, n), wf, dtype=f), dtype=f), D4Model(Z, wf=wf, dtype=f)
    cn = torch.as_tensor(rng.uniform(0, 5, size=n), dtype=f)
    r = cmp(ms.get_weighted_pols(ms.weight_references(cn)).numpy(), m.get_weighted_pols(m.weight_references(cn)).numpy(), 1e-8, 1e-10)
    if r:
        return f"wf={wf}: D4S weighted polarizabilities {r} (D4)", (z, x, wf)
    a = energies(z, x, 0.0, ms, kind=kind)
    b = energies(z, x, 0.0, m, kind=kind)
    r = cmp(a, b, 1e-8, 1e-10)
    return (f"wf={wf}: D4S energy {r} (D4)", (z, x, wf)) if r else (None, None)


def run(rep, fn, count, title):
    rng = np.random.default_rng([rep.seed, 77, len(title)])
    n = count if rep.tier == "quick" else 10 * count
    import time
    t_end = time.time() + (40 if rep.tier == "quick" else 200)
    done = 0
    for _ in range(n):
        if rep.left() < 20 or time.time() > t_end:
            break
        try:
            r, data = fn(rep, rng)
        except Exception as e:
            r, data = f"unexpected {type(e).__name__}: {e}", ()
        rep.concrete += 1
        rep.concrete_nontrivial += 1
        done += 1
        if r:
            rep.fail_input(title, r, {"scenario": title, "observed": r, "data": data if isinstance(data, dict) else [np.asarray(d).tolist() for d in data], "seed": rep.seed})
            return
    rep.bounded.append(f"{title}: {done} random molecules/batches through the real entry points (dependencies included)")
