"""Relational contracts over the terms extracted from the real code:
batch independence, reordering of atoms, rigid motions, signs."""
from __future__ import annotations

import itertools
import time

import numpy as np
import torch

from . import ir, literals, prove, sym
from .ir import (B, FALSE, I, R, TRUE, band, bnot, bor, cval, eq, fv, ite, ivar, le, lt, replace, subst, subterms)
from .prove import Failure, Prover
from .scen import (DT, Pool, Report, Scenario, flatten_result, hash_str, numenv, pack, record, resolved, sample_env, to_torch,
                   unify_binders, value_term)
from .sym import Engine, SymInt, Unsupported


class Ext:
    """Terms of one scenario: out name -> (indices, facts, term)."""

    def __init__(self, scn, facts, outs, writes=()):
        self.scn, self.facts, self.outs, self.writes = scn, facts, outs, list(writes)


def extract(rep, scn, strip=True, stub_cdist=None, track=False):
    """Symbolic execution; None when out of reach."""
    rep.functions.add(scn.func)
    prove.precision(scn.dtype)
    env = scn.symenv()
    eng = Engine(dtype=DT[scn.dtype], axioms=dict(scn.axioms), facts=scn.dimfacts() + scn.pre,
                 cdist_stub=scn.stub_cdist if stub_cdist is None else stub_cdist, max_paths=scn.max_paths)
    eng.track = track
    st = torch.is_grad_enabled()
    try:
        paths = eng.explore(lambda: scn.call(env))
    except Unsupported as e:
        rep.unsupported(f"{scn.name}:symbolic-execution", e)
        return None
    except Exception as e:
        rep.unsupported(f"{scn.name}:symbolic-execution", f"{type(e).__name__}: {e}")
        return None
    finally:
        torch.set_grad_enabled(st)
    out = []
    for p in paths:
        if not eng.prover.feasible(p.facts):
            continue
        if p.kind == "raise":
            out.append(Ext(scn, p.facts, p.value, p.writes))
            continue
        o2 = {}
        e2 = Engine(dtype=DT[scn.dtype], facts=p.facts, axioms=scn.axioms)
        e2.track = track
        with sym.active(e2):
            for o, g in zip(scn.outs, flatten_result(p.value, scn.outs)):
                if not isinstance(g, torch.Tensor):
                    continue
                g = sym.lift(g)
                idx = [ivar(f"ix{k}") for k in range(len(g._shape))]
                f2 = list(p.facts)
                for v, d in zip(idx, g._shape):
                    f2 += [le(I(0), v), lt(v, sym.dimterm(d))]
                if len(idx) != len(o.dims):
                    rep.unsupported(f"{scn.name}:{o.name}", f"result has {len(idx)} axes, expected {len(o.dims)}")
                    return None
                t = g.at(tuple(idx))
                o2[o.name] = (idx, f2, value_term(t, scn, strip), g)
        out.append(Ext(scn, p.facts, o2, p.writes))
    rep.paths += len(out)
    return out


def one_path(rep, scn, what):
    e = extract(rep, scn)
    if e is None:
        return None
    if len(e) != 1 or not isinstance(e[0].outs, dict):
        rep.unsupported(f"{scn.name}:{what}", f"{len(e)} paths (control flow depends on the data)")
        return None
    return e[0]


def size_paths(rep, scn, what):
    """Extractions when the control flow depends on array sizes at most."""
    e = extract(rep, scn)
    if e is None:
        return []
    base = {f.id for f in scn.dimfacts() + scn.pre}
    for x in e:
        if not isinstance(x.outs, dict) or len(e) > 1 and any(ir.symbols(f) for f in x.facts if f.id not in base):
            rep.unsupported(f"{scn.name}:{what}", f"{len(e)} paths (control flow depends on the data)")
            return []
    return e


# ------------------------------------------------------------------- batch --


def batch_pair(rep, lo, hi, count=6):
    """hi: the scenario with one more leading batch axis than lo."""
    nm = hi.name
    extra = hi.inputs[0].dims[0]
    newd = {p.name for q in hi.inputs for p in lo.inputs if p.name == q.name and len(q.dims) == len(p.dims) + 1}
    pool = Pool()
    n0 = len(rep.obs)
    case = lambda rng, s, a: batch_case(rng, lo, hi, newd, s, a)
    if prepass(rep, hi, case, count, "same-as-alone"):
        return
    try:
        _batch_proof(rep, lo, hi, newd, pool)
    except Unsupported as e:
        rep.unsupported(f"{nm}:batch", e)
    except Exception as e:
        rep.unsupported(f"{nm}:batch", f"engine: {type(e).__name__}: {e}")
    bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
    pool.extra = literals.new_literals()
    postpass(rep, hi, case, count, pool, bad)


def _batch_proof(rep, lo, hi, newd, pool):
    e1 = one_path(rep, hi, "batch")
    e0 = one_path(rep, lo, "alone")
    if e0 is None or e1 is None:
        return
    rng = np.random.default_rng([rep.seed, 11])
    # declare the batched symbols again (same names, one more axis)
    hi.symenv()
    newd = set(newd)
    if "pos" in newd:
        newd.add("dist")
    b = ivar("ix0")
    pr = Prover(axioms=hi.axioms, timeout=4000, deadline=rep.limit(120, 20))
    ax0 = lo.axioms
    for o in hi.outs:
        if o.name not in e0.outs or o.name not in e1.outs:
            continue
        i0, _, t0, _ = e0.outs[o.name]
        i1, f1, t1, _ = e1.outs[o.name]
        ren = {v: ivar(f"ix{k + 1}") for k, v in enumerate(i0)}
        tmp = {v: ivar(f"tmp{k}") for k, v in enumerate(i0)}
        t = subst(subst(t0, tmp), {tmp[v]: ren[v] for v in ren})
        t = lift_batch(t, newd, b)
        st = time.time()
        t = unify_binders(pr, t1, t, f1)
        pool.harvest(t1, t)
        r = pr.equal(t1, t, f1)
        record(rep, hi, f"{hi.name}:{o.name}:same-as-alone", r, st, pool, rng)
        # padded atoms: zero result
        for k, (v, d) in enumerate(zip(i1, o.dims)):
            if d == "n" and zero_axis(o, k - len(o.dims)):
                z = ir.app("Z", (*i1[:_nb(hi)], v))
                st = time.time()
                r = pr.equal(specialise(t1, {z: I(0)}), R(0), f1)
                record(rep, hi, f"{hi.name}:{o.name}:zero-for-padded-{v.data}", r, st, pool, rng)
        # padded atoms do not contribute to any reduction over atoms
        n = ivar("n")
        bz = tuple(i1[:_nb(hi)])
        done = set()
        for x in subterms(t1):
            if x.op in ir.BINDERS and x.args[1] is n and x.id not in done:
                done.add(x.id)
                st = time.time()
                if x.op == "exists":
                    k = ir.fresh("k")
                    body = specialise(subst(x.args[2], {x.args[0]: k}), {ir.app("Z", (*bz, k)): I(0)})
                    if body is FALSE:
                        rep.ok(f"{hi.name}:{o.name}:padding-neutral-exists", seconds=time.time() - st)
                        continue
                if x.op != "sum":
                    rep.undecided(f"{hi.name}:{o.name}:padding-neutral-{x.op}", f"reduction {x.op} over atoms")
                    continue
                k = ir.fresh("k")
                body = subst(x.args[2], {x.args[0]: k})
                fr = [v for v in fv(body) if v.data.startswith("#")]
                body = subst(body, {v: ir.fresh("u") for v in fr})
                f3 = f1 + [le(I(0), k), lt(k, n)]
                r = pr.equal(specialise(body, {ir.app("Z", (*bz, k)): I(0)}), R(0), f3)
                if r is True:
                    rep.ok(f"{hi.name}:{o.name}:padding-neutral-sum", seconds=time.time() - st)
                else:
                    rep.undecided(f"{hi.name}:{o.name}:padding-neutral-sum", r.text())


def zero_axis(o, k):
    z = getattr(o, "zero_pad", True)
    return z if isinstance(z, bool) else k in z


def specialise(t, m):
    """Substitute atoms by constants and fold the table rows they select."""
    ids = {k.id: v for k, v in m.items()}
    t = replace(t, lambda x: ids.get(x.id))

    def fold(x):
        if x.op == "mul" and any(cval(a) == 0 for a in x.args):  # over the reals
            return R(0)
        if x.op != "app":
            return None
        s = ir.SYMS[x.data]
        if s.kind != "table" or s.array is None:
            return None
        ix = tuple(slice(None) if cval(a) is None else int(cval(a)) for a in x.args)
        if all(isinstance(i, slice) for i in ix):
            return None
        sub = np.asarray(s.array)[ix]
        if sub.size and np.all(sub == sub.reshape(-1)[0]):
            v = sub.reshape(-1)[0]
            if s.sort == "B":
                return B(bool(v))
            return I(int(v)) if s.sort == "I" else R(float(v))
        return None

    for _ in range(3):
        u = replace(t, fold)
        if u is t:
            break
        t = u
    return t


def _nb(scn):
    """Number of leading batch axes."""
    return len(next(p for p in scn.inputs if p.name == "Z").dims) - 1


def lift_batch(t, names, b):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op in ir.BINDERS:
                n2, b2 = go(x.args[1]), go(x.args[2])
                r = ir._rebind(x.op, x.args[0], n2, b2, x.sort)
            elif x.op == "app" and x.data in names:
                r = ir.app(x.data, (b, *[go(a) for a in x.args]))
            elif x.args:
                r = ir.rebuild(x, tuple(go(a) for a in x.args))
            else:
                r = x
            memo[x.id] = r
        return r

    return go(t)


def garbage(rng, scn, arrays):
    """Arbitrary finite contents in the padded entries."""
    Z = arrays["Z"]
    pad = Z == 0
    if not pad.any():
        return arrays
    out = dict(arrays)
    nb = Z.ndim - 1
    for p in scn.inputs:
        if p.name == "Z" or "n" not in p.dims or p.dtype == torch.int64:
            continue
        a = arrays[p.name].copy()
        lo = p.meta.get("lo")
        for ax, d in enumerate(p.dims):
            if d != "n":
                continue
            m = pad.reshape(Z.shape[:nb] + (1,) * (ax - nb) + (Z.shape[-1],) + (1,) * (a.ndim - ax - 1))
            mode = rng.integers(0, 4)
            if mode == 0:
                g = np.zeros_like(a) if lo is None or lo <= 0 else np.full_like(a, float(lo))
            elif mode == 1:
                g = rng.uniform(-50, 50, size=a.shape)
            elif mode == 2:
                g = rng.choice([-7.0, 1.0, 3.0, 25.0, 1000.0], size=a.shape)
            else:  # copies of other entries of the same system
                g = np.roll(a, 1, axis=ax)
            if lo is not None:
                g = np.maximum(g, float(lo))
            if p.meta.get("symm") and ax == a.ndim - 1:
                g = np.maximum(g, np.swapaxes(g, -1, -2))
            a = np.where(m, g, a)
        if p.meta.get("symm"):
            a = (a + np.swapaxes(a, -1, -2)) / 2
        out[p.name] = a.astype(arrays[p.name].dtype)
    return out


def shrink(scn, arrays, pick, names, real):
    """Inputs of one system without its padding."""
    env = {}
    for p in scn.inputs:
        a = arrays[p.name]
        dims = list(p.dims)
        if p.name in names:
            a = a[pick]
            dims = dims[1:]
        for ax, d in enumerate(dims):
            if d == "n":
                a = np.take(a, real, axis=ax)
        env[p.name] = a
    return env


def tol(scn):
    return (2e-4, 2e-5) if scn.dtype == "f32" else (1e-9, 1e-11)


def cmp(got, want, rt, at):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    with np.errstate(all="ignore"):
        fin = np.abs(want[np.isfinite(want)])
        sc = float(fin.max()) if fin.size else 0.0
        ok = (np.abs(got - want) <= at * sc + rt * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
    if ok.all():
        return None
    w = tuple(np.argwhere(~ok)[0])
    return f"entry {list(map(int, w))}: {got[w]!r} instead of {want[w]!r}"


def call(scn, arrays):
    res = scn.call({k: torch.tensor(v) for k, v in arrays.items()})
    return {o.name: g.detach().double().numpy() for o, g in zip(scn.outs, flatten_result(res, scn.outs)) if isinstance(g, torch.Tensor)}


def batch_case(rng, lo, hi, names, sizes, arrays):
    if _nb(hi) != 1:
        return batch_case2(rng, lo, hi, names, sizes, arrays)
    arrays = garbage(rng, hi, arrays)
    Z = arrays["Z"]
    try:
        got = call(hi, arrays)
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}", arrays
    rt, at = tol(hi)
    for b in range(Z.shape[0]):
        real = np.flatnonzero(Z[b] > 0)
        padded = np.flatnonzero(Z[b] == 0)
        if not len(real):
            continue
        want = call(lo, shrink(hi, arrays, b, names, real))
        for o in hi.outs:
            if o.name not in got:
                continue
            g = got[o.name][b]
            dims = o.dims[1:]
            sub = g
            for ax, d in enumerate(dims):
                if d == "n":
                    sub = np.take(sub, real, axis=ax)
                    if len(padded) and zero_axis(o, ax - len(dims)):
                        p = np.take(g, padded, axis=ax)
                        if np.any(p != 0):
                            return f"{o.name}: padded atom of system {b} gets {p.reshape(-1)[np.flatnonzero(p.reshape(-1))[0]]!r} instead of 0", arrays
            r = cmp(sub, want[o.name], rt, at)
            if r:
                return f"{o.name}: system {b} in the batch (without padding) {r} (alone)", arrays
    return None, arrays


def batch_case2(rng, lo, hi, names, sizes, arrays):
    """Two batch axes against one: slices along the first axis."""
    arrays = garbage(rng, hi, arrays)
    try:
        got = call(hi, arrays)
        rt, at = tol(hi)
        for b in range(arrays["Z"].shape[0]):
            want = call(lo, {k: (v[b] if k in names else v) for k, v in arrays.items()})
            for k in got:
                r = cmp(got[k][b], want[k], rt, at)
                if r:
                    return f"{k}: slice {b} {r}", arrays
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}", arrays
    return None, arrays


def search(rep, scn, case, count, pool=None, salt=0, title=None):
    """Concrete search with the real code; reports the first failing input."""
    rng = np.random.default_rng([rep.seed, 31 + salt, hash_str(scn.name)])
    pool = pool or Pool()
    t_end = time.time() + (15 if rep.tier == "quick" else 60)
    if rep.tier != "quick":
        count *= 8
    for k in range(count):
        if time.time() > t_end or rep.left() < 20:
            break
        sizes, arrays = sample_env(scn, rng, pool, k)
        if scn.conc_ok is not None and not scn.conc_ok(arrays, sizes):
            continue
        if not resolved(scn, arrays, tol(scn)[0]):
            continue
        try:
            r, arr = case(rng, sizes, arrays)
        except Unsupported as e:
            rep.notes.append(f"{scn.name}: {e}")
            return False
        rep.concrete += 1
        rep.concrete_nontrivial += 1
        if r:
            rep.fail_input(title or scn.name, r, {"scenario": scn.name, "function": scn.func, "sizes": sizes, "inputs": pack(arr),
                                                  "observed": r, "seed": rep.seed})
            return True
        if len(rep.samples) < 3:
            rep.samples.append({"scenario": scn.name, "sizes": sizes})
    return False


def prepass(rep, scn, case, count, what):
    """Concrete search before the proof: a failing input settles the question."""
    if rep.enough():
        rep.notes.append(f"{scn.name}: skipped, violations already reported")
        return True
    pool = Pool()
    pool.extra = literals.new_literals()
    if search(rep, scn, case, count, pool):
        rep.functions.add(scn.func)
        rep.refuted(f"{scn.name}:{what}", "failing input found before the proof was attempted")
        return True
    return False


def postpass(rep, scn, case, count, pool, bad):
    """Search directed at the conditions of the symbolic terms."""
    search(rep, scn, case, 20 * count if bad else (count + 1) // 2, pool, salt=1)


# ------------------------------------------------------------- permutation --


def nominal(t, atoms, scn):
    """None if atom indices are used only as atom indices of arrays or in
    equalities between atom indices; otherwise the offending term.  Such a
    term commutes with every reordering of the atoms."""
    dims = {p.name: p.dims for p in scn.inputs}
    nb = _nb(scn) if any(p.name == "Z" for p in scn.inputs) else 0
    n = ivar("n")
    memo = {}

    def go(x, at):
        key = (x.id, frozenset(v.id for v in at if v in fv(x)))
        if key not in memo:
            memo[key] = ev(x, at)
        return memo[key]

    def ev(x, at):
        if not any(v in at for v in fv(x)) and not any(y.op in ir.BINDERS for y in subterms(x)):
            return _literal_index(x)
        if x.op == "var":
            return x if x in at else None
        if x.op in ir.BINDERS:
            r = go(x.args[1], at)
            if r is not None:
                return r
            if x.args[1] is n:
                if x.op in ("argmax", "argmin"):
                    return x
                return go(x.args[2], at | {x.args[0]})
            return go(x.args[2], at - {x.args[0]})
        if x.op == "app":
            ds = dims.get(x.data)
            if ds is None and x.data.startswith("dist"):
                ds = (None,) * nb + ("n", "n")
            for k, a in enumerate(x.args):
                if ds is not None and ds[k] == "n":
                    if a not in at:
                        return x
                    continue
                r = go(a, at)
                if r is not None:
                    return r
            return None
        if x.op == "eq" and x.args[0].sort == "I":
            a, b = x.args
            if a in at and b in at:
                return None
        for a in x.args:
            r = go(a, at)
            if r is not None:
                return r
        return None

    def _literal_index(x):
        # atom axes indexed by something that is not an atom variable
        for y in subterms(x):
            if y.op == "app":
                ds = dims.get(y.data)
                if ds is not None and any(d == "n" for d in ds):
                    return y
        return None

    return go(t, frozenset(atoms))


def permutation(rep, scn, count=6):
    nm = scn.name
    n0 = len(rep.obs)
    pool = Pool()
    f = lambda rng, s, a: perm_case(rng, scn, s, a)
    if prepass(rep, scn, f, count, "permutation"):
        return
    try:
        _perm_proof(rep, scn, pool)
    except Unsupported as e:
        rep.unsupported(f"{nm}:permutation", e)
    except Exception as e:
        rep.unsupported(f"{nm}:permutation", f"engine: {type(e).__name__}: {e}")
    bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
    pool.extra = literals.new_literals()
    postpass(rep, scn, f, count, pool, bad)


def against_spec(rep, scn, o, ext, goal):
    """The extracted term equals a specification that satisfies `goal`."""
    if o.spec is None:
        return None
    idx, f, t, _ = ext.outs[o.name]
    spec = o.spec(*idx)
    if not goal(spec):
        return None
    pr = Prover(axioms=scn.axioms, timeout=4000, deadline=rep.limit(40, 10))
    spec = unify_binders(pr, t, spec, f)
    return pr.equal(t, spec, f)


def _perm_proof(rep, scn, pool):
    for e, o in itertools.product(size_paths(rep, scn, "permutation"), scn.outs):
        idx, f, t, _ = e.outs[o.name]
        pool.harvest(t)
        st = time.time()
        atoms = [v for v, d in zip(idx, o.dims) if d == "n"]
        pr = Prover(axioms=scn.axioms)
        t = pr.simp(t, f)
        bad = nominal(t, atoms, scn)
        name = f"{scn.name}:{o.name}:commutes-with-reordering"
        if bad is None:
            rep.ok(name, seconds=time.time() - st)
            continue
        r = against_spec(rep, scn, o, e, lambda s: nominal(s, atoms, scn) is None)
        if r is True:
            rep.ok(name + " (through its contract)", seconds=time.time() - st)
        else:
            rep.undecided(name, f"atom index used other than as an atom label: {str(bad)[:300]}" + (f"\n{r.text()}" if r is not None else ""))


def perm_case(rng, scn, sizes, arrays):
    Z = arrays["Z"]
    nb = Z.ndim - 1
    n = sizes["n"]
    if n < 2:
        return None, arrays
    pi = rng.permutation(n)
    a2 = {}
    for p in scn.inputs:
        a = arrays[p.name]
        for ax, d in enumerate(p.dims):
            if d == "n":
                a = np.take(a, pi, axis=ax)
        a2[p.name] = a
    try:
        g1 = call(scn, arrays)
    except Exception:
        g1 = None
    try:
        g2 = call(scn, a2)
    except Exception as e:
        if g1 is None:
            return None, arrays
        return f"reordering {pi.tolist()}: unexpected {type(e).__name__}: {e}", a2
    if g1 is None:
        return f"raises for this order of atoms, not after reordering {pi.tolist()}", arrays
    rt, at = tol(scn)
    for o in scn.outs:
        if o.name not in g1:
            continue
        w = g1[o.name]
        for ax, d in enumerate(o.dims):
            if d == "n":
                w = np.take(w, pi, axis=ax)
        r = cmp(g2[o.name], w, rt, at)
        if r:
            return f"{o.name} after reordering {pi.tolist()}: {r}", arrays
    return None, arrays


# ----------------------------------------------------------- rigid motions --


def rigid(rep, scn, count=6):
    n0 = len(rep.obs)
    pool = Pool()
    case = lambda rng, s, a: rigid_case(rng, scn, s, a)
    if prepass(rep, scn, case, count, "rigid"):
        return
    try:
        for e in size_paths(rep, scn, "rigid"):
            for o in scn.outs:
                idx, f, t, _ = e.outs[o.name]
                pool.harvest(t)
                nm = f"{scn.name}:{o.name}:only-through-distances"
                left = [p for p in scn.positions if p in ir.symbols(t)]
                if not left:
                    rep.ok(nm)
                    continue
                r = against_spec(rep, scn, o, e, lambda s: not any(p in ir.symbols(s) for p in scn.positions))
                if r is True:
                    rep.ok(nm + " (through its contract)")
                else:
                    rep.undecided(nm, f"coordinates {left} occur outside distances" + (f"\n{r.text()}" if r is not None else ""))
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:rigid", ex)
    except Exception as ex:
        rep.unsupported(f"{scn.name}:rigid", f"engine: {type(ex).__name__}: {ex}")
    bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
    pool.extra = literals.new_literals()
    postpass(rep, scn, case, count, pool, bad)


def motion(rng, x, shifts=(0.0, 1.0, 30.0, 1000.0)):
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if rng.random() < 0.5:
        q = q @ np.diag([1, 1, -1.0])
    m = rng.integers(0, 3)
    if m == 0:
        q = np.eye(3)
    shift = rng.choice(shifts) * rng.normal(size=3) if m != 1 else np.zeros(3)
    return x @ q.T + shift


def near_cut(scn, arrays):
    """A pair distance so close to a cutoff that rounding may decide."""
    c = [float(arrays[k]) for k in arrays if k.startswith("cut") and np.ndim(arrays[k]) == 0]
    x = np.asarray(arrays["pos"], float)
    d = np.linalg.norm(x[..., :, None, :] - x[..., None, :, :], axis=-1)
    return any(np.any(np.abs(d - v) < 1e-3) for v in c + [60.0, 40.0, 50.0])


def rigid_case(rng, scn, sizes, arrays):
    if near_cut(scn, arrays):
        return None, arrays
    a2 = dict(arrays)
    for p in scn.positions:
        if p in arrays:
            x = arrays[p].astype(float)
            flat = x.reshape(-1, *x.shape[-2:])
            a2[p] = np.stack([motion(rng, y, *([(0.0, 1.0, 30.0)] if scn.dtype == "f32" else [])) for y in flat]).reshape(x.shape).astype(arrays[p].dtype)
    rt, at = (5e-3, 5e-4) if scn.dtype == "f32" else (1e-7, 1e-8)
    if not resolved(scn, arrays, rt) or not resolved(scn, a2, rt):
        return None, arrays
    try:
        g1 = call(scn, arrays)
    except Exception:
        return None, arrays
    try:
        g2 = call(scn, a2)
    except Exception as e:
        return f"after a rigid motion: unexpected {type(e).__name__}: {e}", a2
    for k in g1:
        r = cmp(g2[k], g1[k], rt, at)
        if r:
            return f"{k} after a rigid motion: {r}", {**arrays, "moved": a2["pos"]}
    return None, arrays


# --------------------------------------------------------- runs that agree --


def equal_runs(rep, scn, count=5):
    """scn.call returns a list of (label, got, want): two results of the real
    code that have to agree for every input."""
    n0 = len(rep.obs)
    pool = Pool()
    rep.functions.add(scn.func)
    prove.precision(scn.dtype)
    rng = np.random.default_rng([rep.seed, 3])
    def case(rng, sizes, arrays):
        try:
            res = scn.call({k: torch.tensor(v) for k, v in arrays.items()})
        except Unsupported:
            raise
        except Exception as e:
            return f"unexpected {type(e).__name__}: {e}", arrays
        rt, at = tol(scn)
        for lab, a, b in res:
            if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
                if a.dtype != b.dtype:
                    return f"{lab}: dtype {a.dtype} instead of {b.dtype}", arrays
                r = cmp(a.detach().double().numpy(), b.detach().double().numpy(), rt, at)
            else:
                r = None if a == b else f"{a!r} instead of {b!r}"
            if r:
                return f"{lab}: {r}", arrays
        return None, arrays

    if prepass(rep, scn, case, count, "equal"):
        return
    st = torch.is_grad_enabled()
    try:
        env = scn.symenv()
        eng = Engine(dtype=DT[scn.dtype], axioms=dict(scn.axioms), facts=scn.dimfacts() + scn.pre, cdist_stub=scn.stub_cdist,
                     max_paths=scn.max_paths)
        for p in eng.explore(lambda: scn.call(env)):
            if not eng.prover.feasible(p.facts):
                continue
            rep.paths += 1
            if p.kind == "raise":
                if isinstance(p.value, Mismatch):
                    rep.refuted(f"{scn.name}:{p.value.args[0]}", p.value.args[-1])
                else:
                    rep.refuted(f"{scn.name}:raises", f"unexpected {type(p.value).__name__}: {p.value}")
                continue
            with sym.active(Engine(dtype=DT[scn.dtype], facts=p.facts, axioms=scn.axioms)):
                for lab, a, b in p.value:
                    if not isinstance(a, torch.Tensor) or not isinstance(b, torch.Tensor):
                        if a == b:
                            rep.ok(f"{scn.name}:{lab}")
                        else:
                            rep.refuted(f"{scn.name}:{lab}", f"{a!r} instead of {b!r}")
                        continue
                    a, b = sym.lift(a), sym.lift(b)
                    if a._dtype != b._dtype or len(a._shape) != len(b._shape):
                        rep.refuted(f"{scn.name}:{lab}", f"{a._dtype} {a._shape} instead of {b._dtype} {b._shape}")
                        continue
                    idx = [ivar(f"ix{k}") for k in range(len(a._shape))]
                    f2 = list(p.facts)
                    bad = False
                    pr = Prover(axioms=scn.axioms, timeout=4000, deadline=rep.limit(100, 15))
                    for v, d, e in zip(idx, a._shape, b._shape):
                        td, te = sym.dimterm(d), sym.dimterm(e)
                        bad |= td is not te and not pr.entails(p.facts, eq(td, te))
                        f2 += [le(I(0), v), lt(v, td)]
                    if bad:
                        rep.refuted(f"{scn.name}:{lab}", f"shape {a._shape} instead of {b._shape}")
                        continue
                    ta, tb = value_term(a.at(tuple(idx)), scn), value_term(b.at(tuple(idx)), scn)
                    pool.harvest(ta, tb)
                    t0 = time.time()
                    tb = unify_binders(pr, ta, tb, f2)
                    r = pr.equal(ta, tb, f2)
                    record(rep, scn, f"{scn.name}:{lab}", r, t0, pool, rng)
    except Unsupported as ex:
        rep.unsupported(f"{scn.name}:equal", ex)
    except Exception as ex:
        rep.unsupported(f"{scn.name}:equal", f"engine: {type(ex).__name__}: {ex}")
    finally:
        torch.set_grad_enabled(st)
    bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
    pool.extra = literals.new_literals()

    postpass(rep, scn, case, count, pool, bad)


class Mismatch(Exception):
    """Raised by a scenario when the observed calls differ from the contract."""
