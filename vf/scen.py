"""Contracts as scenarios: symbolic inputs, the call of the real function and
its postcondition.  The same definition drives the proof (symbolic inputs) and
the concrete replay search (real tensors)."""
from __future__ import annotations

import itertools
import json
import math
import os
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from . import ir, prove, sym
from .ir import (B, FALSE, I, R, T, TRUE, band, bnot, bor, cval, declare, eq,
                 fv, ite, ivar, le, lt, power, replace, subst, subterms)
from .prove import Failure, Prover, STATS
from .sym import Engine, SymInt, SymTensor, Unsupported, array

DT = {"f64": torch.float64, "f32": torch.float32}
TORCH2NP = {torch.float64: np.float64, torch.float32: np.float32, torch.int64: np.int64, torch.bool: np.bool_}


class Inp:
    def __init__(self, name, dims, dtype, gen, **meta):
        self.name, self.dims, self.dtype, self.gen, self.meta = name, dims, dtype, gen, meta


class Out:
    """One result tensor: dims, expected dtype and spec(index terms) -> term."""

    def __init__(self, name, dims, spec, dtype=None, pick=None, facts=None):
        self.name, self.dims, self.spec, self.dtype, self.pick, self.facts = name, dims, spec, dtype, pick, facts


class Scenario:
    """
    name     identifier (function and configuration)
    func     the function under contract (for the evidence)
    inputs   list of Inp
    call     call(env) -> result, env: name -> tensor (symbolic or concrete)
    outs     list of Out
    raises   list of (condition term, exception class): exactly then
    pre      list of condition terms (precondition)
    dims     name -> (lo, hi) for concrete sampling
    derive   arrays -> additional arrays used by the spec (e.g. dist)
    """

    def __init__(self, name, func, inputs, call, outs=(), raises=(), pre=(), dims=None, derive=None,
                 dtype="f64", axioms=None, positions=("pos",), stub_cdist=True, checks=None, rtol=None,
                 max_paths=64, conc_ok=None, atol=None):
        self.name, self.func, self.inputs, self.call = name, func, inputs, call
        self.outs, self.raises, self.pre = list(outs), list(raises), list(pre)
        self.dims = {"n": (1, 6), "nb": (1, 3), "mb": (1, 2)}
        if dims:
            self.dims.update(dims)
        self.derive = derive
        self.dtype = dtype
        self.axioms = axioms if axioms is not None else {"dist": dist_axioms}
        self.positions = positions
        self.stub_cdist = stub_cdist
        self.checks = checks
        self.rtol = rtol
        self.max_paths = max_paths
        self.conc_ok = conc_ok
        self.atol = atol

    # -- symbolic side

    def symenv(self):
        env = {}
        for p in self.inputs:
            shape = tuple(SymInt(ivar(d)) if isinstance(d, str) else d for d in p.dims)
            env[p.name] = array(p.name, shape, p.dtype, **p.meta)
        return env

    def usedims(self):
        s = set()
        for p in self.inputs:
            s |= {d for d in p.dims if isinstance(d, str)}
        return s

    def dimfacts(self):
        return [le(I(1), ivar(d)) for d in sorted(self.usedims())]


def dist_axioms(*args):
    """Precondition on geometries: distinct real atoms do not coincide."""
    *b, i, j = args
    d = ir.app("dist", args)
    z = [eq(ir.app("Z", (*b, x)), I(0)) for x in (i, j)] if "Z" in ir.SYMS else []
    return [le(R(0), d), bor(eq(i, j), le(R(Fraction(1, 1000)), d), *z)]


# ---------------------------------------------------- distance abstraction --


def abstract_distances(t, posname="pos", dist="dist"):
    """Squared Euclidean norms of position differences -> dist^2."""
    if posname not in ir.symbols(t):
        return t
    if dist not in ir.SYMS:
        declare(dist, sort="R", kind="derived", lo=0, grad=True, symm=(-2, -1))
    memo: dict = {}

    def pure(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == "app":
                r = x.data == posname
            elif x.op == "const":
                r = True
            elif x.op in ("add", "mul", "mark"):
                r = all(pure(a) for a in x.args)
            elif x.op == "pow":
                r = pure(x.args[0]) and cval(x.args[1]) is not None
            elif x.op == "fun" and x.data == "abs":
                r = pure(x.args[0])
            else:
                r = False
            memo[x.id] = r
        return r

    def recog(x):
        apps = sorted({y for y in subterms(x) if y.op == "app"}, key=lambda y: y.id)
        if not apps:
            return None
        sites = {}
        for a in apps:
            sites.setdefault(tuple(z.id for z in a.args[:-1]), (a.args[:-1], set()))[1].add(cval(a.args[-1]))
        keys = list(sites)
        if len(keys) == 1:
            keys = [keys[0], keys[0]]
        if len(keys) != 2:
            return None
        p, q = sites[keys[0]][0], sites[keys[1]][0]
        if p[:-1] != q[:-1]:
            return None
        want = R(0)
        for c in range(3):
            d = ir.sub(ir.app(posname, p + (I(c),)), ir.app(posname, q + (I(c),)))
            want = ir.add(want, ir.mul(d, d))
        try:
            y = replace(x, lambda z: ir.mul(z.args[0].args[0], z.args[0].args[0])
                        if z.op == "pow" and z.args[0].op == "fun" and z.args[0].data == "abs" and cval(z.args[1]) == 2
                        else (ir.mul(z.args[0].args[0], z.args[0].args[0])
                              if z.op == "mul" and z.args[0] is z.args[1] and z.args[0].op == "fun" and z.args[0].data == "abs" else None))
            if prove.same(prove.canon(y), prove.canon(want)):
                a, b = sorted((p[-1], q[-1]), key=lambda z: z.id)
                return power(ir.app(dist, p[:-1] + (a, b)), R(2))
        except prove.TooBig:
            return None
        return None

    out: dict = {}

    def go(x):
        r = out.get(x.id)
        if r is not None:
            return r
        if posname not in ir.symbols(x):
            r = x
        elif x.sort == "R" and pure(x) and (y := recog(x)) is not None:
            r = y
        elif x.op in ir.BINDERS:
            n2, b2 = go(x.args[1]), go(x.args[2])
            r = x if (n2 is x.args[1] and b2 is x.args[2]) else ir._rebind(x.op, x.args[0], n2, b2, x.sort)
        elif x.args:
            r = ir.rebuild(x, tuple(go(a) for a in x.args))
        else:
            r = x
        out[x.id] = r
        return r

    r = go(t)
    # sqrt(dist^2) -> dist, also with a positive clamp in between handled later
    return replace(r, lambda x: x.args[0].args[0] if x.op == "fun" and x.data == "sqrt" and x.args[0].op == "pow"
                   and cval(x.args[0].args[1]) == 2 and x.args[0].args[0].op == "app" and x.args[0].args[0].data == dist else None)


# ------------------------------------------------------------- obligations --


class Ob:
    """Outcome of one obligation."""

    def __init__(self, name, status, detail="", failure=None, seconds=0.0, kind="proof"):
        self.name, self.status, self.detail = name, status, detail
        self.failure, self.seconds, self.kind = failure, seconds, kind


class Report:
    def __init__(self, pid, seed=1, tier="quick", budget=600):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.t0 = time.time()
        self.budget = budget
        self.obs: list[Ob] = []
        self.concrete = 0
        self.concrete_nontrivial = 0
        self.samples = []
        self.known = set()  # titles of recorded findings
        self.violations = []  # (title, text, replay dict or None)
        self.functions = set()
        self.assumptions = []
        self.bounded = []
        self.notes = []
        self.paths = 0
        self.mustfail = [0, 0]

    def enough(self):
        """Several different failing inputs are known: no need to go on."""
        return self.tier == "quick" and len({v[0] for v in self.violations if v[0] not in self.known}) >= 3

    def limit(self, most, least):
        """Deadline for the next proof: less time once several have failed."""
        failed = sum(o.status != "discharged" for o in self.obs)
        most = most if failed < 3 else most / 3 if failed < 8 else most / 8
        return time.time() + min(most, max(least, self.left() - 30))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def ok(self, name, detail="", seconds=0.0):
        self.obs.append(Ob(name, "discharged", detail, seconds=seconds))

    def unsupported(self, name, why):
        self.obs.append(Ob(name, "out-of-reach", str(why)[:300], kind="bounded"))
        self.bounded.append(f"{name}: {str(why)[:200]}")

    def undecided(self, name, why):
        self.obs.append(Ob(name, "undecided", str(why)[:2000]))

    def refuted(self, name, why):
        self.obs.append(Ob(name, "refuted", str(why)[:4000]))

    def fail_input(self, title, text, replay):
        self.violations.append((title, text, replay))


# ------------------------------------------------------- concrete sampling --


class Pool:
    """Interesting values per input symbol, harvested from terms."""

    def __init__(self):
        self.vals: dict[str, list] = {}
        self.extra: list = []  # numeric literals of the current source
        self.sizes: list = []  # array sizes that select a path
        self.force = False

    def harvest(self, *terms):
        for t in terms:
            for x in subterms(t):
                if x.op not in ("eq", "le"):
                    continue
                for a, b in (x.args, x.args[::-1]):
                    c = cval(b)
                    if c is None or a.op != "app":
                        continue
                    s = ir.SYMS.get(a.data)
                    if s is None or s.kind == "table":
                        continue
                    v = float(c)
                    w = self.vals.setdefault(a.data, [])
                    cand = [v, v + 1, v - 1] if s.sort == "I" else [v, v * (1 + 1e-9) + 1e-12, v * (1 - 1e-9) - 1e-12, v + 0.5, v - 0.5]
                    for q in cand:
                        if q not in w and len(w) < 40:
                            w.append(q)


def size_models(scn, facts):
    """A few small array sizes that satisfy the facts about sizes."""
    dims = sorted(d for d in scn.usedims())
    fs = [f for f in facts if not ir.symbols(f) and all(v.data in dims for v in fv(f))]
    if not fs:
        return []
    cand = {d: set(range(max(1, scn.dims.get(d, (1, 4))[0]), 5)) | {8} for d in dims}
    far = False
    for f in fs:
        for x in subterms(f):
            c = cval(x)
            if c is not None and c.denominator == 1 and 4 < c <= 1100:
                far = True
                for d in dims:
                    cand[d] |= {v for v in (int(c), int(c) + 1) if v <= (130 if d == "n" else 40)}
                    if d == "n" and c > 130:
                        cand[d].add(130)
    if not far:
        return []
    out = []
    for s in itertools.product(*(sorted(cand[d]) for d in dims)):
        sz = dict(zip(dims, s))
        if math.prod(s) > 1400:
            continue
        try:
            if all(bool(np.all(ir.evaluate(f, ir.NumEnv({}, sz), {}))) for f in fs):
                out.append(sz)
        except (KeyError, ValueError, TypeError):
            return []
    out.sort(key=lambda z: (math.prod(z.values()), tuple(z.values())))
    if out and math.prod(out[0].values()) <= 16:
        return []
    return out[:4]


def sample_env(scn: Scenario, rng, pool: Pool, k: int):
    sizes = {}
    for d in sorted(scn.usedims()):
        lo, hi = scn.dims.get(d, (1, 4))
        sizes[d] = int(rng.integers(lo, hi + 1))
        big = [int(v) for v in pool.extra if float(v).is_integer() and hi < v + 1 <= (40 if d == "n" else 12)]
        if big and k % 4 == 3:
            sizes[d] = int(rng.choice(big)) + int(rng.integers(0, 2))
    most = 70 if "Exact" in scn.name or "trapzd_atm" in scn.name else 130
    huge = [int(v) for v in pool.extra if float(v).is_integer() and 40 < v + 1 <= most]
    if "n" in sizes and huge and k % 8 == 6:
        sizes = {d: s if d == "n" else min(s, 2) for d, s in sizes.items()}
        sizes["n"] = int(rng.choice(huge)) + int(rng.integers(0, 2))
    if pool.sizes and (pool.force or k % 4 == 2):
        sizes.update(pool.sizes[int(rng.integers(len(pool.sizes)))])
    arrays = {}
    for p in scn.inputs:
        shape = tuple(sizes[d] if isinstance(d, str) else d for d in p.dims)
        a = np.asarray(p.gen(rng, shape, arrays, sizes))
        vals = pool.vals.get(p.name)
        if pool.extra and k % 3 == 2 and p.dtype != torch.bool and p.name not in scn.positions:
            near = [v for v in pool.extra if p.meta.get("sort") != "I" or float(v).is_integer()]
            vals = (vals or []) + near + [v * (1 + 1e-6) + 1e-6 for v in near] + [-v for v in near]
        if a.size and p.name in scn.positions and k % 2 == 1:
            a = place(a, rng, list(pool.vals.get("dist", [])) + list(pool.extra))
        elif vals and k % 2 == 1 and a.size or (pool.extra and k % 3 == 2 and vals and a.size):
            lo, hi = p.meta.get("lo"), p.meta.get("hi")
            good = [v for v in vals if (lo is None or v >= lo) and (hi is None or v <= hi) and directed(p.name, scn.dtype, v)]
            if good:
                m = rng.random(a.shape) < 0.4
                a = np.where(m, rng.choice(good, size=a.shape), a)
                if p.meta.get("symm"):  # stay inside the precondition
                    i, j = p.meta["symm"]
                    a = np.triu(np.moveaxis(a, (i, j), (-2, -1)))
                    a = np.moveaxis(a + np.swapaxes(np.triu(a, 1), -1, -2), (-2, -1), (i, j))
        arrays[p.name] = a.astype(TORCH2NP[p.dtype])
    pos = arrays.get("pos")
    if pos is not None and pos.ndim > 1 and pos.shape[-2] > 1:
        if k % 5 == 4:  # an extended system
            arrays["pos"] = pos = (pos * rng.choice([2.0, 4.0])).astype(pos.dtype)
        cuts = [c for c in arrays if c in ("cut", "c2", "c3") and np.ndim(arrays[c]) == 0]
        if cuts and k % 3 == 1:  # a cutoff just above or below a pair distance
            flat = pos.reshape(-1, *pos.shape[-2:]).astype(float)
            for c in cuts:
                x = flat[int(rng.integers(0, len(flat)))]
                i, j = rng.choice(len(x), size=2, replace=False)
                d = float(np.linalg.norm(x[i] - x[j]))
                if d > 0 and not (scn.dtype == "f32" and np.abs(x).max() > 60):
                    near = [-0.2, -5e-3, 5e-3, 0.03] + ([] if scn.dtype == "f32" else [-5e-4, 5e-4])
                    arrays[c] = np.asarray(d * (1 + rng.choice(near)), dtype=arrays[c].dtype)
    return sizes, arrays


# directed values beyond these overflow in the floating-point evaluation
CAP = {("q", "f32"): 20, ("q", "f64"): 50,
       ("ga", "f32"): 6, ("gc", "f32"): 6, ("ga", "f64"): 12, ("gc", "f64"): 12,
       ("p_bet", "f32"): 10, ("p_alp", "f32"): 40, ("dd", "f32"): 50, ("rr", "f32"): 50,
       ("p_bet", "f64"): 60, ("p_alp", "f64"): 100, ("dd", "f64"): 1e3, ("rr", "f64"): 1e3}


def directed(name, dtype, v):
    """Is this literal of the changed code a value to try for this input?  Values far
    from any physical magnitude would only show overflow and rounding."""
    if v == 0:
        return True
    if abs(v) < (1e-9 if dtype == "f32" else 1e-13):
        return False
    return abs(v) <= CAP.get((name, dtype), 1e4 if name in ("cut", "c2", "c3") else 70 if dtype == "f32" else 250)


def place(a, rng, vals):
    """Put one pair of atoms at an interesting distance."""
    vals = [v for v in vals if 0.05 <= v <= 200]
    if not vals or a.shape[-2] < 2:
        return a
    a = a.copy()
    flat = a.reshape(-1, *a.shape[-2:])
    for r in flat:
        d = r[1] - r[0]
        nrm = np.linalg.norm(d)
        if nrm > 0:
            v = float(rng.choice(vals))
            if v.is_integer() and np.all(r[0] == np.round(r[0])):
                new = r[0] + np.array([v, 0, 0])  # exactly representable
            else:
                new = r[0] + d / nrm * v * (1 + rng.choice([1e-3, -1e-3, 0.02, -0.02, -0.3]))
            if len(r) <= 2 or np.linalg.norm(r[2:] - new, axis=1).min() > min(1.0, v):
                r[1] = new
    return flat.reshape(a.shape)


def to_torch(scn, arrays):
    env = {}
    for p in scn.inputs:
        env[p.name] = torch.tensor(arrays[p.name], dtype=p.dtype)
    return env


def numenv(scn, arrays, sizes):
    a = {k: (v.astype(np.float64) if v.dtype == np.float32 else v) for k, v in arrays.items()}
    if scn.derive is not None:
        a.update(scn.derive(a, sizes))
    return ir.NumEnv(a, sizes)


def eval_spec(term_fn, dims, env, sizes):
    shape = tuple(sizes[d] if isinstance(d, str) else d for d in dims)
    vs = [ivar(f"ix{k}") for k in range(len(dims))]
    axes = {}
    for k, v in enumerate(vs):
        axes[v] = np.arange(shape[k]).reshape((1,) * k + (shape[k],) + (1,) * (len(dims) - k - 1))
    t = term_fn(*vs)
    r = ir.evaluate(t, env, axes)
    return np.broadcast_to(np.asarray(r, dtype=float), shape)


def flatten_result(res, outs):
    if len(outs) == 1 and outs[0].pick is None:
        return [res]
    return [o.pick(res) if o.pick is not None else res[k] for k, o in enumerate(outs)]


def close(got, want, rtol, atol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    bad_g, bad_w = ~np.isfinite(got), ~np.isfinite(want)
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
    ok = ok | (np.isnan(got) & np.isnan(want)) | ((got == want) & bad_g)
    ok = ok | bad_w  # the oracle itself left the representable range
    return bool(ok.all())


def tolerances(scn, want):
    fin = np.abs(want[np.isfinite(want)]) if np.size(want) else np.zeros(0)
    sc = float(fin.max()) if fin.size else 0.0
    if scn.dtype == "f32":
        return (scn.rtol or 2e-4), 2e-5 * sc + (scn.atol or 1e-30)
    return (scn.rtol or 1e-8), 1e-11 * sc + (scn.atol or 1e-200)


def resolved(scn, arrays, rt):
    """The dependency forms distances as x^2 + y^2 - 2xy; inputs whose distances
    have lost too many digits that way are not compared."""
    pos, Z = arrays.get("pos"), arrays.get("Z")
    if pos is None or Z is None or np.shape(pos)[:-1] != np.shape(Z) or np.ndim(Z) < 1 or np.shape(Z)[-1] < 2:
        return True
    x = np.asarray(pos, float)
    d2 = ((x[..., :, None, :] - x[..., None, :, :]) ** 2).sum(-1)
    n2 = (x * x).sum(-1)
    s = n2[..., :, None] + n2[..., None, :]
    m = (np.asarray(Z) > 0)[..., :, None] & (np.asarray(Z) > 0)[..., None, :] & ~np.eye(np.shape(Z)[-1], dtype=bool)
    if not m.any():
        return True
    eps = 1.2e-7 if scn.dtype == "f32" else 2.3e-16
    with np.errstate(all="ignore"):
        k = np.where(m, s / d2, 0.0).max()
    return bool(20 * eps * k < rt)


def pack(arrays):
    return {k: {"dtype": str(v.dtype), "shape": list(v.shape), "data": np.asarray(v).reshape(-1).tolist()} for k, v in arrays.items()}


def concrete_case(scn, sizes, arrays):
    """None if the real code satisfies the contract on this input, else text."""
    env = numenv(scn, arrays, sizes)
    with np.errstate(all="ignore"):
        for c in scn.pre:
            v = ir.evaluate(c, env, {})
            if not bool(np.all(v)):
                return "skip"
        if scn.conc_ok is not None and not scn.conc_ok(env.arrays, sizes):
            return "skip"
        if not resolved(scn, arrays, tolerances(scn, np.zeros(1))[0]):
            return "skip"
        want_exc = None
        for c, e in scn.raises:
            if bool(np.all(ir.evaluate(c, env, {}))):
                want_exc = e
                break
    tenv = to_torch(scn, arrays)
    before = {k: v.clone() for k, v in tenv.items()}
    try:
        res = scn.call(tenv)
        exc = None
    except Unsupported:
        raise
    except Exception as e:
        exc = e
    if want_exc is not None:
        if exc is None:
            return f"expected {want_exc.__name__}, but the call returned"
        if not isinstance(exc, want_exc):
            return f"expected {want_exc.__name__}, got {type(exc).__name__}: {exc}"
        return None
    if exc is not None:
        return f"unexpected {type(exc).__name__}: {exc}"
    for k, v in tenv.items():
        if not torch.equal(v, before[k]) and not (torch.isnan(v) == torch.isnan(before[k])).all():
            return f"argument {k} was modified"
    got = flatten_result(res, scn.outs)
    for o, g in zip(scn.outs, got):
        if o.spec is None:
            continue
        if not isinstance(g, torch.Tensor):
            return f"{o.name}: result is not a tensor"
        shape = tuple(sizes[d] if isinstance(d, str) else d for d in o.dims)
        if tuple(g.shape) != shape:
            return f"{o.name}: shape {tuple(g.shape)} instead of {shape}"
        want = eval_spec(o.spec, o.dims, env, sizes)
        rt, at = tolerances(scn, want)
        gg = g.detach().cpu().double().numpy()
        if not close(gg, want, rt, at):
            with np.errstate(all="ignore"):
                d = np.abs(gg - want)
                w = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(want), np.nan_to_num(d, nan=np.inf), -1.0))), d.shape) if d.size else ()
            return f"{o.name}{list(map(int, w))}: got {gg[w]!r}, contract requires {float(want[w])!r}"
    return None


def run_concrete(rep: Report, scn: Scenario, count, pool=None, stop_first=True, tag="", salt=0):
    rng = np.random.default_rng([rep.seed, salt, abs(hash_str(scn.name)) % (2 ** 31)])
    t_end = time.time() + (25 if rep.tier == "quick" else 90)
    pool = pool or Pool()
    found = False
    for k in range(count):
        if rep.left() < 20 or time.time() > t_end:
            rep.notes.append(f"{scn.name}: concrete search cut short by the time budget")
            break
        sizes, arrays = sample_env(scn, rng, pool, k)
        try:
            r = concrete_case(scn, sizes, arrays)
        except Unsupported as e:
            rep.notes.append(f"{scn.name}: concrete run not possible: {e}")
            break
        if r == "skip":
            continue
        rep.concrete += 1
        if any(v.size > 1 for v in arrays.values()):
            rep.concrete_nontrivial += 1
        if r is not None:
            found = True
            rep.fail_input(f"{scn.name}", r, {"scenario": scn.name, "function": scn.func, "sizes": sizes, "inputs": pack(arrays),
                                              "observed": r, "seed": rep.seed, "case": k})
            if stop_first:
                break
        elif len(rep.samples) < 3:
            rep.samples.append({"scenario": scn.name, "sizes": sizes,
                                "inputs": {a: np.round(v.reshape(-1)[:6].astype(float), 4).tolist() for a, v in arrays.items()}})
    return found


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0x7FFFFFFF
    return h


# ------------------------------------------------------------------- proof --


def leaf_witness(scn, failure, rng, pool, tries=40):
    """Numeric search at the failed leaf.  Returns 'refuted', 'agree' or
    'none' (no sample satisfied the leaf's facts)."""
    a, b, facts = failure.a, failure.b, failure.facts
    terms = [a, b] + list(facts)
    sizes_names = scn.usedims()
    free = set()
    for t in terms:
        free |= set(fv(t))
    free = [v for v in sorted(free, key=lambda q: q.data) if v.data not in sizes_names]
    rng_of = {}
    for f in facts:
        if f.op == "not" and f.args[0].op == "le":
            n, v = f.args[0].args
            if v in free:
                rng_of.setdefault(v, n)
    pool2 = Pool()
    pool2.vals = {k: list(v) for k, v in pool.vals.items()}
    pool2.harvest(*facts)
    pool2.sizes = size_models(scn, facts)
    if pool2.sizes:
        pool2.force = True
        tries = 8
    hits = 0
    worst = None
    for k in range(tries):
        sizes, arrays = sample_env(scn, rng, pool2, k)
        env = numenv(scn, arrays, sizes)
        env.arrays.update({nm: ALWAYS[nm] for nm in ALWAYS if nm not in env.arrays})
        try:
            axes = {}
            for q, v in enumerate(free):
                n = rng_of.get(v)
                m = int(ir.evaluate(n, env, {})) if n is not None and not (set(fv(n)) & set(free)) else 4
                axes[v] = np.arange(m).reshape((1,) * q + (m,) + (1,) * (len(free) - q - 1))
            ok = np.bool_(True)
            with np.errstate(all="ignore"):
                for f in facts:
                    ok = np.logical_and(ok, ir.evaluate(f, env, axes))
                if not np.any(ok):
                    continue
                if b is TRUE:
                    va, vb = np.asarray(ir.evaluate(a, env, axes)), np.bool_(True)
                    bad = np.logical_and(ok, np.logical_not(va))
                else:
                    va = np.asarray(ir.evaluate(a, env, axes), dtype=float)
                    vb = np.asarray(ir.evaluate(b, env, axes), dtype=float)
                    sc = np.maximum(np.abs(va), np.abs(vb))
                    tol = 1e-7 if scn.dtype == "f64" else 2e-4
                    bad = np.logical_and(ok, ~(np.abs(va - vb) <= tol * sc + 1e-13))
                    bad = np.logical_and(bad, np.isfinite(vb))
                hits += int(np.sum(ok))
                if np.any(bad):
                    return "refuted", hits
        except (KeyError, IndexError, ValueError, TypeError) as e:
            worst = e
            continue
    return ("agree" if hits else "none"), hits


ALWAYS: dict = {}


def record(rep, scn, name, res, t0, pool, rng):
    dt = time.time() - t0
    if res is True:
        rep.ok(name, seconds=dt)
        return True
    why = res.text()
    hard = res.why.startswith(("time limit", "case split", "expression too large"))
    w, hits = leaf_witness(scn, res, rng, pool)
    if w == "refuted":
        rep.refuted(name, f"counter-model at the failed leaf\n{why}")
    elif w == "agree" or hard:
        rep.undecided(name, f"not proved; {hits} sampled points of the failed leaf agree\n{why}")
    else:
        rep.refuted(name, f"not proved; no sampled point reaches the failed leaf\n{why}")
    return False


def value_term(t, scn, marks=True):
    if marks:
        t = ir.strip_marks(t)
    for p in scn.positions:
        t = abstract_distances(t, p, "dist" if p == "pos" else "dist_" + p)
    return t


def run_proof(rep: Report, scn: Scenario, extra=None):
    """Symbolic execution of the real code and discharge of the contract.
    Returns the list of paths (or None when out of reach)."""
    rep.functions.add(scn.func)
    prove.precision(scn.dtype)
    env = scn.symenv()
    facts = scn.dimfacts() + scn.pre
    eng = Engine(dtype=DT[scn.dtype], axioms=dict(scn.axioms), facts=facts, cdist_stub=scn.stub_cdist, max_paths=scn.max_paths)
    rng = np.random.default_rng([rep.seed, 7, abs(hash_str(scn.name)) % (2 ** 31)])
    pool = Pool()
    scn.pool = pool
    t0 = time.time()
    torch_state = torch.is_grad_enabled()
    try:
        paths = eng.explore(lambda: scn.call(env))
    except Unsupported as e:
        rep.unsupported(f"{scn.name}:symbolic-execution", e)
        return None
    except RecursionError as e:
        rep.unsupported(f"{scn.name}:symbolic-execution", "recursion limit")
        return None
    finally:
        torch.set_grad_enabled(torch_state)
    feas = [p for p in paths if eng.prover.feasible(p.facts)]
    rep.paths += len(feas)
    if not feas:
        rep.refuted(f"{scn.name}:vacuity", "no feasible path: the precondition is contradictory")
        return paths
    pr = Prover(axioms=scn.axioms, timeout=4000, deadline=rep.limit(120, 20))
    for k, p in enumerate(feas):
        tag = f"{scn.name}" if len(feas) == 1 else f"{scn.name}#path{k}"
        t0 = time.time()
        if len(feas) > 1:
            pool.sizes += size_models(scn, p.facts)
        if p.kind == "raise":
            exc = p.value
            cond = bor(*[c for c, e in scn.raises if isinstance(exc, e)]) if scn.raises else FALSE
            r = pr.valid(cond, p.facts)
            nm = f"{tag}:raises-{type(exc).__name__}"
            if r is True:
                rep.ok(nm, seconds=time.time() - t0)
            else:
                tb = traceback.format_exception_only(type(exc), exc)
                rep.refuted(nm, f"raises {''.join(tb)[:400]} where the contract requires a result\n{getattr(r, 'text', lambda: r)()}")
            continue
        if scn.raises:
            cond = bnot(bor(*[c for c, _ in scn.raises]))
            r = pr.valid(cond, p.facts)
            record(rep, scn, f"{tag}:returns-only-if-valid", r, t0, pool, rng)
        writes = [w for w in p.writes]
        if writes:
            rep.refuted(f"{tag}:frame", f"writes to its argument(s) {sorted(set(writes))}")
        got = flatten_result(p.value, scn.outs)
        for o, g in zip(scn.outs, got):
            if o.spec is None:
                continue
            nm = f"{tag}:{o.name}"
            t0 = time.time()
            try:
                check_out(rep, scn, pr, p, o, g, nm, pool, rng)
            except Unsupported as e:
                rep.unsupported(nm, e)
            except RecursionError:
                rep.unsupported(nm, "recursion limit")
    return feas


def closed_binders(t):
    """Reductions that do not depend on an enclosing bound variable."""
    out = []
    for x in subterms(t):
        if x.op in ir.BINDERS and not any(v.data.startswith("#") for v in fv(x)):
            out.append(x)
    return out


def unify_binders(pr, impl, spec, facts, also=None):
    """Rewrite reductions of the specification into provably equal ones of the
    implementation (so that conditions on them are decided together)."""
    conds = {x.id for t in (impl, spec) for c in subterms(t) if c.op in ("eq", "le", "div", "pow", "fun") for x in closed_binders(c)}
    bi = {x.id: x for x in closed_binders(impl)}
    for y in closed_binders(spec):
        if y.id in bi or y.id not in conds:
            continue
        for x in bi.values():
            if x.op != y.op or x.sort != y.sort or x.id not in conds:
                continue
            if x.args[1] is not y.args[1]:
                continue
            if fv(x) != fv(y):
                continue
            pr.count = 0
            if pr._cong(x, y, list(facts)) is True:
                spec = replace(spec, lambda z: x if z is y else None)
                if also is not None:
                    also[:] = [replace(f, lambda z: x if z is y else None) for f in also]
                break
    return spec


def check_out(rep, scn, pr, p, o, g, nm, pool, rng):
    t0 = time.time()
    if not isinstance(g, torch.Tensor):
        rep.refuted(nm + ":type", f"result is a {type(g)}")
        return
    with sym.active(Engine(dtype=DT[scn.dtype], facts=p.facts, axioms=scn.axioms)):
        g = sym.lift(g)
        shape = g._shape
        want = tuple(SymInt(ivar(d)) if isinstance(d, str) else d for d in o.dims)
        bad = len(shape) != len(want)
        if not bad:
            for a, b in zip(shape, want):
                ta, tb = sym.dimterm(a), sym.dimterm(b)
                if ta is not tb and not pr.entails(p.facts, eq(ta, tb)):
                    bad = True
        if bad:
            rep.refuted(nm + ":shape", f"shape {tuple(shape)} instead of {want}")
            return
        dt = o.dtype or DT[scn.dtype]
        if g._dtype != dt:
            rep.refuted(nm + ":dtype", f"dtype {g._dtype} instead of {dt}")
            return
        idx = [ivar(f"ix{k}") for k in range(len(want))]
        f2 = list(p.facts)
        for v, d in zip(idx, want):
            f2 += [le(I(0), v), lt(v, sym.dimterm(d))]
        impl = value_term(g.at(tuple(idx)), scn)
        spec = o.spec(*idx)
        extra = list(o.facts(*idx)) if o.facts else []
    pool.harvest(impl, spec)
    spec = unify_binders(pr, impl, spec, f2, also=extra)
    f2 += extra
    r = pr.equal(impl, spec, f2)
    o.impl = impl
    record(rep, scn, nm, r, t0, pool, rng)


# ------------------------------------------------------------------ driver --


def drive(rep: Report, scns, count=6, thorough=40, mustfail=1):
    """Prove every scenario, search for failing inputs, check vacuity."""
    from . import literals

    lits = literals.new_literals()
    for scn in scns:
        if callable(scn) and not isinstance(scn, Scenario):
            try:
                scn = scn()
            except Exception as e:
                rep.unsupported(f"{getattr(scn, '__name__', scn)}", f"cannot build: {type(e).__name__}: {e}")
                continue
        if rep.left() < 30:
            rep.notes.append(f"{scn.name}: skipped, time budget exhausted")
            rep.bounded.append(f"{scn.name}: not run (time)")
            continue
        if rep.enough():
            rep.notes.append(f"{scn.name}: skipped, violations already reported")
            continue
        n0 = len(rep.obs)
        n = count if rep.tier == "quick" else thorough
        pool = Pool()
        pool.extra = lits
        scn.symenv()  # declares the symbols used by the contract
        if run_concrete(rep, scn, n, pool):
            rep.functions.add(scn.func)
            rep.refuted(f"{scn.name}", "failing input found before the proof was attempted")
            continue
        try:
            run_proof(rep, scn)
            pool = scn.pool
        except Exception as e:  # an engine limitation is never a verdict
            rep.unsupported(f"{scn.name}:engine", f"{type(e).__name__}: {e} {traceback.format_exc()[-400:]}")
        pool.extra = lits
        bad = [o for o in rep.obs[n0:] if o.status != "discharged"]
        run_concrete(rep, scn, 25 * n if bad else (n + 1) // 2, pool, tag="directed", salt=1)
        if mustfail and not bad:
            mustfail -= 1
            must_fail(rep, scn)


def must_fail(rep, scn):
    """Vacuity check: a wrong postcondition has to be rejected."""
    outs = [o for o in scn.outs if o.spec is not None and o.dtype not in (torch.bool, torch.int64)]
    if not outs:
        return
    o = outs[0]
    orig = o.spec
    rep2 = Report(rep.pid, rep.seed, rep.tier, 60)
    o.spec = lambda *ix: ir.add(orig(*ix), R(Fraction(1, 1000)))
    try:
        run_proof(rep2, scn)
    except Exception:
        return
    finally:
        o.spec = orig
    rep.mustfail[0] += 1
    if any(b.status in ("refuted", "undecided") for b in rep2.obs):
        rep.mustfail[1] += 1
    else:
        rep.refuted(f"{scn.name}:vacuity", "a deliberately wrong postcondition was accepted")


def lemma(rep, name, a, b=None, facts=(), axioms=None, dtype="f64", timeout=60):
    """Lemma over the contracts: equality a == b, or validity of a."""
    prove.precision(dtype)
    pr = Prover(axioms=axioms or {}, timeout=4000, deadline=time.time() + timeout)
    t0 = time.time()
    if b is not None:
        b = unify_binders(pr, a, b, list(facts))
        r = pr.equal(a, b, list(facts))
    else:
        r = pr.valid(a, list(facts))
    if r is True:
        rep.ok("lemma " + name, seconds=time.time() - t0)
        return True
    rep.undecided("lemma " + name, r.text())
    return False
