"""C19 purity: frame conditions and independence of history."""
import itertools
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import torch

from .. import e2e, frame, whole
from ..mspecs import *
from ..scen import Out, Scenario
from ..stubs import Eeq, StubModel, patched
from . import c03, c13, c16, c17, c22

# ----------------------------------------------------------------- contracts --


def scenarios(tier):
    cfg = ((0, "f64"), (1, "f64"), (1, "f32")) if tier == "quick" else tuple(itertools.product((0, 1, 2), ("f64", "f32")))
    for r, dt in cfg:
        for mk in e2e.makers():
            yield lambda mk=mk, r=r, dt=dt: mk(r, dt)
        for d in c22.PN:
            yield lambda r=r, dt=dt, d=d: c22.full(r, dt, d)
        for t in ("D4ATMExact", "D3ATM"):
            yield lambda r=r, dt=dt, t=t: c22.full(r, dt, "RationalDamping", t, "Disp")
        for api in ("dftd4", "Disp"):
            yield lambda r=r, dt=dt, api=api: c17.with_eeq(r, dt, api)
        yield lambda r=r, dt=dt: c17.props(r, dt)
        for cls, a, b in (("D4Model", 1, 1), ("D4SModel", 0, 1)):
            yield lambda cls=cls, r=r, dt=dt, a=a, b=b: c16.scen16(cls, r, dt, a, b)
    for s in c03.scenarios(tier):
        yield lambda s=s: s() if callable(s) and not isinstance(s, Scenario) else s


def calculator(rank, dt, model, least=False):
    """One calculator, parameter dictionary and cutoff object used twice."""
    s = c22.full(rank, dt, "RationalDamping")
    names = {p.name for p in s.inputs}
    F = DT[dt]

    def build(env):
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.dispersion import DispD4
        from tad_dftd4.dispersion.d4 import DispD4Exact
        cur = {}
        cls = DispD4Exact if model == "exact" else DispD4
        m = StubModel(None, None) if model == "stub" else None
        d = cls(model=m if m is not None else "d4", cn_fn=lambda numbers, positions, **k: cur["env"]["cn"], dtype=F)
        param = {k: env["p_" + k] for k in (("s8", "a1", "a2") if least else ("s6", "s8", "a1", "a2", "s9", "alp"))}
        if not least:
            param["doi"] = "10.1063/5.0049969"  # an entry the calculation does not use
        cut = Cutoff(disp2=env["cut2"] if "cut2" in names else 60.0, disp3=env["cut3"] if "cut3" in names else 40.0, dtype=F)
        return {"calculator": d, "param": param, "cutoff": cut, "model": m, "env": cur}

    def use(o, env):
        o["env"]["env"] = env
        if o["model"] is not None:
            o["model"].c6 = env["c6"]
        r = o["calculator"].calculate(env["Z"], env["pos"], torch.zeros((), dtype=F), o["param"], q=env["q"], cutoff=o["cutoff"])
        o["env"].pop("env")
        if o["model"] is not None:
            o["model"].c6 = None
            o["model"].calls.clear()
        return r

    s.name = f"calculator used twice[{model},rank{rank},{dt},{'defaults' if least else 'all parameters'}]"
    s.outs = [Out("energy", (*BATCH[rank], "n"), None)]
    s.raises = []
    return s, build, use


def model_object(rank, dt, cls, ch):
    s = e2e.model_props(rank, dt, cls, "c6", ch)

    def build(env):
        from tad_dftd4 import model
        return {"model": getattr(model, cls)(env["Z"], dtype=DT[dt], ref_charges=ch)}

    def use(o, env):
        m = o["model"]
        w = m.weight_references(env["cn"], env["q"])
        m.weight_references(env["cn"], env["q"], with_dgwdq=True)
        if cls == "D4Model":
            m.get_polarizabilities(w)
            m.get_weighted_pols(w)
        return m.get_atomic_c6(w)

    s.name = f"{cls} used twice[rank{rank},{dt},{ch}]"
    return s, build, use


def object_scenarios(tier):
    ranks = (0, 1) if tier == "quick" else (0, 1, 2)
    for r in ranks:
        for m in ("stub", "d4", "exact"):
            yield lambda r=r, m=m: calculator(r, "f64", m)
            yield lambda r=r, m=m: calculator(r, "f64", m, True)
        for cls, ch in itertools.product(("D4Model", "D4SModel"), ("eeq", "gfn2")):
            yield lambda r=r, cls=cls, ch=ch: model_object(r, "f64", cls, ch)


# ------------------------------------------------------------------ concrete --

def systems():
    """A few systems of equal shape, so that calls resemble each other."""
    rng = np.random.default_rng(2024)
    out = []
    for z in ([6, 1, 1, 8], [6, 1, 1, 8], [8, 1, 1, 6], [14, 17, 1, 9], [1, 1, 8, 6]):
        x = np.array([[0, 0, 0], [0, 0, 2.3], [2.2, 0, 0.4], [-1.6, 2.0, 0.7]]) + rng.uniform(-0.3, 0.3, size=(4, 3))
        out.append((np.array(z), x))
    return out


class World:
    """Long-lived objects a user might keep between calls."""

    def __init__(self):
        self.calc, self.models, self.cut, self.params, self.tensors = {}, {}, {}, {}, {}

    def get(self, table, key, make):
        t = getattr(self, table)
        if key not in t:
            t[key] = make()
        return t[key]


KINDS = ("dftd4", "dftd4", "calc", "calc", "props", "model", "model", "twobody", "atm", "damping", "params", "bad", "inplace", "instance")


def call(world, seed, i, fresh=False):
    """The i-th call of a history; the result only depends on (seed, i)."""
    import tad_dftd4 as d4
    from tad_dftd4 import model as M
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.damping import functions as dfun
    from tad_dftd4.dispersion import DispD4
    from tad_dftd4.dispersion import d3 as D3
    from tad_dftd4.dispersion.d4 import DispD4Exact
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import dispersion2
    from tad_mctc.ncoord import exp_count

    rng = np.random.default_rng([seed, i])
    f = torch.float64 if rng.random() < 0.75 else torch.float32
    S = systems()
    k = int(rng.integers(0, len(S)))
    batch = bool(rng.random() < 0.3)
    if batch:
        k2 = int(rng.integers(0, len(S)))
        z, x = np.stack([S[k][0], S[k2][0]]), np.stack([S[k][1], S[k2][1]])
        if rng.random() < 0.5:
            z[1, 3], x[1, 3] = 0, 0
    else:
        z, x = S[k]
        nn = int(rng.choice([4, 4, 4, 3, 2, 2, 1]))
        z, x = z[:nn], x[:nn]
    Z, X = torch.tensor(z), torch.tensor(x, dtype=f)
    n = Z.shape[-1]
    t = lambda a: torch.tensor(a, dtype=f)
    pk = int(rng.integers(0, 3))
    vals = [dict(whole.PARAM), {**whole.PARAM, "s8": 1.3, "a1": 0.45}, {**whole.PARAM, "s9": 0.0, "a2": 4.1}][pk]
    dn = str(rng.choice(list(c17.DAMPS)))
    vals = {**vals, "rs6": 1.1, "rs8": 1.0, **c17.DAMPS[dn]}
    dk = int(rng.integers(0, 4))
    for a in ((), ("s6",), ("s9", "alp"), ("s6", "s9", "alp"))[dk]:
        vals.pop(a)
    keep = bool(rng.random() < 0.6) and not fresh
    note = {"doi": "10.1063/5.0049969"} if pk == 1 else {}
    mkparam = lambda: {**{a: t(v) for a, v in vals.items()}, **note}
    param = world.get("params", (pk, dn, f, dk), mkparam) if keep else mkparam()
    ck = int(rng.integers(0, 5))
    mkcut = lambda: [lambda: None, lambda: Cutoff(disp2=4.5, disp3=4.2, dtype=f), lambda: Cutoff(cn_eeq=3.0, disp3=3.0, dtype=f),
                     lambda: Cutoff(disp2=3.0, disp3=50.0, dtype=f), lambda: Cutoff(disp2=100.0, disp3=70.0, cn=50.0, cn_eeq=40.0, dtype=f)][ck]()
    cut = world.get("cut", (ck, f), mkcut) if keep else mkcut()
    ch = t(rng.choice([-1.0, 0.0, 1.0], size=Z.shape[:-1]))
    q = t(rng.uniform(-0.3, 0.3, size=Z.shape)) if rng.random() < 0.5 else None
    cn = t(rng.uniform(0, 4, size=Z.shape))
    kind = str(rng.choice(KINDS))
    mname = str(rng.choice(["d4", "d4s"]))
    ref = str(rng.choice(["eeq", "gfn2"]))
    wf = float(rng.choice([6.0, 4.0]))
    ga = float(rng.choice([3.0, 2.0]))
    damp = getattr(dfun, dn)()
    X.requires_grad_(bool(rng.random() < 0.3))
    args = {"numbers": Z, "positions": X, "charge": ch, "param": param, "cutoff": cut, "q": q, "cn": cn}
    kw = {} if q is None else {"q": q}
    r4 = t(rng.uniform(2, 5, size=Z.shape)) if rng.random() < 0.3 else None
    if r4 is not None:
        kw["r4r2"] = args["r4r2"] = r4
    u = rng.random()
    ek = int(rng.integers(0, 3))
    mkw = {"ga": ga, "ref_charges": ref} if ek < 2 else {"ga": ga}
    ckw = [None, {"counting_function": exp_count}, {}][ek]
    args.update(model_kwargs=mkw, cn_fn_kwargs=ckw)

    if kind == "instance":  # a model of the caller, used by several calls
        mcls = M.D4Model if u < 0.6 else M.D4SModel
        k4 = {"wf": wf} if u < 0.3 or u > 0.8 else {}
        mk4 = lambda: mcls(Z.clone(), ga=ga, ref_charges=ref, dtype=f, **k4)
        args["model"] = world.get("models", ("instance", mcls.__name__, str(z.tolist()), f, ga, ref, str(k4)), mk4) if keep else mk4()

    def go():
        if kind == "instance":
            m = args["model"]
            w = m.weight_references(cn, q)
            return [d4.dftd4(Z, X, ch, param, model=m, cutoff=cut, damping_function=damp, **kw),
                    (DispD4, DispD4Exact)[ek % 2](model=m, dtype=f, cn_fn_kwargs=ckw).calculate(Z, X, ch, param, cutoff=cut, **kw), w, m.get_atomic_c6(w)]
        if kind == "dftd4":
            return [d4.dftd4(Z, X, ch, param, model=mname, cutoff=cut, damping_function=damp, **kw)]
        if kind == "calc":
            cls = [DispD4, DispD4Exact, D3.DispD3BJ, D3.DispD3Zero][int(u * 4)]
            mk = lambda: cls(model=mname if cls is DispD4 else "d4", dtype=f, model_kwargs=mkw, cn_fn_kwargs=ckw)
            d = world.get("calc", (cls.__name__, mname, f, ga, ref, ek), mk) if keep else mk()
            args["calculator"] = d
            k2 = dict(kw)
            if cls in (D3.DispD3BJ, D3.DispD3Zero):
                k2.pop("q", None)
            return [d.calculate(Z, X, ch, param, cutoff=cut, **k2)]
        if kind == "props":
            return list(d4.get_properties(Z, X, ch, cutoff=cut))
        if kind == "model":
            cls = M.D4Model if u < 0.6 else M.D4SModel
            k3 = {"wf": wf} if cls is M.D4Model else {}
            mk = lambda: cls(Z.clone(), ga=ga, ref_charges=ref, dtype=f, **k3)
            m = world.get("models", (cls.__name__, str(z.tolist()), f, ga, ref, wf), mk) if keep else mk()
            args["model"] = m
            if u > 0.9:
                return [*m.weight_references(cn, q, with_dgwdq=True), m.get_atomic_c6(m.weight_references(cn))]
            w = m.weight_references(cn, q)
            r = [w, m.get_atomic_c6(w), m.rc6]
            return r + ([m.get_polarizabilities(w), m.get_weighted_pols(w)] if cls is M.D4Model else [])
        c6 = t(np.add.outer(np.arange(n), np.arange(n)) * 3.0 + 10 + pk).expand(*Z.shape, n)
        rv = t(np.add.outer(np.arange(n), np.arange(n)) * 0.2 + 3).expand(*Z.shape, n)
        args.update(c6=c6, rvdw=rv)
        if kind == "twobody":
            rr = r4 if r4 is not None else t(np.full(Z.shape, 3.0))
            return [dispersion2(Z, X, param, c6, rr, cutoff=t(4.4 if u < 0.5 else 60.0), damping_function=damp, rvdw=rv, as_matrix=u > 0.7)]
        if kind == "atm":
            c9 = (c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3)).sqrt()
            ct = t(4.4 if u < 0.5 else 40.0)
            args.update(c9=c9, cut=ct)
            a = {m: param[m] for m in ("s9", "alp") if m in param} if u < 0.6 else {}
            return [get_atm_dispersion(Z, X, c9, rv, ct, **a)]
        if kind == "damping":
            order = int([6, 8][int(u * 2)])
            dd = rv + 0.4 * u
            args["distances"] = dd
            return [damp(dd, rv * 2, order, **param)]
        if kind == "params":
            fn, me = [("pbe", "d4"), ("b3lyp", "d4"), ("pbe", "d3"), ("pbe0", "d4")][int(u * 4)]
            p = d4.get_params(method=me, functional=fn, keep_doi=bool(u < 0.3))
            r = [torch.tensor(float(v) if isinstance(v, (int, float)) else float(len(str(v)))) for kk, v in sorted(p.items())]
            for kk in list(p):
                p[kk] = 7.0
            p["x"] = 1
            return r
        if kind == "bad":
            try:
                if u < 0.35:
                    d4.dftd4(Z, X, ch, param, q=torch.zeros((*Z.shape, 1), dtype=f), cutoff=cut)
                elif u < 0.7:
                    d4.dftd4(Z, X[..., :1, :], ch, param, cutoff=cut)
                else:
                    d4.dftd4(Z, X, ch, {a: b for a, b in param.items() if a != "a1"}, cutoff=cut)
            except Exception as e:
                return [torch.tensor(len(type(e).__name__))]
            return [torch.tensor(0)]
        if kind == "inplace":
            # the caller moves the atoms of the same tensor between two calls
            Y = X.detach().clone()
            N = Z.clone()
            r = [d4.dftd4(N, Y, ch, param, model=mname, cutoff=cut, **kw)]
            Y[..., 0, 0] += 0.25
            r.append(d4.dftd4(N, Y, ch, param, model=mname, cutoff=cut, **kw))
            N[..., 0] = 7
            r.append(d4.dftd4(N, Y, ch, param, model=mname, cutoff=cut, **kw))
            r.append(d4.get_properties(N, Y, ch)[2])
            return r
        raise KeyError(kind)

    info = {"call": kind, "Z": z.tolist(), "positions": np.asarray(x).tolist(), "dtype": str(f), "model": mname, "damping": dn, "param": vals,
            "charge": ch.tolist(), "q": None if q is None else q.tolist(), "cutoff": ["default", "disp2=4.5, disp3=4.2", "cn_eeq=3, disp3=3", "disp2=3, disp3=50", "disp2=100, disp3=70, cn=50, cn_eeq=40"][ck],
            "ref_charges": ref, "wf": wf, "ga": ga, "long-lived objects": keep, "cn": cn.tolist()}
    def graded():
        with torch.set_grad_enabled(bool(u < 0.9)):
            r = go()
            if torch.is_grad_enabled() != bool(u < 0.9):
                info["modes"] = "the gradient mode of the caller"
            return r

    return args, graded, info


def worker(seed, order, path):
    world = World()
    res = {}
    for i in order:
        try:
            args, go, info = call(world, seed, i)
            r = [a.detach().double().numpy() for a in go()]
        except Exception as e:
            r = f"{type(e).__name__}: {e}"
            info = {"call": i}
        res[i] = (r, info)
    with open(path, "wb") as fh:
        pickle.dump(res, fh)


def spawn(seed, order, path):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = [p for p in sys.path if os.path.isdir(os.path.join(p, "tad_dftd4"))]
    code = ("import sys; sys.dont_write_bytecode=True; sys.pycache_prefix=%r; sys.path[:0]=%r; import warnings; warnings.simplefilter('ignore'); import torch; torch.set_num_threads(1);"
            "from vf.props import c19; c19.worker(%d, %r, %r)" % (sys.pycache_prefix, [here, *src[:1]], seed, list(order), path))
    return subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def histories(rep, count, salt=0):
    """The same calls in different orders, in separate processes."""
    rng = np.random.default_rng([rep.seed, 19, salt])
    seed = int(rng.integers(1, 10 ** 6))
    orders = [list(range(count)), list(range(count))[::-1], [int(i) for i in rng.permutation(count)], [int(i) for i in rng.permutation(count)]]
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        ps = [spawn(seed, o, os.path.join(d, f"{k}.pkl")) for k, o in enumerate(orders)]
        res = []
        for k, p in enumerate(ps):
            try:
                _, err = p.communicate(timeout=max(30, min(240, rep.left() - 20)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rep.notes.append("history process timed out")
                continue
            f = os.path.join(d, f"{k}.pkl")
            if os.path.exists(f):
                res.append((orders[k], pickle.load(open(f, "rb"))))
            else:
                rep.notes.append("history process failed: " + err.decode()[-300:])
    if len(res) < 2:
        rep.notes.append("histories: fewer than two processes finished")
        return
    o0, r0 = res[0]
    for o1, r1 in res[1:]:
        for i in range(count):
            rep.concrete += 1
            (a, info), (b, _) = r0[i], r1[i]
            what = None
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, str) != isinstance(b, str) or a.split(":")[0] != b.split(":")[0]:
                    what = f"{a if isinstance(a, str) else 'a result'} against {b if isinstance(b, str) else 'a result'}"
            else:
                if len(a) != len(b):
                    what = f"{len(a)} values against {len(b)}"
                for u, v in zip(a, b):
                    if what:
                        break
                    if u.shape != v.shape or not np.allclose(u, v, rtol=1e-9 if "64" in info.get("dtype", "") else 1e-4, atol=1e-13 if "64" in info.get("dtype", "") else 1e-8, equal_nan=True):
                        e = np.abs(u - v) if u.shape == v.shape else np.zeros(1)
                        what = f"{u.reshape(-1)[int(e.argmax())]!r} against {v.reshape(-1)[int(e.argmax())]!r}"
                        break
            if what:
                rep.fail_input("history", f"{info.get('call')}: the result depends on the calls made before: {what}",
                               {"call": info, "index": i, "order A": o0[:o0.index(i) + 1], "order B": o1[:o1.index(i) + 1], "history seed": seed, "observed": what,
                                "how": "vf.props.c19.worker(seed, order, path) in two fresh processes"})
                return
    rep.concrete_nontrivial += count
    rep.bounded.append(f"histories: {count} calls in {len(res)} orders, one process each")


def purity(rep, rng):
    """No call changes its arguments, long-lived objects or the library."""
    world = rep.__dict__.setdefault("_world", World())
    seed, i = int(rng.integers(1, 10 ** 6)), int(rng.integers(0, 10 ** 6))
    args, go, info = call(world, seed, i)
    objs = [args]
    a = frame.state(*objs)
    rs = torch.get_rng_state()
    try:
        go()
        k0 = None
    except Exception as e:
        k0 = e
    if info.pop("modes", None):
        return f"{info['call']} changes the gradient mode of the caller", info
    b = frame.state(*objs)
    new = {k for k in b if k not in a}
    c = [x for x in frame.changes(a, b) if x.split(": ")[0] not in new]
    c = [x for x in c if not x.startswith("argument 0: ")]
    arg = [x for x in c if x.startswith("argument 0") or x.startswith("torch") or any(x.startswith(p) for p in frame.PROTECTED) or ".TERMS" in x]
    if arg:
        return f"{info['call']} modifies {arg[0]}", info
    if not torch.equal(rs, torch.get_rng_state()):
        return f"{info['call']} consumes the global random number state", info
    if c or any(not k.startswith("argument 0") for k in new):
        rep._suspicious = True
        rep.notes.append(f"library state changes: {(c or sorted(new))[:3]}"[:300])
    # objects fetched inside the call (calculator, model)
    args2, go2, _ = call(world, seed, i)
    a = frame.values(args)
    try:
        go2()
    except Exception:
        pass
    c = frame.changes(a, frame.values(args))
    if c:
        return f"{info['call']} modifies {c[0]}", info
    return None, info


def rejected(calc, args, rng):
    """A call that fails, of which nothing may be left."""
    Z, X, ch, param = args
    f = X.dtype
    k = int(rng.integers(0, 5))
    try:
        if k == 0:
            calc.calculate(Z, X, ch, param, q=torch.zeros((*Z.shape, 1), dtype=f))
        elif k == 1:
            calc.calculate(Z, X[..., :-1, :], ch, param)
        elif k == 2:
            calc.calculate(Z, X, ch, {a: b for a, b in param.items() if a not in ("a1", "rs6")})
        elif k == 3:
            calc.calculate(Z, X, ch, param, r4r2=torch.zeros((*Z.shape, 1), dtype=f))
        else:
            calc.calculate(Z, X, ch, param, rvdw=torch.zeros(Z.shape, dtype=f))
    except Exception as e:
        return ["charges of a wrong shape", "positions of a wrong shape", "a missing parameter", "r4r2 of a wrong shape", "radii of a wrong shape"][k]
    return None


def reuse(rep, rng):
    """One calculator for a sequence of systems against a fresh one for each."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion import DispD4
    from tad_dftd4.dispersion import d3 as D3
    from tad_dftd4.dispersion.d4 import DispD4Exact
    f = torch.float64 if rng.random() < 0.8 else torch.float32
    cls = [DispD4, DispD4, DispD4Exact, D3.DispD3BJ, D3.DispD3Zero][int(rng.integers(5))]
    kw = dict(model=str(rng.choice(["d4", "d4s"])), dtype=f)
    if rng.random() < 0.4:
        kw["model_kwargs"] = {"ga": 2.0, "ref_charges": "gfn2"}
    old = cls(**kw)
    t = lambda a: torch.tensor(a, dtype=f)
    param = {k: t(v) for k, v in {**whole.PARAM, "rs6": 1.1, "rs8": 1.0, "rs9": 1.2}.items()}
    cut = Cutoff(disp2=8.0, disp3=6.0, dtype=f)
    S = systems()
    n = int(rng.integers(1, 5))
    seq = []
    for _ in range(5):
        if rng.random() < 0.5:
            n = int(rng.integers(1, 5))
        ks = rng.integers(0, len(S), size=2)
        if rng.random() < 0.3:
            z, x = np.stack([S[k][0][:n] for k in ks]), np.stack([S[k][1][:n] for k in ks])
        else:
            z, x = S[ks[0]][0][:n], S[ks[0]][1][:n]
        x = x * rng.uniform(0.9, 1.5)
        args = (torch.tensor(z), t(x), t(rng.choice([-1.0, 0.0, 1.0], size=z.shape[:-1])), param)
        k2 = {} if rng.random() < 0.5 else {"cutoff": cut}
        if cls in (DispD4, DispD4Exact) and rng.random() < 0.4:
            k2["q"] = t(rng.uniform(-0.3, 0.3, size=z.shape))
        seq.append(z.tolist())
        try:
            want = cls(**kw).calculate(*args, **k2)
        except Exception:
            continue
        info = {"calculator": cls.__name__, "settings": {a: str(b) for a, b in kw.items()}, "systems so far": seq, "positions": x.tolist()}
        if rng.random() < 0.5:
            how = rejected(old, args, rng)
            if how:
                seq.append(f"(a rejected call: {how})")
        try:
            got = old.calculate(*args, **k2)
        except Exception as e:
            return f"{cls.__name__} used for the systems {seq}: the last call raises {type(e).__name__}: {e}", info
        if got.shape != want.shape or not torch.allclose(got, want, rtol=1e-9 if f == torch.float64 else 1e-4, atol=1e-13 if f == torch.float64 else 1e-8):
            return f"{cls.__name__} used for the systems {seq}: the last result {got.tolist()} differs from a fresh calculator's {want.tolist()}", info
    return None, None


def lookups(rep):
    """Looked-up parameter sets are copies: complete over the collection."""
    import json
    import tad_dftd4 as d4
    from .c20 import GOLD
    gold = json.load(open(GOLD))
    todo = []
    for meth, table in gold.items():
        for func, sec in table["parameter"].items():
            for var in sec.get(meth, {}):
                todo.append(dict(method=meth, functional=func, variant=var))
            todo.append(dict(method=meth, functional=func))
        todo += [dict(method=meth, functional=None), dict(method=meth, functional="default")]
        todo += [dict(method=meth, functional=None, variant=v) for v in table["default"][meth]]
    bad = 0

    def look(kw):
        rep.concrete += 1
        try:
            return d4.get_params(**kw)
        except KeyError:
            return None

    def differ(kw, k, got, want):
        rep.fail_input("look-up", f"get_params(**{kw}, keep_doi={k}) gives {got!r} after other look-ups, {want!r} before", {"kwargs": {a: str(b) for a, b in kw.items()}})

    first = [{True: look({**kw, "keep_doi": True})} for kw in todo]
    keep = [{True: None if d[True] is None else dict(d[True])} for d in first]
    for kw, d, w in zip(todo, first, keep):
        d[False] = look({**kw, "keep_doi": False})
        w[False] = None if d[False] is None else dict(d[False])
    for kw, w in zip(todo, keep):
        for k in (True, False):
            got = look({**kw, "keep_doi": k})
            if (None if got is None else dict(got)) != w[k]:
                return differ(kw, k, got, w[k])
    for d in first:
        for v in d.values():
            if v is not None:
                for j, k in enumerate(list(v)):
                    if j % 2:
                        v[k] = "changed"
                    else:
                        del v[k]
                v["extra"] = 1.0
    for kw, w in zip(todo, keep):
        for k in (True, False):
            got = look({**kw, "keep_doi": k})
            if (None if got is None else dict(got)) != w[k]:
                bad += 1
                rep.fail_input("look-up", f"get_params(**{kw}, keep_doi={k}) gives {got!r} after an earlier result was modified, {w[k]!r} before", {"kwargs": {a: str(b) for a, b in kw.items()}})
                return
            if got is not None and any(isinstance(v, (dict, list)) for v in got.values()):
                rep.notes.append("nested values in a parameter set")
    rep.ok(f"looked-up sets are copies[{2 * len(todo)} look-ups, complete over the collection]")


def run(rep):
    frame.import_all()
    rep.assume("the only state that can carry history is Python/torch state reachable from the library's modules and the objects of the call",
               "dependencies (tad_mctc, tad_multicharge) are pure (sampled)",
               "Damping.doi, the literature reference of the last call, is a note that no result depends on")
    n = 60 if rep.tier == "quick" else 300
    histories(rep, n)
    lookups(rep)
    whole.run(rep, purity, 150, "purity")
    whole.run(rep, reuse, 40, "one calculator for several systems")
    if rep.enough():
        return
    bad = []
    for s in scenarios(rep.tier):
        if rep.left() < 60:
            rep.notes.append("time limit: remaining scenarios skipped")
            break
        bad += frame.check(rep, s())
    for s in object_scenarios(rep.tier):
        if rep.left() < 60:
            break
        bad += frame.objects(rep, *s())
    if (bad or getattr(rep, "_suspicious", False)) and not rep.violations:
        whole.run(rep, purity, 400, "purity(search)")
        for k in range(1, 5):
            if not rep.violations and rep.left() > 120:
                histories(rep, 2 * n, salt=k)
