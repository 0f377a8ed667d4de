"""C07 normalised Gaussian CN weights."""
import torch

from ..mspecs import *
from ..scen import Out, Scenario, drive, lemma
from . import c08, c10


def gen_edge(rng, shape, arrays, sizes):
    """Coordination numbers for which the norm is tiny or underflows."""
    Z = arrays["Z"]
    mx = tables().t["refcn"].double().numpy()[Z].max(-1)
    x = np.where(rng.random(shape) < 0.7, rng.uniform(60, 690, size=shape), rng.uniform(820, 4000, size=shape))
    return mx + np.sqrt(x / 6.0)


def gen_wf(rng, shape, arrays, sizes):
    return 10.0 ** rng.uniform(0, 3.2, size=shape)


def any_wf(rank, dt):
    """Arbitrarily narrow Gaussians: the fallback also between two references."""
    s = c08.d4_weights(rank, dt, sym_ga=False, ga0=True, wf="t", q=False, name=f"D4Model.weight_references[any wf,rank{rank},{dt}]")
    for p in s.inputs:
        if p.name == "wf":
            p.gen = gen_wf
    return s


def edge(rank, dt):
    s = c08.d4_weights(rank, dt, sym_ga=False, ga0=True, q=False, name=f"D4Model.weight_references[underflow,rank{rank},{dt}]")
    s.inputs[1].gen = gen_edge
    return s


def scenarios(tier):
    for rank in (0, 1, 2):
        for dt in ("f64", "f32"):
            for q in (False, True):
                if rank == 2 and q:
                    continue
                yield c08.d4_weights(rank, dt, sym_ga=False, ga0=True, q=q)
    yield c08.d4_weights(1, "f64", sym_ga=False, ga0=True, wf="t")
    yield c08.d4_weights(0, "f32", sym_ga=False, ga0=True, wf="t")
    yield c08.d4_weights(0, "f64", sym_ga=False, ga0=True, wf=4.0)
    yield c08.d4_weights(1, "f64", sym_ga=False, ga0=True, charges="gfn2")
    yield c10.weights(0, "f64", ga0=True)
    yield c10.weights(1, "f32", ga0=True)
    yield c10.weights(1, "f64", "gfn2", ga0=True, wf="matrix")
    yield any_wf(1, "f64")
    yield any_wf(0, "f32")
    for dt in ("f64", "f32"):
        yield edge(0, dt)
        yield edge(1, dt)


def lemmas(rep):
    from ..sym import array

    for p in minputs(0, "f64", ["Z", "cn", "wf"]):
        array(p.name, tuple(1 for _ in p.dims), p.dtype, **p.meta)
    i, a = ivar("ix0"), ivar("ix1")
    m = ModelSpec("f64", wf=lambda b, x, y: sc("wf"))
    f = [le(I(0), a), lt(a, I(NREF))]
    lemma(rep, "weights-non-negative", le(R(0), m.gw((), i, None, a)), facts=f)
    lemma(rep, "weight-zero-without-reference", m.gw((), i, None, a), R(0), facts=f + [le(m.count((), i, a), I(0))])
    # sum over references of g/N equals (sum of g)/N for every N != 0; with N = sum of g this is 1
    declare("N", sort="R")
    N = sc("N")
    lemma(rep, "weights-sum-to-one (norm factors out)",
          SUM(I(NREF), lambda v: ite(lt(I(0), m.count((), i, v)), quot(m.gauss((), i, None, v), N), R(0))),
          quot(m.norm((), i, None), N), facts=[bnot(eq(N, R(0)))])
    # fallback: exactly one reference has the largest CN, and it exists (finite)
    cn, cnt = tables().t["refcn"].double().numpy(), tables().t["refc"].numpy()
    for z in range(1, cn.shape[0]):
        mx = cn[z].max()
        hit = [k for k in range(NREF) if cn[z, k] == mx and cnt[z, k] > 0]
        if len(hit) == 1:
            rep.ok(f"fallback-reference-unique[Z={z}]")
        else:
            rep.fail_input(f"fallback-reference-unique[Z={z}]", f"references with the largest CN: {hit}, counts {cnt[z].tolist()}", {"Z": z})


def run(rep):
    rep.assume("exp may underflow to zero: every exponential is treated as >= 0, so the fallback branch is explored")
    drive(rep, scenarios(rep.tier), count=10, thorough=80)
    lemmas(rep)
