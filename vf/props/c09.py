"""C09 polarizabilities and C6 coefficients."""
import math

import torch

from ..mspecs import *
from ..scen import Out, Scenario, drive, lemma


def zin(rank, dt, charges, extra=()):
    inp = minputs(rank, dt, ["Z", *extra])
    if charges == "gfn2":
        inp[0].meta["hi"] = 86
        inp[0].gen = gen_Z(1, 86)
    return inp


def kwargs(charges, gc, env):
    kw = {}
    if charges != "eeq":
        kw["ref_charges"] = charges
    if gc:
        kw.update(ga=env["ga"], gc=env["gc"])
    return kw


def mspec(dt, charges, gc):
    return ModelSpec(dt, charges, ga=sc("ga") if gc else None, gc=sc("gc") if gc else None)


def alpha(rank, dt, charges, gc, cls="D4Model"):
    b = BATCH[rank]

    def call(env):
        from tad_dftd4 import model
        m = getattr(model, cls)(env["Z"], dtype=DT[dt], rc6=torch.zeros(1), **kwargs(charges, gc, env))
        return m._get_alpha()

    return Scenario(f"{cls}._get_alpha[rank{rank},{dt},{charges},ga/gc={'any' if gc else 'default'}]", "tad_dftd4.model.base.BaseModel._get_alpha",
                    zin(rank, dt, charges, ("ga", "gc") if gc else ()), call,
                    [Out("alpha", (*b, "n", 7, 23), lambda *ix: mspec(dt, charges, gc).alpha(ix[:-3], *ix[-3:]))],
                    dtype=dt, axioms={}, positions=(), rtol=1e-7 if dt == "f64" else 2e-3)


def refc6(rank, dt, charges, gc, cls="D4Model"):
    b = BATCH[rank]

    def call(env):
        from tad_dftd4 import model
        return getattr(model, cls)(env["Z"], dtype=DT[dt], **kwargs(charges, gc, env)).rc6

    return Scenario(f"{cls}.rc6[rank{rank},{dt},{charges},ga/gc={'any' if gc else 'default'}]", "tad_dftd4.model.base.BaseModel._get_refc6",
                    zin(rank, dt, charges, ("ga", "gc") if gc else ()), call,
                    [Out("rc6", (*b, "n", "n", 7, 7), lambda *ix: mspec(dt, charges, gc).rc6(ix[:-4], *ix[-4:]))],
                    dtype=dt, axioms={}, positions=(), rtol=1e-7 if dt == "f64" else 2e-3, dims={"n": (1, 4)})


def fw(dt, v):
    return tab("freq", dt, v)


def trapz(fn, rank, dt, two):
    b = BATCH[rank]
    r = fn == "trapzd"
    d1 = (*b, "n", 7, 23) if r else (*b, "n", 23)
    d2 = (*b, "m", 7, 23) if r else (*b, "m", 23)
    inp = [Inp("p1", d1, DT[dt], gen_u(0, 20), grad=True)]
    if two:
        inp.append(Inp("p2", d2, DT[dt], gen_u(0, 20), grad=True))

    def call(env):
        from tad_dftd4 import utils
        f = getattr(utils, fn)
        return f(env["p1"], env["p2"]) if two else f(env["p1"])

    o = "p2" if two else "p1"

    def spec(*ix):
        if r:
            *bb, i, j, a, c = ix
            return mul(R(3 / math.pi), SUM(I(23), lambda w: prod(fw(dt, w), app("p1", (*bb, i, a, w)), app(o, (*bb, j, c, w)))))
        *bb, i, j = ix
        return mul(R(3 / math.pi), SUM(I(23), lambda w: prod(fw(dt, w), app("p1", (*bb, i, w)), app(o, (*bb, j, w)))))

    m = "m" if two else "n"
    dims = (*b, "n", m, 7, 7) if r else (*b, "n", m)
    return Scenario(f"{fn}[rank{rank},{dt}{',two arguments' if two else ''}]", f"tad_dftd4.utils.{fn}", inp, call,
                    [Out("c6", dims, spec)], dtype=dt, axioms={}, positions=(), dims={"n": (1, 4), "m": (1, 4)})


def gwin(rank, dt):
    b = BATCH[rank]
    return Inp("gw", (*b, "n", 7), DT[dt], gen_u(0, 1.2), lo=0, grad=True)


def atomic_c6(rank, dt):
    b = BATCH[rank]
    inp = [minputs(rank, dt, ["Z"])[0], gwin(rank, dt),
           Inp("rc6", (*b, "n", "n", 7, 7), DT[dt], gen_u(0, 100), lo=0)]

    def call(env):
        from tad_dftd4.model import D4Model
        return D4Model(env["Z"], rc6=env["rc6"], dtype=DT[dt]).get_atomic_c6(env["gw"])

    def spec(*ix):
        *b_, i, j = ix
        return SUM(I(7), lambda a: SUM(I(7), lambda c: prod(app("rc6", (*b_, i, j, a, c)), app("gw", (*b_, i, a)), app("gw", (*b_, j, c)))))

    return Scenario(f"D4Model.get_atomic_c6[rank{rank},{dt}]", "tad_dftd4.model.d4.D4Model.get_atomic_c6", inp, call,
                    [Out("c6", (*b, "n", "n"), spec)], dtype=dt, axioms={}, positions=())


def pols(rank, dt, charges, fn):
    b = BATCH[rank]
    inp = zin(rank, dt, charges) + [gwin(rank, dt)]

    def call(env):
        from tad_dftd4.model import D4Model
        m = D4Model(env["Z"], rc6=torch.zeros(1), dtype=DT[dt], **kwargs(charges, False, env))
        return getattr(m, fn)(env["gw"])

    def spec(*ix):
        m = mspec(dt, charges, False)
        if fn == "get_polarizabilities":
            *b_, i = ix
            return SUM(I(7), lambda a: mul(app("gw", (*b_, i, a)), m.alpha(b_, i, a, I(0))))
        *b_, i, w = ix
        return SUM(I(7), lambda a: mul(app("gw", (*b_, i, a)), m.alpha(b_, i, a, w)))

    dims = (*b, "n") if fn == "get_polarizabilities" else (*b, "n", 23)
    return Scenario(f"D4Model.{fn}[rank{rank},{dt},{charges}]", f"tad_dftd4.model.{'base.BaseModel' if 'izab' in fn else 'd4.D4Model'}.{fn}", inp, call,
                    [Out("pol", dims, spec)], dtype=dt, axioms={}, positions=(), rtol=1e-7 if dt == "f64" else 2e-3)


def scenarios(tier):
    for rank in (0, 1, 2):
        for dt in ("f64", "f32"):
            ch = "gfn2" if (rank, dt) in ((1, "f32"), (0, "f64")) else "eeq"
            yield alpha(rank, dt, ch, rank == 1)
    yield alpha(0, "f64", "eeq", True)
    yield alpha(1, "f64", "gfn2", True)
    yield alpha(0, "f64", "eeq", False, "D4SModel")
    for rank, dt, ch, gc in ((0, "f64", "eeq", True), (1, "f64", "gfn2", False), (0, "f32", "eeq", False), (1, "f32", "eeq", True)):
        yield refc6(rank, dt, ch, gc)
    yield refc6(0, "f64", "eeq", False, "D4SModel")
    for fn in ("trapzd", "trapzd_noref"):
        for two in (False, True):
            yield trapz(fn, 0, "f64", two)
            yield trapz(fn, 1, "f32", two)
    for rank in (0, 1, 2):
        yield atomic_c6(rank, "f64")
    yield atomic_c6(1, "f32")
    for fn in ("get_polarizabilities", "get_weighted_pols"):
        yield pols(0, "f64", "eeq", fn)
        yield pols(1, "f64", "gfn2", fn)
        yield pols(1, "f32", "eeq", fn)


def lemmas(rep):
    """Consequences over the contracts, with the reference polarizability as
    an arbitrary non-negative function al(i, a, w)."""
    declare("al", sort="R", lo=0)
    declare("g", sort="R", lo=0)
    al = lambda i, a, w: app("al", (i, a, w))
    g = lambda i, a: app("g", (i, a))
    i, j = ivar("ix0"), ivar("ix1")
    k = R(3 / math.pi)

    def rc6(i, j, a, c):
        return mul(k, SUM(I(23), lambda w: prod(fw("f64", w), al(i, a, w), al(j, c, w))))

    def c6(i, j):
        return SUM(I(7), lambda a: SUM(I(7), lambda c: prod(rc6(i, j, a, c), g(i, a), g(j, c))))

    def pol(i, w):
        return SUM(I(7), lambda a: mul(g(i, a), al(i, a, w)))

    lemma(rep, "c6-symmetric", c6(i, j), c6(j, i))
    lemma(rep, "c6-non-negative", le(R(0), c6(i, j)))
    lemma(rep, "c6-is-casimir-polder-of-weighted-polarizabilities", c6(i, j),
          mul(k, SUM(I(23), lambda w: prod(fw("f64", w), pol(i, w), pol(j, w)))))
    from ..sym import array
    p = minputs(0, "f64", ["Z"])[0]
    array("Z", (1,), p.dtype, **p.meta)
    m = ModelSpec("f64")
    lemma(rep, "reference-polarizability-non-negative", le(R(0), m.alpha((), i, ivar("ix1"), ivar("ix2"))))


def run(rep):
    drive(rep, scenarios(rep.tier), count=4, thorough=30)
    lemmas(rep)
