"""C14 inconsistent input is rejected, consistent input accepted."""
import itertools

import numpy as np
import torch

from .. import relate, whole
from ..ir import FALSE, TRUE, band, bnot, bor
from ..mspecs import *
from ..scen import Inp, Out, Scenario, drive
from ..stubs import Eeq, StubModel, patched

NB = {0: (), 1: ("nb",), 2: ("mb", "nb")}
ARGS = {"pos": (3,), "rcov": (), "r4r2": (), "rvdw": ("n",), "q": ()}
PV = dict(s6=1.0, s8=0.75, s9=1.0, a1=0.5, a2=5.0, alp=16.0)


def shape_of(arg, rank, own):
    """Dimensions of an argument, with dimension names of its own if required."""
    tail = ARGS[arg]
    d = [*NB[rank], "n", *tail] if rank >= 0 else list(tail)
    return tuple(x if isinstance(x, int) or not own else f"{arg}_{k}" for k, x in enumerate(d))


def differ(a, b):
    """Condition under which two tuples of dimension names denote different shapes."""
    if len(a) != len(b):
        return TRUE
    t = FALSE
    for x, y in zip(a, b):
        if x != y:
            t = bor(t, bnot(eq(ivar(x), ivar(y))))
    return t


def shapes(zrank, ranks, dt, api, given):
    """Every given argument has independent dimensions."""
    inp = [Inp("Z", (*NB[zrank], "n"), torch.int64, gen_Z(), lo=0, hi=103)]
    bad = []
    dims = {}
    for a in ("pos", "rcov", "r4r2", "rvdw", "q"):
        own = a in ranks
        if not own and a not in given and a != "pos":
            continue
        d = shape_of(a, ranks[a] if own else zrank, own)
        inp.append(Inp(a, d, DT[dt], gen_u(-6, 6) if a == "pos" else gen_u(1, 3), lo=None if a == "pos" else Q(1, 2)))
        if own:
            bad.append(differ(d, shape_of(a, zrank, False)))
            for x in d:
                if isinstance(x, str):
                    dims[x] = (1, 2)
    dims.update(n=(1, 2), nb=(1, 2), mb=(1, 2))
    b = NB[zrank]
    inp += [Inp("c6", (*b, "n", "n"), DT[dt], gen_u(1, 5), lo=Q(1, 100)), Inp("cn", (*b, "n"), DT[dt], gen_u(0, 3), lo=0),
            Inp("qe", (*b, "n"), DT[dt], gen_u(0, 1), lo=0)]

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.dispersion import Disp
        from tad_dftd4.dispersion.twobody import TwoBodyTerm
        from tad_dftd4.damping import RationalDamping
        f = DT[dt]
        param = {k: torch.tensor(v, dtype=f) for k, v in PV.items()}
        kw = {a: env[a] for a in ("rcov", "r4r2", "rvdw", "q") if a in env}
        cnf = lambda numbers, positions, **k: env["cn"]
        charge = torch.tensor(0.0, dtype=f)
        with patched("tad_multicharge", "get_eeq_charges", lambda *a, **k: env["qe"]):
            if api == "dftd4":
                return d4.dftd4(env["Z"], env["pos"], charge, param, model=StubModel(env["c6"]), cn_function=cnf, **kw)
            d = Disp(model=StubModel(env["c6"]), cn_fn=cnf, dtype=f)
            d.register(TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True))
            return d.calculate(env["Z"], env["pos"], charge, param, **kw)

    nm = ",".join(f"{a}:rank{r}" for a, r in ranks.items())
    return Scenario(f"{api}[numbers:rank{zrank},{nm},{dt},given={'+'.join(given)}]", "tad_dftd4.dispersion.base.Disp.calculate", inp, call, [],
                    raises=[(bor(*bad), ValueError)], dtype=dt, dims=dims, positions=(), axioms={}, max_paths=400)


def no_term(cds, q, dt="f64"):
    """Charges without a charge-dependent term."""
    inp = std_inputs(1, dt, ["Z", "pos", "cn", "r4r2", "rvdw"]) + [Inp("qe", ("nb", "n"), DT[dt], sometimes_zero(gen_u(-1, 1))), Inp("e", ("nb", "n"), DT[dt], gen_u(-1, 1))]

    def call(env):
        from tad_dftd4.dispersion import Disp, base
        from tad_dftd4.damping import RationalDamping

        class Term(base.DispTerm):
            def calculate(self, *a, **kw):
                return env["e"] * 1.0

        d = Disp(model=StubModel(None), cn_fn=lambda numbers, positions, **k: env["cn"], dtype=DT[dt])
        for cd in cds:
            d.register(Term(RationalDamping(), cd))
        with patched("tad_multicharge", "get_eeq_charges", lambda *a, **k: env["qe"]):
            return d.calculate(env["Z"], env["pos"], torch.zeros((), dtype=DT[dt]), {}, q=env["qe"] if q else None, r4r2=env["r4r2"], rvdw=env["rvdw"])

    return Scenario(f"Disp.calculate[charge_dependent={cds},charges {'given' if q else 'absent'}]", "tad_dftd4.dispersion.base.Disp.calculate", inp, call, [],
                    raises=[(TRUE if q and not any(cds) else FALSE, RuntimeError)], dtype=dt, positions=(), axioms={}, dims={"n": (1, 3)})


def radii(damping, have, rank, dt):
    """dispersion2 needs van der Waals radii exactly for the damping functions that use them."""
    from tad_dftd4.damping import functions as dfun
    inp = std_inputs(rank, dt, ["Z", "pos", "c6", "r4r2"] + (["rvdw"] if have else []))
    pin, pmap = params(["s6", "s8", "a1", "a2", "alp", "rs6", "rs8", "bet"], dt)
    rv = damping in ("ZeroDamping", "MZeroDamping")

    def call(env):
        from tad_dftd4.dispersion.twobody import dispersion2
        return dispersion2(env["Z"], env["pos"], {k: env[v] for k, v in pmap.items()}, env["c6"], env["r4r2"], **({"rvdw": env["rvdw"]} if have else {}),
                           damping_function=getattr(dfun, damping)())

    return Scenario(f"dispersion2[{damping},rvdw {'given' if have else 'absent'},rank{rank},{dt}]", "tad_dftd4.dispersion.twobody.dispersion2", inp + pin, call, [],
                    raises=[(TRUE if rv and not have else FALSE, ValueError)], dtype=dt, dims={"n": (1, 4)})


def names(rep):
    """Model names: every letter case of the implemented ones, nothing else."""
    import tad_dftd4 as d4
    from tad_dftd4.dispersion import Disp
    f = torch.float64
    Z = torch.tensor([6, 1, 8, 1])
    X = torch.tensor([[0.0, 0, 0], [2, 0, 0], [0, 2.4, 0], [0, 0.3, 9]], dtype=f)
    param = whole.param(f)
    rep.functions |= {"tad_dftd4.dispersion.base.Disp.__init__", "tad_dftd4.dispersion.base.Disp.get_model"}
    for name, cls in (("d4", "D4Model"), ("d4s", "D4SModel")):
        inst = getattr(d4.model, cls)(Z, dtype=f)
        want = d4.dftd4(Z, X, 0.0, param, model=inst)
        for cs in sorted({"".join(p) for p in itertools.product(*[(c, c.upper()) for c in name])}):
            rep.concrete += 1
            try:
                m = Disp(model=cs, dtype=f).get_model(Z)
                e = d4.dftd4(Z, X, 0.0, param, model=cs)
            except Exception as ex:
                rep.fail_input(f"model name {cs}", f"{type(ex).__name__}: {ex}", {"model": cs})
                continue
            r = relate.cmp(e.numpy(), want.numpy(), 1e-12, 1e-14)
            if type(m).__name__ != cls or r:
                rep.fail_input(f"model name {cs}", f"gives {type(m).__name__} {r or ''}", {"model": cs})
            else:
                rep.ok(f"model name {cs!r} selects {cls}")
    ok = True
    bad = ["", " ", "d", "4", "d4 ", " d4", "d4ss", "d2", "d6", "dftd4", "d4-s", "ds4", "s", "instance", "none", "D4Model", "D4SModel", "xtb", "d44", "4d", "d4m", "d4s\n", "eeq"]
    for b in bad:
        rep.concrete += 1
        for what, fn in (("Disp", lambda: Disp(model=b)), ("dftd4", lambda: d4.dftd4(Z, X, 0.0, param, model=b))):
            try:
                fn()
                r = "accepted"
            except ValueError:
                continue
            except Exception as ex:
                r = f"{type(ex).__name__}: {ex}"
            ok = False
            rep.fail_input(f"unknown model name {b!r}", f"{what}: {r} instead of ValueError", {"model": b})
    if ok:
        rep.ok(f"unknown model names rejected ({len(bad)} names)")
        rep.bounded.append(f"unknown model names: {len(bad)} names, not all strings")


def shapes_whole(rep, rng):
    """Real model, real EEQ: one argument of a random wrong shape, and consistent input of any rank."""
    import tad_dftd4 as d4
    f = torch.float64 if rng.integers(2) else torch.float32
    z, x = whole.molecule(rng)
    n = len(z)
    rank = int(rng.integers(0, 4))
    b = tuple(int(v) for v in rng.integers(1, 3, rank))
    Z = torch.as_tensor(np.broadcast_to(np.asarray(z), (*b, n)).copy())
    X = torch.as_tensor(np.broadcast_to(np.asarray(x), (*b, n, 3)).copy(), dtype=f)
    good = {"rcov": (*b, n), "r4r2": (*b, n), "rvdw": (*b, n, n), "q": (*b, n)}
    use = {k: s for k, s in good.items() if k == "q" or rng.integers(2)}
    args = {k: torch.as_tensor(rng.uniform(1, 2, s), dtype=f) for k, s in use.items()}
    model = ("d4", "d4s")[int(rng.integers(2))]
    info = {"numbers": list(Z.shape), "positions": list(X.shape), **{k: list(v.shape) for k, v in args.items()}, "model": model}
    try:
        e = d4.dftd4(Z, X, torch.zeros(b, dtype=f), whole.param(f), model=model, **args)
        if tuple(e.shape) != tuple(Z.shape):
            return f"energy has shape {tuple(e.shape)} for numbers {tuple(Z.shape)}", info
    except Exception as ex:
        return f"consistent input: {type(ex).__name__}: {ex}", info
    which = ["positions", *good][int(rng.integers(5))]
    s = list({"positions": (*b, n, 3), **good}[which])
    k = int(rng.integers(0, len(s) - (1 if which == "positions" else 0)))
    mode = int(rng.integers(4))
    if mode == 3:
        del s[k]
    elif mode == 0:
        s[k] += 1
    elif mode == 1:
        s.insert(0, 1)
    elif s[k] > 1:
        s[k] = 1
    else:
        s[k] = 2
    t = torch.as_tensor(rng.uniform(1, 2, s), dtype=f)
    X2 = t if which == "positions" else X
    if which != "positions":
        args[which] = t
    info[which] = list(t.shape)
    try:
        d4.dftd4(Z, X2, torch.zeros(b, dtype=f), whole.param(f), model=model, **args)
    except ValueError:
        return None, None
    except Exception as ex:
        return f"{which} of shape {tuple(t.shape)} for numbers {tuple(Z.shape)}: {type(ex).__name__}: {ex} instead of ValueError", info
    return f"{which} of shape {tuple(t.shape)} accepted for numbers {tuple(Z.shape)}", info


def scenarios(tier):
    out = []
    full = ("rcov", "r4r2", "rvdw", "q")
    for api in ("dftd4", "calculate"):
        for zr in (0, 1, 2):
            for a in ARGS:
                for r in (0, 1, 2):
                    if api == "calculate" and (zr, r) not in ((0, 0), (1, 1), (0, 1)):
                        continue
                    out.append(lambda zr=zr, a=a, r=r, api=api: shapes(zr, {a: r}, "f64", api, [x for x in full if x != a]))
    # without the dimension of the atoms
    for a in ARGS:
        for zr in (0, 1):
            out.append(lambda a=a, zr=zr: shapes(zr, {a: -1}, "f64", "dftd4", [x for x in full if x != a]))
        out.append(lambda a=a: shapes(0, {a: -1}, "f64", "calculate", []))
    # only the argument in question is supplied
    for a in ARGS:
        out.append(lambda a=a: shapes(1, {a: 1}, "f32", "dftd4", []))
    # everything supplied, everything possibly wrong
    out.append(lambda: shapes(0, {a: 0 for a in ARGS}, "f64", "dftd4", full))
    out.append(lambda: shapes(1, {a: 1 for a in ARGS}, "f64", "calculate", full))
    # nothing supplied
    for zr in (0, 1, 2):
        for dt in ("f64", "f32"):
            out.append(lambda zr=zr, dt=dt: shapes(zr, {}, dt, "dftd4", []))
    for k in range(0, 4):
        for cds in itertools.product((False, True), repeat=k):
            for q in (True, False):
                out.append(lambda cds=cds, q=q: no_term(cds, q))
    for cds in ((False,) * 12, (False,) * 11 + (True,), (True,) + (False,) * 11, (False,) * 5 + (True,) + (False,) * 2):
        for q in (True, False):
            out.append(lambda cds=cds, q=q: no_term(cds, q))
    for dmp in ("RationalDamping", "ZeroDamping", "MZeroDamping", "OptimisedPowerDamping"):
        for have in (True, False):
            for rank, dt in ((0, "f64"), (1, "f32"), (2, "f64")):
                out.append(lambda dmp=dmp, have=have, rank=rank, dt=dt: radii(dmp, have, rank, dt))
    return out


def run(rep):
    rep.assume("EEQ charges, when not supplied, come from tad_multicharge, whose own limits on batch shapes are outside the property",
               "batch ranks 0 to 2 in the proof, 0 to 3 in the whole-program runs")
    drive(rep, scenarios(rep.tier), count=4, thorough=25, mustfail=0)
    names(rep)
    whole.run(rep, shapes_whole, 40, "whole program: shapes")
