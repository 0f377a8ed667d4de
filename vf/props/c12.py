"""C12 the energy is the sum of the registered terms."""
import itertools

import numpy as np
import torch

from .. import relate, whole
from ..e2e import dftd4_stub
from ..mspecs import *
from ..scen import Out, Scenario, drive
from ..stubs import StubModel


def tied(kind, rank, dt, cds, cls="Disp"):
    """Disp.calculate with arbitrary terms e_k(inputs): every term is evaluated
    once on the caller's inputs and the results are added."""
    b = BATCH[rank]
    inp = std_inputs(rank, dt, ["Z", "pos", "cn", "q", "r4r2", "rvdw", "cut"])
    inp += [Inp(f"e{k}", (*b, "n"), DT[dt], gen_u(-3, 3)) for k in range(len(cds))]
    need_q = any(cds)

    def call(env):
        from tad_dftd4 import dispersion
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.damping import RationalDamping
        from tad_dftd4.dispersion import Disp, base
        log = []

        class Term(base.DispTerm):
            __slots__ = ("e",)

            def __init__(self, e, cd):
                super().__init__(RationalDamping(), cd)
                self.e = e

            def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
                log.append((self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff))
                r = self.e + 2.0 * cn + 3.0 * r4r2 + 5.0 * param["a1"] + 7.0 * cutoff.disp2 + 11.0 * rvdw[..., 0] + 13.0 * positions[..., 1]
                if q is not None:
                    r = r + 17.0 * q
                return r + model.get_atomic_c6(cn)[..., 0]

        m = StubModel(env["rvdw"])
        d = Disp(model=m, cn_fn=lambda numbers, positions, **k: env["cn"], dtype=DT[dt])
        terms = [Term(env[f"e{k}"], cd) for k, cd in enumerate(cds)]
        for t in terms:
            d.register(t)
        param = {"a1": torch.tensor(0.25, dtype=DT[dt])}
        cut = Cutoff(disp2=env["cut"], dtype=DT[dt])
        e = d.calculate(env["Z"], env["pos"], torch.tensor(0.0, dtype=DT[dt]), param, cutoff=cut, q=env["q"] if need_q else None,
                        r4r2=env["r4r2"], rvdw=env["rvdw"])
        if [id(x[0]) for x in log] != [id(t) for t in terms] and sorted(id(x[0]) for x in log) != sorted(id(t) for t in terms):
            raise relate.Mismatch("each-term-once", f"{len(log)} evaluations for {len(terms)} registered terms")
        return e

    def spec(*ix):
        *bb, i = ix
        t = R(0)
        cn = app("cn", ix)
        for k in range(len(cds)):
            t = plus(t, app(f"e{k}", ix), mul(R(2), cn), mul(R(3), app("r4r2", ix)), R(Q(5, 4)), mul(R(7), sc("cut")),
                     mul(R(11), app("rvdw", (*ix, I(0)))), mul(R(13), app("pos", (*ix, I(1)))),
                     app("rvdw", (*ix, I(0))), mul(cn, app("cn", (*bb, I(0)))))
            if need_q:
                t = plus(t, mul(R(17), app("q", ix)))
        return t

    return Scenario(f"{cls}.calculate[{len(cds)} arbitrary terms,charge_dependent={cds},rank{rank},{dt}]",
                    "tad_dftd4.dispersion.base.Disp.calculate", inp, call, [Out("energy", (*b, "n"), spec)], dtype=dt, axioms={},
                    positions=())


def real_terms(rank, dt):
    """A calculator with four real terms against the terms evaluated one by one."""
    base = dftd4_stub(rank, dt)
    inp = [p for p in base.inputs] + params(["rs6", "rs8", "rs9"], dt)[0]
    names = ["s6", "s8", "a1", "a2", "s9", "alp", "rs6", "rs8", "rs9"]

    def call(env):
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.damping import RationalDamping, ZeroDamping
        from tad_dftd4.dispersion import Disp
        from tad_dftd4.dispersion.d3 import D3ATM
        from tad_dftd4.dispersion.d4 import D4ATMApprox
        from tad_dftd4.dispersion.twobody import TwoBodyTerm
        m = StubModel(env["c6"])
        param = {k: env["p_" + k] for k in names}
        cut = Cutoff(disp2=env["cut"], disp3=env["cut"], dtype=DT[dt])
        terms = [TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True), D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=False), TwoBodyTerm(damping_fn=ZeroDamping(), charge_dependent=False),
                 D3ATM(damping_fn=ZeroDamping(), charge_dependent=True)]
        d = Disp(model=m, cn_fn=lambda numbers, positions, **k: env["cn"], dtype=DT[dt])
        for t in terms:
            d.register(t)
        got = d.calculate(env["Z"], env["pos"], torch.zeros((), dtype=DT[dt]), param, cutoff=cut, q=env["q"], r4r2=env["r4r2"], rvdw=env["rvdw"])
        want = None
        for t in terms:
            e = t.calculate(env["Z"], env["pos"], param, env["cn"], m, env["q"], env["r4r2"], env["rvdw"], cut)
            want = e if want is None else want + e
        return [("sum-of-terms", got, want)]

    return Scenario(f"Disp.calculate[TwoBody+D4ATM+TwoBody(zero)+D3ATM,rank{rank},{dt}]", "tad_dftd4.dispersion.base.Disp.calculate", inp, call,
                    [Out("energy", (*BATCH[rank], "n"), None)], derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def interfaces(rank, dt, cut, q, s=None):
    """DispD4().calculate and dftd4 on the same input."""
    base = dftd4_stub(rank, dt, cutoff=cut)

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.dispersion import DispD4
        names = ["s6", "s8", "a1", "a2", "s9", "alp"]
        param = {k: env["p_" + k] for k in names}
        kw = {}
        if cut:
            kw["cutoff"] = d4.cutoff.Cutoff(disp2=env["cut"], disp3=env["cut"], dtype=DT[dt])
        m = lambda: StubModel(env["c6"])
        f = lambda numbers, positions, **k: env["cn"]
        z = torch.zeros((), dtype=DT[dt])
        a = DispD4(model=m(), cn_fn=f, dtype=DT[dt]).calculate(env["Z"], env["pos"], z, param, q=env["q"], **kw)
        b = d4.dftd4(env["Z"], env["pos"], z, param, model=m(), cn_function=f, q=env["q"], **kw)
        return [("class-equals-functional-interface", a, b)]

    return Scenario(f"DispD4.calculate = dftd4[rank{rank},{dt},cutoff={cut}]", "tad_dftd4.dispersion.d4.DispD4", base.inputs, call,
                    [Out("energy", (*BATCH[rank], "n"), None)], derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def registry(rep):
    """All short register/deregister histories against a list of terms."""
    from tad_dftd4.damping import RationalDamping, ZeroDamping
    from tad_dftd4.damping.functions import MZeroDamping, OptimisedPowerDamping
    from tad_dftd4.dispersion import Disp, DispD4
    from tad_dftd4.dispersion import d3 as D3, d4 as D4
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    kinds = [lambda: TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True), lambda: TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=False), lambda: TwoBodyTerm(damping_fn=ZeroDamping(), charge_dependent=True),
             lambda: D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=False), lambda: D4ATMExact(damping_fn=ZeroDamping(), charge_dependent=False)]

    class Twin(TwoBodyTerm):  # a user's own term
        pass

    class Own(RationalDamping):  # a user's own damping function
        pass

    kinds.append(lambda: Twin(damping_fn=RationalDamping(), charge_dependent=True))
    Same = type("TwoBodyTerm", (TwoBodyTerm,), {"__slots__": ()})  # another class of the same name
    kinds.append(lambda: Same(damping_fn=RationalDamping(), charge_dependent=True))
    kinds.append(lambda: TwoBodyTerm(damping_fn=Own(), charge_dependent=True))
    kinds.append(lambda: TwoBodyTerm(damping_fn=OptimisedPowerDamping(), charge_dependent=True))
    kinds.append(lambda: TwoBodyTerm(damping_fn=MZeroDamping(), charge_dependent=True))

    def key(t):
        return (type(t), type(t.damping_fn), t.charge_dependent)

    bad = None
    n = 0
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            if (a() == b()) is not (i == j):
                bad = f"{key(a())} == {key(b())} is {a() == b()}"
    ops = [("+", k) for k in range(len(kinds))] + [("-", k) for k in range(len(kinds))]
    depth = 3 if rep.tier == "quick" else 4
    for hist in itertools.product(ops, repeat=depth):
        d = Disp(model="d4")
        model = []
        for op, k in hist:
            t = kinds[k]()
            if op == "+":
                d.register(t)
                model.append(key(t))
            else:
                try:
                    d.deregister(t)
                    ok = True
                except ValueError:
                    ok = False
                if ok != (key(t) in model):
                    bad = f"history {hist}: removal of {key(t)} {'succeeded' if ok else 'failed'} with terms {model}"
                    break
                if ok:
                    model.remove(key(t))
            n += 1
            if sorted(map(str, map(key, d.terms))) != sorted(map(str, model)):
                bad = f"history {hist}: terms {[key(x) for x in d.terms]} instead of {model}"
                break
        if bad:
            break
    # long histories
    rng = np.random.default_rng(rep.seed + 5)
    for _ in range(6):
        if bad:
            break
        d, model, log = Disp(model="d4"), [], []
        for _ in range(120):
            k = int(rng.integers(0, len(kinds)))
            t = kinds[k]()
            n += 1
            if rng.random() < 0.7:
                log.append(("+", k))
                d.register(t)
                model.append(key(t))
            else:
                log.append(("-", k))
                try:
                    d.deregister(t)
                    ok = True
                except ValueError:
                    ok = False
                if ok != (key(t) in model):
                    bad = f"history {log}: removal of {key(t)} {'succeeded' if ok else 'failed'}"
                    break
                if ok:
                    model.remove(key(t))
            if sorted(map(str, map(key, d.terms))) != sorted(map(str, model)):
                bad = f"history {log}: {len(d.terms)} terms instead of {len(model)}"
                break
    rep.concrete += n
    if bad:
        rep.fail_input("registry", bad, {"observed": bad})
    else:
        rep.ok(f"registry[all histories of length {depth} over {len(ops)} operations]")
        rep.bounded.append(f"registration histories: exhaustive up to length {depth} over {len(ops)} operations, sampled up to length 120")
    # a user's calculator registers what it lists
    probs = []
    two = (TwoBodyTerm, {"damping_fn": RationalDamping(), "charge_dependent": True})
    tri = (D4ATMApprox, {"damping_fn": ZeroDamping(), "charge_dependent": False})
    for TERMS in ([], [two], [two, two], [tri, two, tri], [(TwoBodyTerm, None)], [two, (TwoBodyTerm, {"damping_fn": ZeroDamping(), "charge_dependent": False}), two]):
        D = type("Mine", (Disp,), {"TERMS": TERMS})
        n += 1
        want = [key(c(**(k or {}))) for c, k in TERMS]
        got = [key(t) for t in D(model="d4").terms]
        if sorted(map(str, got)) != sorted(map(str, want)):
            probs.append(f"a calculator that lists the terms {want} registers {got}")
    # calculators do not share state
    for cls in (Disp, DispD4, D4.DispD4Exact, D3.DispD3BJ, D3.DispD3Zero):
        key0 = [key(t) for t in cls(model="d4").terms]
        want = [(c, type(k["damping_fn"]), k["charge_dependent"]) for c, k in cls.TERMS]
        if key0 != want:
            probs.append(f"{cls.__name__}: registered terms {key0} instead of {want}")
        a, b = cls(model="d4"), cls(model="d4")
        if a.terms is b.terms or any(x is y for x in a.terms for y in b.terms):
            probs.append(f"{cls.__name__}: two calculators share terms")
        if a.cn_fn_kwargs is b.cn_fn_kwargs:
            probs.append(f"{cls.__name__}: two calculators share cn_fn_kwargs")
        if getattr(a, "_model_kwargs", 0) is getattr(b, "_model_kwargs", 1):
            probs.append(f"{cls.__name__}: two calculators share model settings")
        a.register(kinds[0]())
        for t in a.terms:
            t.charge_dependent = not t.charge_dependent
        a.cn_fn_kwargs["x"] = 1
        if [key(t) for t in b.terms] != key0 or [key(t) for t in cls(model="d4").terms] != key0 or "x" in cls(model="d4").cn_fn_kwargs:
            probs.append(f"{cls.__name__}: changing one calculator changes another")
        for t in a.terms[:]:
            a.deregister(t)
        if a.terms or [key(t) for t in cls(model="d4").terms] != key0:
            probs.append(f"{cls.__name__}: removing terms of one calculator changes another")
    want = {"DispD4": [("TwoBodyTerm", "RationalDamping", True), ("D4ATMApprox", "ZeroDamping", False)],
            "DispD4Exact": [("TwoBodyTerm", "RationalDamping", True), ("D4ATMExact", "ZeroDamping", False)],
            "DispD3BJ": [("TwoBodyTerm", "RationalDamping", False), ("D3ATM", "ZeroDamping", False)],
            "DispD3Zero": [("TwoBodyTerm", "ZeroDamping", False), ("D3ATM", "ZeroDamping", False)]}
    for cls in (DispD4, D4.DispD4Exact, D3.DispD3BJ, D3.DispD3Zero):
        got = [(type(t).__name__, type(t.damping_fn).__name__, t.charge_dependent) for t in cls(model="d4").terms]
        if got != want[cls.__name__]:
            probs.append(f"{cls.__name__}: terms {got} instead of {want[cls.__name__]}")
    # a call that fails, or succeeds, leaves the registered terms alone
    f = torch.float64
    Z, X = torch.tensor([8, 1, 1]), torch.tensor([[0.0, 0, 0], [1.4, 1.1, 0], [-1.4, 1.1, 0.2]], dtype=f)
    par = whole.param(f)
    zero = torch.zeros((), dtype=f)
    for cls in (DispD4, D4.DispD4Exact, D3.DispD3BJ):
        for what, a, k in (("a successful call", (Z, X, zero, par), {}), ("positions of a wrong shape", (Z, X[:2], zero, par), {}),
                           ("charges of a wrong shape", (Z, X, zero, par), {"q": X}), ("r4r2 of a wrong shape", (Z, X, zero, par), {"r4r2": X}),
                           ("radii of a wrong shape", (Z, X, zero, par), {"rvdw": X[:2]}), ("a missing parameter", (Z, X, zero, {"s8": par["s8"]}), {})):
            d = cls(model="d4", dtype=f)
            ids = [id(t) for t in d.terms]
            try:
                d.calculate(*a, **k)
            except Exception:
                pass
            n += 1
            if [id(t) for t in d.terms] != ids:
                probs.append(f"{cls.__name__}: {what} changes the registered terms to {[key(t) for t in d.terms]}")
    for p in probs:
        rep.fail_input("calculators-independent", p, {"observed": p})
    if not probs:
        rep.ok("calculators-independent")


def d4_interfaces(rep, rng):
    import tad_dftd4 as d4
    from tad_dftd4.dispersion import DispD4
    z, x = whole.molecule(rng)
    f = torch.float64
    Z, X = torch.as_tensor(z), torch.as_tensor(x)
    for model in ("d4", "D4S"):
        a = DispD4(model=model, dtype=f).calculate(Z, X, torch.tensor(0.0, dtype=f), whole.param(f)).numpy()
        b = d4.dftd4(Z, X, 0.0, whole.param(f), model=model).numpy()
        r = relate.cmp(a, b, 1e-10, 1e-12)
        if r:
            return f"DispD4({model}) {r} (dftd4)", (z, x)
    return None, None


def run(rep):
    scns = []
    for cds in ((), (True,), (False,), (True, False), (False, True), (False, False, True), (True, False, True, False), (False, True) * 4, (False, False, True, True, True, True, False),
                (False,) * 11 + (True,), (True, False) * 12):
        for rank in (0, 1, 2):
            scns.append(tied("Disp", rank, "f64", cds))
    scns.append(tied("Disp", 1, "f32", (True, False)))
    drive(rep, scns, count=3, thorough=20)
    rep.bounded.append("number of registered terms: 0 to 4, 7, 8, 12 and 24 (every other quantity unbounded)")
    for rank, dt in ((0, "f64"), (1, "f64"), (1, "f32")):
        relate.equal_runs(rep, real_terms(rank, dt))
        relate.equal_runs(rep, interfaces(rank, dt, True, True))
        relate.equal_runs(rep, interfaces(rank, dt, False, True))
    registry(rep)
    whole.run(rep, d4_interfaces, 8, "whole program: DispD4 and dftd4")
