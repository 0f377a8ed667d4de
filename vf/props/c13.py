"""C13 use of atomic charges."""
import torch

from .. import relate, whole
from ..e2e import dftd4_stub, makers
from ..ir import symbols
from ..mspecs import *
from ..scen import Out, Scenario, drive
from ..stubs import Eeq, StubModel, patched
from . import c02


def qinputs(rank, dt, extra=()):
    b = BATCH[rank]
    base = dftd4_stub(rank, dt)
    inp = [p for p in base.inputs if p.name != "q"]
    inp.append(Inp("qe", (*b, "n"), DT[dt], gen_wide(0, 0.4, 7.0), lo=0))
    inp.append(Inp("charge", b, DT[dt], gen_u(0, 2), lo=0))
    inp.append(Inp("ceeq", (), DT[dt], gen_u(5, 30), lo=1))
    for e in extra:
        if e == "aiw":
            inp.append(Inp("aiw", (*b, "n", 23), DT[dt], gen_u(0.1, 3), lo=0))
        else:
            inp.append(Inp(e, (*b, "n"), DT[dt], gen_charge, lo=0))
    return inp


def gen_charge(rng, shape, arrays, sizes):
    """Ordinary, vanishing and large charges."""
    m = int(rng.integers(0, 4))
    if m == 0:
        return np.zeros(shape)
    return rng.uniform(0, 20.0 if m == 1 else 0.5, size=shape)


PN = ["s6", "s8", "a1", "a2", "s9", "alp"]


def mk(rank, dt, name, body, extra=(), func="tad_dftd4.dispersion.base.Disp.calculate"):
    def call(env):
        from tad_dftd4.cutoff import Cutoff
        eeq = Eeq(env["qe"])
        param = {k: env["p_" + k] for k in PN}
        cut = Cutoff(disp2=env["cut"], disp3=env["cut"], cn_eeq=env["ceeq"], dtype=DT[dt])
        with patched("tad_multicharge", "get_eeq_charges", eeq):
            return body(env, eeq, param, cut, DT[dt])

    return Scenario(f"{name}[rank{rank},{dt}]", func, qinputs(rank, dt, extra), call, [Out("energy", (*BATCH[rank], "n"), None)],
                    derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def expect(eeq, n, what):
    if len(eeq.calls) != n:
        raise relate.Mismatch(what, f"{len(eeq.calls)} evaluations of the EEQ charges instead of {n}")


def cn(env):
    return lambda numbers, positions, **k: env["cn"]


def run_d4(env, param, dt, q=None, charge=None, cut=None, model=None, **kw):
    import tad_dftd4 as d4
    return d4.dftd4(env["Z"], env["pos"], env["charge"] if charge is None else charge, param, model=model or StubModel(env["c6"]),
                    q=q, cn_function=cn(env), cutoff=cut, **kw)


def eeq_used(env, eeq, param, cut, dt):
    """No charges given: EEQ charges of the total charge and cutoff, once."""
    a = run_d4(env, param, dt, cut=cut)
    expect(eeq, 1, "eeq-once")
    q = env["qe"] + env["charge"].unsqueeze(-1) * 0.0625 + env["ceeq"] * 0.01
    b = run_d4(env, param, dt, q=q, cut=cut)
    expect(eeq, 1, "eeq-not-for-given-charges")
    return [("energy-uses-EEQ-charges", a, b)]


def eeq_default_cut(env, eeq, param, cut, dt):
    a = run_d4(env, param, dt)
    expect(eeq, 1, "eeq-once")
    q = env["qe"] + env["charge"].unsqueeze(-1) * 0.0625 + 25.0 * 0.01
    return [("default-EEQ-cutoff-25", a, run_d4(env, param, dt, q=q))]


def given(env, eeq, param, cut, dt):
    """Given charges: the total charge is irrelevant and EEQ is not evaluated."""
    a = run_d4(env, param, dt, q=env["q1"], cut=cut)
    b = run_d4(env, param, dt, q=env["q1"], charge=env["charge"] * 0.0 + 7.0, cut=cut)
    expect(eeq, 0, "eeq-not-for-given-charges")
    from tad_dftd4.damping import RationalDamping, ZeroDamping
    from tad_dftd4.data import R4R2, VDW_PAIRWISE
    from tad_dftd4.dispersion.d4 import D4ATMApprox
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    Z = env["Z"]
    rest = (env["pos"], param, env["cn"], StubModel(env["c6"]))
    tail = (R4R2(dtype=dt)[Z], VDW_PAIRWISE(dtype=dt)[Z.unsqueeze(-1), Z.unsqueeze(-2)], cut)
    w = TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True).calculate(Z, *rest, env["q1"], *tail)
    w = w + D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=False).calculate(Z, *rest, None, *tail)
    return [("total-charge-irrelevant-with-given-charges", a, b), ("charges-used-unchanged", a, w)]


def three_body(env, eeq, param, cut, dt):
    """Without two-body scaling only the charge-independent part is left."""
    p = dict(param, s6=0.0 * param["s6"], s8=0.0 * param["s8"])
    a = run_d4(env, p, dt, q=env["q1"], cut=cut)
    b = run_d4(env, p, dt, q=env["q2"], cut=cut)
    c = run_d4(env, p, dt, cut=cut)
    return [("three-body-independent-of-charges", a, b), ("three-body-independent-of-EEQ", a, c)]


def terms_of(name):
    def body(env, eeq, param, cut, dt):
        from tad_dftd4.damping import RationalDamping, ZeroDamping
        from tad_dftd4.dispersion import Disp
        from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
        from tad_dftd4.dispersion.twobody import TwoBodyTerm
        d = lambda *ts: _disp(Disp, env, dt, ts)
        if name == "exact":
            e = lambda *ts, **k: _disp(Disp, env, dt, ts).calculate(env["Z"], env["pos"], env["charge"], param, cutoff=cut, **k)
            ex = lambda cd: D4ATMExact(damping_fn=ZeroDamping(), charge_dependent=cd)
            two_ = TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=True)
            a = e(two_, ex(False), q=env["q1"])
            b = e(two_, q=env["q1"]) + e(ex(False))
            c = e(ex(True), q=env["q1"])
            expect(eeq, 0, "eeq-only-if-needed")
            d_ = e(ex(True))
            expect(eeq, 1, "eeq-once")
            q = env["qe"] + env["charge"].unsqueeze(-1) * 0.0625 + env["ceeq"] * 0.01
            return [("exact-three-body-independent-of-charges", a, b), ("exact-three-body-charge-dependent", d_, e(ex(True), q=q)),
                    ("given-charges-in-exact-three-body", c, e(ex(True), q=env["q1"]))]
        two = lambda cd: TwoBodyTerm(damping_fn=RationalDamping(), charge_dependent=cd)
        three = lambda cd: D4ATMApprox(damping_fn=ZeroDamping(), charge_dependent=cd)
        run = lambda ts, q=None, ch=None: d(*ts).calculate(env["Z"], env["pos"], env["charge"] if ch is None else ch, param, cutoff=cut, q=q)
        if name == "none-charge-dependent":
            a = run([two(False), three(False)])
            expect(eeq, 0, "eeq-only-if-needed")
            b = run([two(False), three(False)], ch=env["charge"] * 0.0 + 3.0)
            return [("independent-of-total-charge", a, b)]
        if name == "mixed":
            a = run([three(True), two(False)], q=env["q1"])
            b = run([three(True)], q=env["q1"]) + run([two(False), ])
            expect(eeq, 0, "eeq-only-if-needed")
            return [("only-charge-dependent-terms-see-charges", a, b)]
        if name == "last":
            q = env["qe"] + env["charge"].unsqueeze(-1) * 0.0625 + env["ceeq"] * 0.01
            a = run([three(False), two(True)])
            expect(eeq, 1, "eeq-once")
            return [("any-position-of-the-charge-dependent-term", a, run([three(False), two(True)], q=q))]
        if name == "many":
            q = env["qe"] + env["charge"].unsqueeze(-1) * 0.0625 + env["ceeq"] * 0.01
            ts = [two(False) for _ in range(9)] + [two(True)]
            a = run(ts)
            expect(eeq, 1, "eeq-once")
            return [("any-number-of-terms-before-the-charge-dependent-one", a, run(ts, q=q))]
        raise KeyError(name)
    return body


def _disp(Disp, env, dt, ts):
    d = Disp(model=StubModel(env["c6"], env.get("aiw")), cn_fn=cn(env), dtype=dt)
    for t in ts:
        d.register(t)
    return d


def properties(rank, dt, charge, cutoff):
    """get_properties reports what the D4 model gives for its CN and EEQ charges."""
    b = BATCH[rank]
    inp = minputs(rank, dt, ["Z"]) + std_inputs(rank, dt, ["pos", "cn"])
    inp.append(Inp("qe", (*b, "n"), DT[dt], gen_wide(-0.4, 0.4, 7.0)))
    inp.append(Inp("charge", b, DT[dt], gen_u(-2, 2)))
    inp.append(Inp("ceeq", (), DT[dt], gen_u(5, 30), lo=1))

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.cutoff import Cutoff
        eeq = Eeq(env["qe"])
        seen = []

        def cnf(numbers, positions, *a, **k):
            seen.append((numbers, positions))
            return env["cn"]

        kw = {}
        if charge:
            kw["charge"] = env["charge"]
        if cutoff:
            kw["cutoff"] = Cutoff(cn_eeq=env["ceeq"], dtype=DT[dt])
        with patched("tad_multicharge", "get_eeq_charges", eeq), patched("tad_mctc.ncoord", "cn_d4", cnf):
            c, q, c6, al = d4.get_properties(env["Z"], env["pos"], **kw)
        if len(eeq.calls) != 1 or not seen:
            raise relate.Mismatch("dependencies", f"{len(eeq.calls)} EEQ and {len(seen)} CN evaluations")
        ch = eeq.calls[0][2]
        want = env["qe"] + ((env["charge"].unsqueeze(-1) if charge else 0.0) * 0.0625) + (env["ceeq"] if cutoff else 25.0) * 0.01
        m = d4.model.D4Model(env["Z"], dtype=DT[dt])
        w = m.weight_references(env["cn"], want)
        return [("coordination-numbers", c, env["cn"]), ("charges", q, want), ("c6", c6, m.get_atomic_c6(w)), ("polarizabilities", al, m.get_polarizabilities(w))]

    return Scenario(f"get_properties[rank{rank},{dt},charge={charge},cutoff={cutoff}]", "tad_dftd4.disp.get_properties", inp, call,
                    [Out("c6", (*b, "n", "n"), None)], dtype=dt, axioms={}, positions=(), dims={"n": (1, 4)})


def energy_of_properties(rank, dt):
    """dftd4 with the default model is the dispersion energy of the C6 that
    get_properties reports (charge-free C6 in the three-body term)."""
    inp = [p for p in qinputs(rank, dt) if p.name != "c6"]

    def call(env):
        import tad_dftd4 as d4
        from tad_dftd4.cutoff import Cutoff
        from tad_dftd4.data import R4R2
        from tad_dftd4.dispersion.twobody import dispersion2
        from tad_dftd4.damping import ZeroDamping
        from tad_dftd4.dispersion.d4 import D4ATMApprox
        f = DT[dt]
        eeq = Eeq(env["qe"])
        param = {k: env["p_" + k] for k in PN}
        cut = Cutoff(disp2=env["cut"], disp3=env["cut"], cn_eeq=env["ceeq"], dtype=f)
        cnf = lambda numbers, positions, *a, **k: env["cn"]
        with patched("tad_multicharge", "get_eeq_charges", eeq), patched("tad_mctc.ncoord", "cn_d4", cnf):
            _, q, c6, _ = d4.get_properties(env["Z"], env["pos"], env["charge"], cutoff=cut)
            p0 = dict(param, s9=0.0 * param["s9"])
            e = d4.dftd4(env["Z"], env["pos"], env["charge"], p0, cutoff=cut, cn_function=cnf, r4r2=env["r4r2"], rvdw=env["rvdw"])
        want = dispersion2(env["Z"], env["pos"], param, c6, env["r4r2"], cutoff=env["cut"])
        return [("two-body-energy-from-reported-C6", e, want)]

    return Scenario(f"dftd4 uses get_properties[rank{rank},{dt}]", "tad_dftd4.disp.dftd4", inp, call,
                    [Out("energy", (*BATCH[rank], "n"), None)], derive=derive_dist, dtype=dt, dims={"n": (1, 4)})


def charges_whole(rep, rng):
    """Real EEQ charges and coordination numbers."""
    import tad_dftd4 as d4
    from tad_mctc.ncoord import cn_d4
    from tad_multicharge import get_eeq_charges

    z, x = whole.molecule(rng)
    f = torch.float64
    Z, X = torch.as_tensor(z), torch.as_tensor(x, dtype=f)
    num = [float(rng.integers(-2, 3)), int(rng.integers(-2, 3)), round(float(rng.uniform(-2, 2)), 3), 0.5][int(rng.integers(0, 4))]
    ch = torch.tensor(float(num), dtype=f)
    cut = d4.cutoff.Cutoff(cn_eeq=torch.tensor(float(rng.choice([3.0, 6.0, 25.0])), dtype=f), dtype=f)
    q = get_eeq_charges(Z, X, ch, cutoff=cut.cn_eeq)
    for model in ("d4", "d4s"):
        a = d4.dftd4(Z, X, ch, whole.param(f), cutoff=cut, model=model)
        b = d4.dftd4(Z, X, torch.tensor(5.0, dtype=f), whole.param(f), cutoff=cut, q=q, model=model)
        r = relate.cmp(a.numpy(), b.numpy(), 1e-9, 1e-11)
        if r:
            return f"{model}: energy from the total charge {r} (EEQ charges supplied)", (z, x, ch)
        # the total charge as a number, in both interfaces
        for nm, b in (("dftd4", d4.dftd4(Z, X, num, whole.param(f), cutoff=cut, model=model)),
                      ("DispD4", d4.dispersion.DispD4(model=model, dtype=f).calculate(Z, X, num, whole.param(f), cutoff=cut))):
            r = relate.cmp(b.numpy(), a.numpy(), 1e-9, 1e-11)
            if r:
                return f"{nm}/{model}: total charge {num!r} as a number: {r} (as a tensor)", (z, x, ch)
        p = whole.param(f, s6=0.0, s8=0.0)
        a, b = d4.dftd4(Z, X, ch, p, model=model), d4.dftd4(Z, X, ch + 1.0, p, model=model)
        r = relate.cmp(a.numpy(), b.numpy(), 1e-9, 1e-11)
        if r:
            return f"{model}: three-body energy depends on the charge: {r}", (z, x, ch)
    c, q2, c6, al = d4.get_properties(Z, X, ch, cutoff=cut)
    m = d4.model.D4Model(Z, dtype=f)
    w = m.weight_references(cn_d4(Z, X), q)
    for nm, g, v in (("cn", c, cn_d4(Z, X)), ("q", q2, q), ("c6", c6, m.get_atomic_c6(w)), ("alpha", al, m.get_polarizabilities(w))):
        r = relate.cmp(g.numpy(), v.numpy(), 1e-9, 1e-11)
        if r:
            return f"get_properties {nm}: {r}", (z, x, ch)
    for nm, g, v in zip(whole.NAMES, d4.get_properties(Z, X, num, cutoff=cut), (c, q2, c6, al)):
        r = relate.cmp(g.numpy(), v.numpy(), 1e-9, 1e-11)
        if r:
            return f"get_properties {nm}: total charge {num!r} as a number: {r} (as a tensor)", (z, x, ch)
    g0 = d4.get_properties(Z, X)
    g1 = d4.get_properties(Z, X, torch.tensor(0.0, dtype=f))
    for nm, g, v in zip(whole.NAMES, g0, g1):
        r = relate.cmp(g.numpy(), v.numpy(), 1e-9, 1e-11)
        if r:
            return f"get_properties {nm} without a charge: {r}", (z, x)
    return None, None


def run(rep):
    rep.assume("tad_multicharge.get_eeq_charges(numbers, positions, charge, cutoff) returns the EEQ charges (dependency; stand-in in the proof, real function in the whole-program runs)")
    for rank, dt in ((0, "f64"), (1, "f64"), (1, "f32"), (2, "f64")):
        for nm, body, extra in (("EEQ charges", eeq_used, ()), ("default EEQ cutoff", eeq_default_cut, ()), ("given charges", given, ("q1",)),
                                ("three-body", three_body, ("q1", "q2")), ("no charge-dependent term", terms_of("none-charge-dependent"), ()),
                                ("mixed terms", terms_of("mixed"), ("q1",)), ("charge-dependent term last", terms_of("last"), ()), ("many terms", terms_of("many"), ()), ("exact three-body", terms_of("exact"), ("q1", "aiw"))):
            if rank == 2 and nm not in ("EEQ charges", "given charges"):
                continue
            relate.equal_runs(rep, mk(rank, dt, nm, body, extra), count=5 if extra else 3)
    for rank, dt in ((0, "f64"), (1, "f64"), (1, "f32")):
        for ch in (True, False):
            for cu in (True, False):
                relate.equal_runs(rep, properties(rank, dt, ch, cu), count=3)
        relate.equal_runs(rep, energy_of_properties(rank, dt), count=3)
    whole.run(rep, charges_whole, 8, "whole program: charges")
