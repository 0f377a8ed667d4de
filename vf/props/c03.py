"""C03 damping functions."""
import itertools

import torch

from tad_dftd4.damping import functions as dfun

from ..scen import Out, Scenario, drive
from ..specs import *

# defaults of the call (documented in the signature)
CALL_DEFAULTS = {"s6": 1.0, "s9": 1.0, "rs9": 1.0, "alp": 16.0}
ZERO_IF = {6: ("s6", "rs6"), 8: ("s8", "rs8"), 9: ("s9", "rs9"), 10: ("s10",)}


def scenario(cls, order, given, nones, dt, only=False, floats=None):
    """given: names passed as tensors; nones: names passed as None;
    floats: name -> python number."""
    f, rt, orders, req = DAMP[cls]
    floats = floats or {}
    inp = [Inp("dd", ("nb", "n"), DT[dt], gen_u(1.5, 15), lo=Q(1, 10), grad=True),
           Inp("rr", ("nb", "n"), DT[dt], gen_u(1.0, 30), lo=Q(1, 10), grad=True)]
    pin, pmap = params(given, dt, **domain(cls))

    def call(env):
        kw = {k: env[v] for k, v in pmap.items()}
        kw.update({k: None for k in nones})
        kw.update(floats)
        if only:
            kw["only_damping"] = True
        return getattr(dfun, cls)()(env["dd"], env["rr"], order, **kw)

    have = {k: 1 for k in CALL_DEFAULTS}
    have.update({k: 1 for k in given})
    have.update({k: 1 for k in floats})
    for k in nones:
        have.pop(k, None)
    nm = f"{cls}[order {order},{'+'.join(given)}{',None:' + '+'.join(nones) if nones else ''}{',' + str(floats) if floats else ''}{',only_damping' if only else ''},{dt}]"
    raises = []
    spec = None

    def terms():
        p = {}
        for k in have:
            p[k] = sc("p_" + k) if k in given else R(Q(str(floats.get(k, CALL_DEFAULTS.get(k)))))
        return p

    if not any(k in have for k in ZERO_IF[order]):
        spec = lambda *ix: R(0)
    elif order in req and any(k not in have for k in req[order]):
        raises = [(TRUE, TypeError)]
    elif order not in orders:
        raises = [(TRUE, ValueError)]
    elif cls == "ZeroDamping":
        spec = lambda *ix: damp_zero(order, app("dd", ix), app("rr", ix), terms(), only)
    else:
        spec = lambda *ix: f(order, app("dd", ix), app("rr", ix), terms())
    return Scenario(nm, f"tad_dftd4.damping.functions.{cls}.__call__/_f", inp + pin, call,
                    [Out("f", ("nb", "n"), spec or (lambda *ix: R(0)))], raises=raises, dtype=dt, axioms={}, positions=())


def scenarios(tier):
    for cls, (f, rt, orders, req) in DAMP.items():
        allp = sorted({x for v in req.values() for x in v} - {"rs6", "rs8", "rs9"})
        for order in (6, 8, 9, 10):
            if cls == "RationalDamping" and order == 9:
                continue  # the rational form is defined for every order; no use of order 9
            sn = f"s{order}"
            rsn = f"rs{order}"
            names = ([sn] if order != 9 else ["s9"]) + ([rsn] if order in (6, 8, 9) and rt == "rvdw" else []) + allp
            for dt in (("f64", "f32") if order in orders else ("f64",)):
                yield scenario(cls, order, names, [], dt)
            if order in orders:
                # every presence subset (absent = not passed)
                for r in range(len(names)):
                    for sub in itertools.combinations(names, r):
                        yield scenario(cls, order, list(sub), [], "f64")
            nn = [k for k in ZERO_IF[order]]
            yield scenario(cls, order, [k for k in names if k not in nn], nn, "f64")
            if order in orders:
                for k in names:
                    yield scenario(cls, order, [x for x in names if x != k], [k], "f64")
                yield scenario(cls, order, [sn] if order in (6, 8) else ["s10"] if order == 10 else [], [], "f32",
                               floats={k: v for k, v in {"a1": 0.5, "a2": 4, "alp": 14, "bet": 2, rsn: 1.25}.items()
                                       if k in (*req[order],)})
                for z in (0, 0.0):  # zero is a value, not an omission
                    fl = {k: v for k, v in {"a1": z, "a2": 4, "alp": 14, "bet": z, rsn: 1.25, sn: z}.items() if k in (*req[order], sn)}
                    yield scenario(cls, order, [], [], "f64", floats=fl)
    for order in (6, 8, 9):
        for dt in ("f64", "f32"):
            yield scenario("ZeroDamping", order, [f"s{order}", f"rs{order}", "alp"], [], dt, only=True)


def run(rep):
    drive(rep, scenarios(rep.tier), count=3, thorough=20)
    # equality of damping functions is equality of their class
    names = list(DAMP)
    for a in names:
        for b in names:
            same = getattr(dfun, a)() == getattr(dfun, b)()
            if same is (a == b):
                rep.ok(f"Damping.__eq__[{a},{b}]")
            else:
                rep.fail_input(f"Damping.__eq__[{a},{b}]", f"{a}() == {b}() is {same}", {"a": a, "b": b})
