"""C20 parameter look-up: the whole finite domain, key by key."""
import json
import os

import numpy as np

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "params.json")


def cases(name, rng):
    out = [name, name.upper(), name.title(), name.swapcase()]
    out.append("".join(c.upper() if rng.integers(2) else c for c in name))
    return list(dict.fromkeys(out))


def run(rep):
    import tad_dftd4 as d4
    from tad_dftd4.damping.parameters import DispersionMethod

    rng = np.random.default_rng(rep.seed)
    rep.functions |= {"tad_dftd4.damping.parameters.loader.get_params", "tad_dftd4.damping.parameters.loader._load", "tad_dftd4.damping.parameters (d3.toml, d4.toml)"}
    rep.assume("published values: data/params.json (the collection of the pinned commit)", "tomli parses TOML")
    gold = json.load(open(GOLD))

    def look(**kw):
        rep.concrete += 1
        rep.concrete_nontrivial += 1
        try:
            return d4.get_params(**kw)
        except Exception as e:
            return e

    def expect(name, kw, want):
        got = look(**kw)
        if isinstance(want, type):
            if not isinstance(got, want):
                rep.fail_input(name, f"get_params(**{kw}) gives {got!r} instead of {want.__name__}", {"kwargs": {k: str(v) for k, v in kw.items()}})
                return False
            return True
        if isinstance(got, Exception) or dict(got) != want or any(type(got[k]) is bool for k in got):
            rep.fail_input(name, f"get_params(**{kw}) gives {got!r} instead of {want!r}", {"kwargs": {k: str(v) for k, v in kw.items()}})
            return False
        return True

    for meth, table in gold.items():
        dv = table["default"][meth]
        for func, sec in table["parameter"].items():
            variants = sec.get(meth, {})
            for var, block in variants.items():
                num = {k: v for k, v in block.items() if k != "doi"}
                good = True
                for f in cases(func, rng):
                    for m in (meth, DispersionMethod(meth)):
                        good &= expect(f"{meth}/{func}/{var}", dict(method=m, functional=f, variant=var), num)
                        good &= expect(f"{meth}/{func}/{var} with reference", dict(method=m, functional=f, variant=var, keep_doi=True), block)
                if good:
                    rep.ok(f"{meth}/{func}/{var}: exact entry, any case, with and without reference")
            # default variant
            if dv[0] in variants:
                b = variants[dv[0]]
                g = expect(f"{meth}/{func} default variant", dict(method=meth, functional=func), {k: v for k, v in b.items() if k != "doi"})
                g &= expect(f"{meth}/{func} default variant with reference", dict(method=meth, functional=func.upper(), keep_doi=True), b)
            else:
                g = expect(f"{meth}/{func} default variant missing", dict(method=meth, functional=func), KeyError)
            if g:
                rep.ok(f"{meth}/{func}: default variant")
            # unknown variants: of other functionals, of the other method, mutated
            names = {v for s in table["parameter"].values() for v in s.get(meth, {})} | {v for t in gold.values() for s in t["parameter"].values()
                     for k in t["default"] if k in gold for v in s.get(k, {})} | {"", " ", "bj ", "bj-eeq", "reference", "doi", "default", meth, var + "x", var[:-1], var.upper(), var.title(), f" {var}"}
            if all([expect(f"{meth}/{func} unknown variant", dict(method=meth, functional=func, variant=v), KeyError) for v in sorted(names - set(variants))]):
                rep.ok(f"{meth}/{func}: unknown variants rejected")
        # default set
        for f in (None, "default"):
            good = expect(f"{meth} default set", dict(method=meth, functional=f), table["default"]["parameter"][meth][dv[0]])
            for v in dv:
                good &= expect(f"{meth} default set {v}", dict(method=meth, functional=f, variant=v), table["default"]["parameter"][meth][v])
            good &= expect(f"{meth} default set, unknown variant", dict(method=meth, functional=f, variant="nothing"), KeyError)
            if good:
                rep.ok(f"{meth}: default set for functional={f}")
        # unknown functionals
        known = set(table["parameter"])
        cand = {"", " ", "pbe ", " pbe", "pbe0x", "parameter", "d3", "d4", meth, "functional", "pbe-d4", "none", "null", "0"}
        for f in known:
            for c in (f + "x", f[:-1], "x" + f, f + " ", f.replace("-", ""), f.replace("-", "_"), f + "-d4", f + "h", f + "0", f + "-d3", "r" + f):
                cand.add(c)
        cand |= {f for t in gold.values() for f in t["parameter"]}
        cand |= {"".join(chr(97 + int(i)) for i in rng.integers(0, 26, int(rng.integers(1, 9)))) for _ in range(40)}
        bad = [f for f in sorted(cand) if f.casefold() not in known and f.casefold() != "default"]
        # later additions to the collection are legitimate
        import tomli
        import tad_dftd4.damping.parameters as P
        try:
            now = tomli.load(open(os.path.join(os.path.dirname(P.__file__), f"{meth}.toml"), "rb"))["parameter"]
            bad = [f for f in bad if f.casefold() not in {k.casefold() for k in now}]
        except OSError:
            pass
        if all([expect(f"{meth} unknown functional", dict(method=meth, functional=f), KeyError) for f in bad]):
            rep.ok(f"{meth}: unknown functionals rejected ({len(bad)} names)")
            rep.bounded.append(f"{meth}: unknown functionals: {len(bad)} names (mutations of every known name), not all strings")
    for m in ("", "d2", "d6", "dftd4", "4", "xdm", "d4 ", "mbd"):
        if expect("unknown method", dict(method=m, functional="pbe"), ValueError):
            rep.ok(f"unknown method {m!r} rejected")
