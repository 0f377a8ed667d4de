"""Generate /verif/seeded/<id> from the list of planted bugs (development tool;
no check reads it).  usage: plant.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import torch, numpy as np
import tad_dftd4 as d4
torch.set_num_threads(1)
def die(msg):
    print("FAIL:", msg); sys.exit(1)
def same(a, b, tol=1e-9, what="values differ"):
    if not torch.allclose(torch.as_tensor(a), torch.as_tensor(b), rtol=tol, atol=tol*1e-3):
        die(f"{what}: {a} vs {b}")
WATER = torch.tensor([8, 1, 1]); 
WPOS = torch.tensor([[0.,0,0],[1.4,1.1,0],[-1.4,1.1,0.2]], dtype=torch.float64)
def P(dt=torch.float64, **kw):
    p = dict(s6=1.0, s8=0.95948085, s9=1.0, a1=0.38574991, a2=4.80688534, alp=16.0); p.update(kw)
    return {k: torch.tensor(v, dtype=dt) for k, v in p.items()}
C0 = torch.tensor(0.0, dtype=torch.float64)
'''
S = "src/tad_dftd4/"
BUGS = {}


def bug(id, prop, file, old, new, demo, needs, what):
    BUGS[id] = (prop, file if isinstance(file, list) else [(file, old, new)], demo, needs, what)


bug("b01", "C01", S + "dispersion/twobody.py", '''            mask * (distances <= cutoff),
            damping_function(distances, radii, 10, **param),''', '''            mask,
            damping_function(distances, radii, 10, **param),''', '''
from tad_dftd4.dispersion.twobody import dispersion2
Z = torch.tensor([6, 6]); pos = torch.tensor([[0.,0,0],[12.,0,0]], dtype=torch.float64)
c6 = torch.full((2,2), 30.0, dtype=torch.float64); r = torch.tensor([3.0,3.0], dtype=torch.float64)
e = dispersion2(Z, pos, P(s10=1.0), c6, r, cutoff=torch.tensor(10.0, dtype=torch.float64))
same(e, torch.zeros(2, dtype=torch.float64), what="pair beyond the cutoff contributes")
''', "s10 in the parameters and a pair beyond the two-body cutoff", "the 1/r^10 term ignores the cutoff")

bug("b02", "C02", S + "dispersion/threebody.py", "            cutoff=cutoff.disp3,", "            cutoff=torch.minimum(cutoff.disp3, cutoff.disp2),", '''
from tad_dftd4.cutoff import Cutoff
from tad_dftd4.dispersion.d4 import D4ATMApprox
from tad_dftd4.dispersion import Disp
d = Disp(dtype=torch.float64); d.register(D4ATMApprox())
a = d.calculate(WATER, WPOS, C0, P(), cutoff=Cutoff(disp2=1.0, dtype=torch.float64))
b = d.calculate(WATER, WPOS, C0, P())
if b.abs().sum() == 0: die("no three-body energy")
same(a, b, what="three-body energy depends on the two-body cutoff")
''', "a two-body cutoff smaller than the three-body cutoff", "the three-body term is cut off at the two-body cutoff")

bug("b03", "C07", S + "model/d4.py", "maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]", "maxcn = torch.amax(refcn)", '''
m = d4.model.D4Model(torch.tensor([1, 6]), ga=0.0, dtype=torch.float64)
w = m.weight_references(torch.tensor([30.0, 3.0], dtype=torch.float64))
same(w.sum(-1), torch.ones(2, dtype=torch.float64), what="weights do not sum to one")
''', "an atom whose Gaussians all underflow next to an element with a higher reference coordination number", "its weights vanish instead of summing to one")

bug("b04", "C08", S + "model/base.py", "            torch.exp(ga * (1.0 - scale)),\n            torch.exp(ga),", "            torch.exp(ga * (1.0 - scale)),\n            torch.exp(torch.tensor(GA_DEFAULT, **self.dd)),", '''
m = d4.model.D4Model(torch.tensor([1]), ga=1.5, dtype=torch.float64)
w = m.weight_references(torch.tensor([1.0], dtype=torch.float64), torch.tensor([-1.5], dtype=torch.float64))
same(w.sum(-1), torch.exp(torch.tensor([1.5], dtype=torch.float64)), tol=1e-6, what="plateau of the charge scaling")
''', "a non-default ga and an atom whose charge exceeds the effective nuclear charge", "the charge scaling plateau uses the default ga")

bug("b05", "C09", S + "model/base.py", "gam = data.GAM(**self.dd)[refsys] * self.gc", "gam = data.GAM(**self.dd)[refsys] * GC_DEFAULT", '''
Z = torch.tensor([6])
a = d4.model.D4Model(Z, gc=1.0, dtype=torch.float64)._get_alpha()
b = d4.model.D4Model(Z, gc=2.0, dtype=torch.float64)._get_alpha()
if torch.allclose(a, b): die("polarizabilities do not depend on gc")
''', "a non-default gc", "reference polarizabilities use the default charge steepness")

bug("b06", "C13", S + "dispersion/base.py", "is_c_dep = any(t.charge_dependent for t in self.terms)", "is_c_dep = bool(self.terms) and self.terms[0].charge_dependent", '''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm
def run(order):
    d = Disp(dtype=torch.float64)
    t2, t3 = TwoBodyTerm(charge_dependent=True), D4ATMApprox()
    for t in ((t2, t3) if order else (t3, t2)): d.register(t)
    return d.calculate(WATER, WPOS, C0, P())
same(run(True), run(False), what="charges depend on the order of terms")
''', "a charge-dependent term that is not registered first", "EEQ charges are not computed, the energy is that of neutral atoms")

bug("b07", "C14", S + "dispersion/base.py", '''        if q is not None:
            if numbers.shape != q.shape:''', '''        if q is not None:
            if numbers.numel() != q.numel():''', '''
Z = torch.tensor([[1, 1], [1, 1]]); pos = torch.tensor([[[0.,0,0],[1.4,0,0]],[[0.,0,0],[1.5,0,0]]], dtype=torch.float64)
try:
    d4.dftd4(Z, pos, torch.zeros(2, dtype=torch.float64), P(), q=torch.zeros(1, 4, dtype=torch.float64).reshape(2,2,1)[..., 0].unsqueeze(0))
except ValueError:
    pass
except Exception as e:
    die(f"wrong exception {type(e).__name__}: {e}")
else:
    die("charges of the wrong shape accepted")
''', "charges with the right number of elements but the wrong shape", "wrongly shaped charges are broadcast or fail late")

bug("b08", "C19", S + "dispersion/threebody.py", "    cutoff2 = cutoff * cutoff\n", "    cutoff2 = cutoff.pow_(2)\n", '''
from tad_dftd4.cutoff import Cutoff
c = Cutoff(dtype=torch.float64)
d4.dftd4(WATER, WPOS, C0, P(), cutoff=c)
if c.disp3.item() != 40.0: die(f"cutoff object modified: {c.disp3}")
''', "re-use of one cutoff object in several calls", "the caller's three-body cutoff is squared in place")

bug("b09", "C22", S + "disp.py", "    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)\n\n    model", "    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn)\n\n    model", '''
from tad_dftd4.cutoff import Cutoff
a = d4.get_properties(WATER, WPOS, C0, cutoff=Cutoff(cn_eeq=0.5, dtype=torch.float64))[1]
b = d4.get_properties(WATER, WPOS, C0)[1]
from tad_multicharge import get_eeq_charges
w = get_eeq_charges(WATER, WPOS, C0, cutoff=torch.tensor(0.5, dtype=torch.float64))
same(a, w, what="charges do not use the EEQ cutoff")
''', "a Cutoff whose cn and cn_eeq entries differ", "get_properties uses the wrong cutoff for the EEQ charges")

bug("b10", "C12", S + "dispersion/base.py", "        self.terms.remove(term)", "        self.terms = [t for t in self.terms if t != term]", '''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
d = Disp(dtype=torch.float64)
d.register(TwoBodyTerm()); d.register(TwoBodyTerm())
two = d.calculate(WATER, WPOS, C0, P())
d.deregister(TwoBodyTerm())
one = d.calculate(WATER, WPOS, C0, P())
same(2 * one, two, what="removing one of two equal terms")
''', "the same kind of term registered twice and deregistered once", "all equal terms are removed")

bug("b11", "C18", S + "dispersion/twobody.py", "        cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)", "        cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF)\n    param = {k: v.to(torch.get_default_dtype()).to(positions.dtype) if isinstance(v, Tensor) and not v.requires_grad else v for k, v in param.items()}", '''
from tad_dftd4.dispersion.twobody import dispersion2
Z = torch.tensor([6, 6]); pos = torch.tensor([[0.,0,0],[6.,0,0]], dtype=torch.float64)
c6 = torch.full((2,2), 30.0, dtype=torch.float64); r = torch.tensor([3.0,3.0], dtype=torch.float64)
p = P()
e = dispersion2(Z, pos, p, c6, r)
qq = 27.0; r0 = p["a1"].item()*qq**0.5 + p["a2"].item()
want = -0.5*(30/(6**6+r0**6) + p["s8"].item()*30*qq/(6**8+r0**8))
same(e, torch.full((2,), want, dtype=torch.float64), tol=1e-11, what="double-precision energy")
''', "double precision and parameters that are not exactly representable in single precision", "parameters are rounded to single precision")

bug("b12", "C17", S + "dispersion/base.py", '''            q = get_eeq_charges(
                numbers, positions, charge, cutoff=cutoff.cn_eeq
            )
''', '''            with torch.set_grad_enabled(
                torch.is_grad_enabled() and positions.requires_grad
            ):
                q = get_eeq_charges(
                    numbers, positions, charge, cutoff=cutoff.cn_eeq
                )
''', '''
c = C0.clone().requires_grad_(True)
e = d4.dftd4(WATER, WPOS, c, P()).sum()
if not e.requires_grad: die("energy does not depend on the total charge")
g, = torch.autograd.grad(e, c)
h = 1e-4
num = (d4.dftd4(WATER, WPOS, C0 + h, P()).sum() - d4.dftd4(WATER, WPOS, C0 - h, P()).sum()) / (2*h)
same(g, num, tol=1e-5, what="charge derivative")
''', "a derivative with respect to the total charge while the positions require none", "the charge dependence is cut out of the graph")

bug("b13", "C03", S + "damping/functions.py", "if bound.arguments.get(name, _MISSING) in (None, _MISSING)", "if not bound.arguments.get(name, _MISSING)\n                or bound.arguments[name] is _MISSING", '''
from tad_dftd4.damping.functions import RationalDamping
d = torch.tensor([4.0], dtype=torch.float64); r = torch.tensor([9.0], dtype=torch.float64)
f = RationalDamping()(d, r, 6, s6=1.0, a1=0.0, a2=5.0)
same(f, 1/(d**6 + 5.0**6), what="a1 = 0 is a value")
''', "a required damping parameter that is exactly zero", "zero counts as a missing parameter and raises TypeError")

bug("b14", "C20", S + "damping/parameters/loader.py", """    if variant not in variant_section:
        raise KeyError(
            f"Variant '{variant}' not found for functional=\"""", """    if variant not in variant_section and len(variant_section) == 1:
        variant = next(iter(variant_section))
    if variant not in variant_section:
        raise KeyError(
            f"Variant '{variant}' not found for functional=\"""", '''
import tomllib, glob
from tad_dftd4.damping.parameters import get_params
path = "src/tad_dftd4/damping/parameters/d4.toml"
tab = tomllib.load(open(path, "rb"))["parameter"]
n = 0
for f, sec in tab.items():
    if len(sec.get("d4", {})) != 1: continue
    n += 1
    try: get_params(method="d4", functional=f, variant="no-such-variant")
    except KeyError: continue
    die(f"unknown variant accepted for {f}")
if not n: die("no functional with one variant")
''', "a functional with exactly one parametrised variant and a request for another one", "another variant is substituted silently")

bug("b15", "C19", S + "dispersion/twobody.py", '    s6 = param.get("s6", torch.tensor(defaults.S6, **dd))', '    s6 = param.setdefault("s6", torch.tensor(defaults.S6, **dd))', '''
p = P(); del p["s6"]
d4.dftd4(WATER, WPOS, C0, p)
if "s6" in p: die("the parameter dictionary was modified")
p["a1"] = p["a1"].float(); 
''', "a parameter dictionary without s6", "the default is stored in the caller's dictionary (with the dtype of the first call)")

bug("b16", "C22", S + "dispersion/base.py", "            return D4SModel(numbers=numbers, **self._model_kwargs, **self.dd)", '''            kwargs = {
                k: v for k, v in self._model_kwargs.items() if k != "ref_charges"
            }
            return D4SModel(numbers=numbers, **kwargs, **self.dd)''', '''
from tad_dftd4.dispersion import DispD4
q = torch.tensor([-0.4, 0.2, 0.2], dtype=torch.float64)
mk = lambda ch: DispD4(model="d4s", model_kwargs={"ref_charges": ch}, dtype=torch.float64).calculate(WATER, WPOS, C0, P(), q=q)
if torch.equal(mk("eeq"), mk("gfn2")): die("reference charges have no effect")
''', "the D4S model selected by name together with ref_charges in model_kwargs", "the reference charges are ignored")

bug("b17", "C16", S + "model/d4s.py", "        if with_dgwdq is True:", "        if with_dgwdq is True and self.ref_charges == \"eeq\":", '''
m = d4.model.D4SModel(WATER, ref_charges="gfn2", dtype=torch.float64)
cn = torch.tensor([2.0, 1.0, 1.0], dtype=torch.float64); q = torch.tensor([-0.3, 0.1, 0.2], dtype=torch.float64)
out = m.weight_references(cn, q, with_dgwdq=True)
if len(out) != 2: die("no charge derivative")
h = 1e-5
num = (m.weight_references(cn, q + h) - m.weight_references(cn, q - h)) / (2*h)
same(out[1], num, tol=1e-5, what="charge derivative")
''', "D4S charge derivative with GFN2 reference charges", "the requested derivative is missing")

bug("b20", "C11", S + "model/base.py", "return torch.where(alpha > 0.0, alpha, zero)", "return torch.where(alpha > -0.002, alpha, zero)", '''
n = torch.arange(1, 87)
for ch in ("eeq", "gfn2"):
    a = d4.model.D4Model(n, ref_charges=ch, dtype=torch.float64, rc6=torch.zeros(1))._get_alpha()
    if (a < 0).any(): die(f"negative reference polarizability: {a.min()} ({ch})")
''', "an element whose hydrogen-corrected polarizability is slightly negative at high frequency", "small negative polarizabilities survive")

bug("b21", "C13", S + "disp.py", "    weights = model.weight_references(cn, q)\n", "    weights = model.weight_references(cn, q.clamp(min=-1.0, max=1.0))\n", '''
n = torch.tensor([12, 8]); x = torch.tensor([[0.,0,0],[0,0,3.3]], dtype=torch.float64)
cn, q, c6, al = d4.get_properties(n, x, torch.tensor(2.0, dtype=torch.float64))
if q.abs().max() <= 1: die("demo system has small charges only")
m = d4.model.D4Model(n, dtype=torch.float64)
w = m.weight_references(cn, q)
same(al, m.get_polarizabilities(w), what="polarizabilities")
''', "an atomic EEQ charge beyond one", "properties are evaluated with clipped charges")

bug("b25", "C04", S + "dispersion/threebody.py", "    cutoff2 = cutoff * cutoff\n", "    if numbers.ndim > 1 and int((numbers > 0).sum(-1).min()) < 2:\n        return torch.zeros_like(positions[..., 0])\n\n    cutoff2 = cutoff * cutoff\n", '''
n = torch.tensor([[8, 1, 1], [18, 0, 0]]); x = torch.stack([WPOS, WPOS]); x[1, 1:] = 0
e = d4.dftd4(n, x, torch.zeros(2, dtype=torch.float64), P(s9=5.0))
same(e[0], d4.dftd4(WATER, WPOS, C0, P(s9=5.0)), what="water in a batch with an atom")
''', "a batch with a single atom", "the three-body energy of all systems of the batch is lost")

bug("b24", "C06", S + "dispersion/twobody.py", "    mask = real_pairs(numbers, mask_diagonal=True)\n", '''    box = positions.amax(-2) - positions.amin(-2)
    cutoff = torch.minimum(cutoff, 1.6 * box.amax() + 1.0)

    mask = real_pairs(numbers, mask_diagonal=True)
''', '''
n = torch.tensor([18, 18]); r = 30.0
a = torch.tensor([[0.,0,0],[0,0,r]], dtype=torch.float64)
b = torch.tensor([[0.,0,0],[r/3**0.5]*3], dtype=torch.float64)
same(d4.dftd4(n, a, C0, P()), d4.dftd4(n, b, C0, P()), what="rotated dimer")
''', "atoms far apart along a space diagonal", "the cutoff shrinks to the box that contains the molecule, so some pairs are lost in some orientations")

bug("b26", "C01", S + "dispersion/twobody.py", '''        mask * (distances <= cutoff),
        damping_function(distances, radii, 8, **param),''', '''        mask * (distances < cutoff),
        damping_function(distances, radii, 8, **param),''', '''
from tad_dftd4.dispersion.twobody import dispersion2
f = torch.float64
n = torch.tensor([6, 6]); x = torch.tensor([[0.,0,0],[0,0,8.0]], dtype=f)
c6 = torch.full((2,2), 30.0, dtype=f); r = torch.tensor([3.0,3.0], dtype=f)
same(dispersion2(n, x, P(), c6, r, cutoff=torch.tensor(8.0, dtype=f)), dispersion2(n, x, P(), c6, r), what="pair exactly at the cutoff")
''', "a pair exactly at the two-body cutoff", "its eighth-order term is dropped while the sixth-order term is kept")

bug("b28", "C18", S + "model/d4s.py", "        dcn = cn.type(torch.double).unsqueeze(-1).unsqueeze(-3) - refcn", "        dcn = (cn.unsqueeze(-1).unsqueeze(-3) - refcn.type(cn.dtype)).double()", '''
n = torch.arange(1, 87); f = torch.float32
cn = torch.linspace(0.1, 7.3, 86).float()
a = d4.model.D4SModel(n, dtype=f).weight_references(cn).double()
b = d4.model.D4SModel(n, dtype=torch.float64).weight_references(cn.double())
err = ((a - b) / b.clamp(min=1e-6)).abs().max().item()
if err > 3e-6: die(f"single-precision weights are off by {err}")
''', "single precision and narrow Gaussians", "coordination number differences are rounded to single precision before the Gaussians")

bug("b18", "C21", S + "data/r4r2.py", "10.1997, 9.5414,", "10.1997, 9.5441,", '''
from tad_dftd4.data import R4R2
v = R4R2(dtype=torch.float64)[45]
same(v, (0.5 * torch.tensor(9.5414, dtype=torch.float64) * 45**0.5).sqrt(), tol=1e-8, what="r4r2 of element 45")
''', "a system that contains rhodium", "two digits of one tabulated r4/r2 value are swapped")

bug("b19", "C10", S + "model/d4s.py", "maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]", "maxcn = torch.amax(refcn, dim=(-3, -2, -1), keepdim=True)", '''
m = d4.model.D4SModel(torch.tensor([1, 6]), ga=0.0, dtype=torch.float64)
w = m.weight_references(torch.tensor([30.0, 3.0], dtype=torch.float64))
same(w[:, 0].sum(-1), torch.ones(2, dtype=torch.float64), what="weights do not sum to one")
''', "a strongly over-coordinated atom next to an element with a higher reference coordination number", "its D4S weights vanish instead of falling back to its own highest reference")

bug("b29", "C12", S + "dispersion/base.py", "        self.terms.remove(term)", "        self.terms.remove(term)\n        while term in self.terms:\n            self.terms.remove(term)", '''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
d = Disp(dtype=torch.float64)
d.register(TwoBodyTerm()); d.register(TwoBodyTerm())
d.deregister(TwoBodyTerm())
if len(d.terms) != 1: die(f"{len(d.terms)} terms left instead of one")
''', "the same kind of term registered twice", "removing one term removes all equal ones")


bug("b30", "C05", S + "dispersion/threebody.py", "        * (r2ij <= cutoff2)\n        * (r2jk <= cutoff2)", "        * (r2ij.maximum(distances[..., :1, :].unsqueeze(-1) / 4) <= cutoff2)\n        * (r2jk <= cutoff2)", '''
from tad_dftd4.dispersion.threebody import get_atm_dispersion
x = torch.tensor([0.0, 30.0, 60.0, 63.0, 61.0], dtype=torch.float64)
p = torch.stack([x, torch.tensor([0.0, 0, 0, 0, 3.0], dtype=torch.float64), 0 * x], -1)
n = torch.tensor([6, 8, 1, 1, 6])
c9 = torch.ones(5, 5, 5, dtype=torch.float64); r0 = torch.full((5, 5), 3.0, dtype=torch.float64)
cut = torch.tensor(25.0, dtype=torch.float64)
a = get_atm_dispersion(n, p, c9, r0, cut)
b = get_atm_dispersion(n.flip(0), p.flip(0), c9, r0, cut).flip(0)
same(a, b, what="atoms far from the first one lose their triples")
''', "a system much longer than the three-body cutoff", "triples whose atoms lie far from the first listed atom are dropped")

bug("b32", "C19", [(S + "dispersion/base.py", "        energy = torch.zeros_like(numbers, **dd)\n        for term in self.terms:", "        energy = torch.zeros_like(numbers, **dd)\n        self.terms, terms = [], self.terms\n        for term in terms:"),
    (S + "dispersion/base.py", "                cutoff=cutoff,\n            )\n\n        return energy", "                cutoff=cutoff,\n            )\n\n        self.terms = terms\n        return energy")], None, None, '''
from tad_dftd4.dispersion import DispD4
f = torch.float64
d = DispD4(dtype=f)
want = d.calculate(WATER, WPOS, C0, P())
same(d.calculate(WATER, WPOS, C0, P()), want, what="second call")
try:
    d.calculate(WATER, WPOS, C0, {"s8": torch.tensor(1.0, dtype=f)})
except Exception:
    pass
same(d.calculate(WATER, WPOS, C0, P()), want, what="call after a rejected one")
''', "a calculator that is used again after a call with an incomplete parameter set was rejected", "the calculator has lost its terms and returns zero")

bug("b34", "C15", S + "dispersion/threebody.py", "a1 * storch.sqrt(3.0", "a1 * torch.sqrt(3.0", '''
f = torch.float64
Z = torch.tensor([[8, 1, 1], [1, 1, 0]])
X = torch.stack([WPOS, torch.tensor([[0.0, 0, 0], [1.5, 0, 0], [0, 0, 0]], dtype=f)])
r = d4.data.R4R2(dtype=f)[Z].clone().requires_grad_()
e = d4.dftd4(Z, X, torch.zeros(2, dtype=f), P(), r4r2=r)
(g,) = torch.autograd.grad(e.sum(), r)
if not torch.isfinite(g).all(): die(f"gradient with respect to r4r2 is not finite: {g}")
''', "derivatives with respect to the r4/r2 values of a padded batch", "padded entries poison the gradient with NaN")

bug("b35", "C22", S + "dispersion/base.py", "            self._model_instance = model\n", "            self._model_instance = model\n            model.ref_charges = model_kwargs.get(\"ref_charges\", \"eeq\") if model_kwargs else \"eeq\"\n", '''
f = torch.float64
from tad_dftd4.dispersion import DispD4
a = d4.dftd4(WATER, WPOS, C0, P(), model=d4.model.D4Model(WATER, ref_charges="gfn2", dtype=f))
b = DispD4(model="d4", model_kwargs={"ref_charges": "gfn2"}, dtype=f).calculate(WATER, WPOS, C0, P())
same(a, b, what="reference charges of the model instance")
''', "a model instance with GFN2 reference charges", "the reference charges of the supplied model are replaced by the default ones")

bug("b36", "C04", S + "dispersion/threebody.py", "        aiw = model.get_weighted_pols(weights)\n", "        if weights.ndim == 4:\n            weights = weights.flip(-3)\n        aiw = model.get_weighted_pols(weights)\n", '''
from tad_dftd4.dispersion.d4 import DispD4Exact
f = torch.float64
Z = torch.tensor([[8, 1, 1, 0], [6, 1, 17, 9]])
X = torch.zeros(2, 4, 3, dtype=f); X[0, :3] = WPOS
X[1] = torch.tensor([[0.0, 0, 0], [2.1, 0, 0], [-1.0, 3.2, 0], [-1.1, -1.3, 2.2]], dtype=f)
e = DispD4Exact(model="d4s", dtype=f).calculate(Z, X, torch.zeros(2, dtype=f), P(s9=100.0))
a = DispD4Exact(model="d4s", dtype=f).calculate(WATER, WPOS, C0, P(s9=100.0))
same(e[0, :3], a, what="system in a batch")
''', "exact C9 coefficients with the D4S model in a padded batch", "the partner axis of the D4S weights no longer matches the padding mask")

bug("b37", "C19", S + "dispersion/threebody.py", "        aiw = model.get_weighted_pols(weights)\n", "        model.ref_charges = \"eeq\"\n        aiw = model.get_weighted_pols(weights)\n", '''
from tad_dftd4.dispersion.d4 import DispD4Exact
f = torch.float64
m = d4.model.D4Model(WATER, ref_charges="gfn2", dtype=f)
want = m.weight_references(torch.ones(3, dtype=f))
DispD4Exact(model=m, dtype=f).calculate(WATER, WPOS, C0, P())
same(m.weight_references(torch.ones(3, dtype=f)), want, what="weights of the caller's model after a calculation")
''', "a model of the caller with GFN2 charges in a calculation with exact C9 coefficients", "the calculation changes the model of the caller")


def main():
    ids = sys.argv[1:] or list(BUGS)
    for i in ids:
        prop, edits, demo, needs, what = BUGS[i]
        d = f"{HERE}/seeded/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"], check=True)
            try:
                for f, old, new in edits:
                    p = f"{t}/w/{f}"
                    s = open(p).read()
                    if s.count(old) != 1:
                        raise SystemExit(f"{i}: {s.count(old)} matches in {f}")
                    open(p, "w").write(s.replace(old, new))
                diff = subprocess.run(["git", "-C", t + "/w", "diff"], capture_output=True, text=True, check=True).stdout
            finally:
                subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"], check=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(PRE + demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)


if __name__ == "__main__":
    main()
