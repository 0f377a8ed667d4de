"""Writes properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
S="src/tad_dftd4/"
p("C01","Two-body dispersion energy is the damped C6/C8/C10 pair sum",
 "For every system, the two-body dispersion energy attributed to an atom is minus one half of the sum, over all other real atoms of the same system that lie at or within the two-body cutoff, of s6*C6*f6 + s8*C8*f8 (+ s10*C10*f10 exactly when s10 is given), where C8 = C6*Q, C10 = 49/40*C6*Q^2 with Q = 3*r4r2(A)*r4r2(B), and f_n is the selected damping function's damped R^-n of the pair. A missing s6 means 1. The matrix form returns minus the same pair contributions without the one half, so half its row sums are the atom energies.",
 ["inputs","configurations"],"all numbers of atoms and batch sizes, all elements, geometries with distinct atoms, damping parameters (s8 given), cutoffs and damping functions",
 "The tests compare total energies of a few molecules with default cutoffs at loose tolerance; they cannot reach all pairs, cutoffs, parameter presence combinations and sizes.",
 [S+"dispersion/twobody.py",S+"defaults.py"],
 [("dispersion2",S+"dispersion/twobody.py"),("TwoBodyTerm.calculate",S+"dispersion/twobody.py"),("real_pairs mask","tad_mctc.batch")],["dispersion2","TwoBodyTerm.calculate","dftd4"])
p("C02","Three-body energy is the damped Axilrod-Teller-Muto triple sum",
 "For every system, the three-body energy attributed to an atom is s9/6 times the sum over ordered pairs of two further distinct real atoms of the same system of C9*f*(3/8*(a+b-c)(a-b+c)(-a+b+c)/(abc)^(5/2) + (abc)^(-3/2)), where a, b, c are the three squared distances, C9 is the approximate (square root of the product of the three C6) or exact coefficient, and f = 1/(1 + 6*(R0ab*R0bc*R0ca/(Rab*Rbc*Rca))^(alp/3)) with the chosen critical radii. A triple contributes only if all three of its distances are at or below the three-body cutoff. s9 defaults to 1 and alp to 16.",
 ["inputs","configurations"],"all atom counts and batch sizes, elements, geometries with distinct atoms, parameters, three-body cutoffs, C9 and radius variants",
 "Tests compare a few small molecules whose triples all lie inside the default cutoff, so cutoff, index-symmetry and parameter-default faults stay invisible.",
 [S+"dispersion/threebody.py",S+"dispersion/d4.py",S+"dispersion/d3.py",S+"utils.py",S+"defaults.py"],
 [("get_atm_dispersion",S+"dispersion/threebody.py"),("ATM.calculate / RadiiBJMixin / RadiiVDWMixin / C9ApproxMixin / C9ExactMixin",S+"dispersion/threebody.py"),("trapzd_atm",S+"utils.py")],["get_atm_dispersion","D4ATMApprox.calculate","D4ATMExact.calculate","D3ATM.calculate"])
p("C03","Damping functions have their published form and parameter contract",
 "For all positive distances and radii, rational damping returns 1/(R^n + (a1*sqrt(R0)+a2)^n), zero damping 1/(1+6*(rs*R0/R)^alp_n)/R^n (without the R^-n when only the damping is requested), modified zero damping 1/(1+6*(R/(rs*R0)+bet*R0)^-alp_n)/R^n and optimised-power damping R^bet/(R^(bet+n)+r^(bet+n)) with r = a1*sqrt(R0)+a2, where alp_n is alp for orders 6 and 9 and alp+2 for order 8. An order whose scaling parameters are all absent contributes exactly zero; otherwise a missing required parameter raises TypeError and an order the function does not define raises ValueError.",
 ["inputs","configurations"],"all positive distances and radii, all orders 6, 8, 9, 10, all parameter values and all subsets of supplied parameters, tensor or plain-number parameters",
 "Tests only check shapes, dtypes and a handful of missing-parameter errors; no value test for zero, modified zero and optimised-power damping exists.",
 [S+"damping/functions.py",S+"defaults.py"],
 [("Damping.__call__ / __init_subclass__ wrapper",S+"damping/functions.py"),("RationalDamping, ZeroDamping, MZeroDamping, OptimisedPowerDamping",S+"damping/functions.py")],["Damping.__call__"])
p("C04","Batching and zero padding never change a system's result",
 "Evaluating systems together in a zero-padded batch gives, for every system, the same per-atom energies, weights, C6 coefficients and polarizabilities as evaluating it alone: results of one system do not depend on any other system in the batch, on how much padding it carries, or on the (finite) coordinates, charges, radii or coordination numbers stored in padded entries. Padded atoms get exactly zero energy, C6 and polarizability.",
 ["inputs"],"all batches, batch sizes, padding amounts and padded-entry contents, both dispersion models, all terms",
 "Tests batch a few pairs of molecules with zero-filled padding only.",
 [S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"model/base.py",S+"model/d4.py",S+"model/d4s.py",S+"dispersion/base.py"],
 [("real_pairs/real_triples masks",S+"dispersion/twobody.py, "+S+"dispersion/threebody.py"),("refc/refsys masks",S+"model")],["dftd4","Disp.calculate","weight_references","get_atomic_c6"])
p("C05","Results are equivariant under reordering of atoms",
 "Reordering the atoms of a system (numbers, positions and any per-atom or per-pair input together) reorders the per-atom energies, coordination numbers, charges, weights, polarizabilities and the rows and columns of C6 in exactly the same way and changes nothing else. In particular the total energy does not depend on the atom order.",
 ["inputs"],"all systems, all permutations of atoms, both models, all terms and damping functions",
 "No existing test permutes atoms; sampled permutations could not cover all systems.",
 [S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"model/d4.py",S+"model/d4s.py",S+"model/base.py"],
 [("index-symmetric einsum/masks",S+"dispersion, "+S+"model")],["dftd4","get_properties"])
p("C06","Energies depend on the geometry only through interatomic distances",
 "Translating, rotating or reflecting a system leaves all energies, weights, C6 coefficients, charges, coordination numbers and polarizabilities unchanged. For given coordination numbers and charges, the two-body term depends on coordinates only through the pair distance and the three-body term only through the three distances of the triple.",
 ["inputs"],"all geometries with distinct atoms and all rigid motions",
 "No test moves or rotates a molecule; a sampled motion cannot cover all geometries.",
 [S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"disp.py",S+"dispersion/base.py"],
 [("storch.cdist distances",S+"dispersion")],["dftd4","get_properties"])
p("C07","Reference weights are the normalised Gaussian CN weights",
 "For every atom and coordination number the D4 weights (and the D4S weights for every partner) before charge scaling are non-negative, zero for references the element does not have, proportional to the sum over k = 1..N of exp(-k*wf*(CN-CNref)^2) with N the reference's Gaussian count (1 or 3), and sum to one over the element's references. When all Gaussians of an atom underflow, the full weight goes to the reference with the largest coordination number, and this holds in single precision exactly where it does in double precision.",
 ["inputs"],"all elements 1-103, all finite coordination numbers, all weighting factors, single and double precision, batches",
 "Tests compare stored weights of a few molecules; coordination numbers far from references and most elements are not reached.",
 [S+"model/d4.py",S+"utils.py",S+"reference/d4/params.py"],
 [("D4Model.weight_references",S+"model/d4.py"),("is_exceptional",S+"utils.py")],["D4Model.weight_references"])
p("C08","Charge scaling follows the D4 zeta function",
 "The weight of a reference is its Gaussian weight times exp(ga*(1-exp(gc*eta*(1-zref/z)))) with z = Zeff + q, zref = Zeff + the tabulated reference charge of the selected charge set (EEQ or GFN2), and exp(ga) when z is not positive. It does not depend on the charges of other atoms, equals the Gaussian weight when q equals the reference charge, and omitting the charges means q = 0, omitting coordination numbers means CN = 0; an unknown charge set raises ValueError.",
 ["inputs","configurations"],"all elements, charges (including z <= 0), ga, gc and both reference charge sets, both models",
 "Tests compare stored weights for two molecules with moderate charges and default ga/gc.",
 [S+"model/base.py",S+"model/d4.py",S+"model/d4s.py",S+"reference/d4/charge_eeq.py",S+"reference/d4/charge_gfn2.py"],
 [("BaseModel._zeta",S+"model/base.py"),("weight_references",S+"model/d4.py, "+S+"model/d4s.py")],["weight_references"])
p("C09","C6 coefficients are Casimir-Polder integrals of weighted polarizabilities",
 "Reference polarizabilities are the charge-scaled, hydrogen-corrected tabulated values clipped at zero; reference C6 are 3/pi times their 23-point trapezoidal Casimir-Polder integral, and the pair C6 contracts them with the weights of both atoms. Hence C6 is symmetric and non-negative, equals the Casimir-Polder integral of the weighted dynamic polarizabilities, and the static polarizability is the weighted sum of the zero-frequency reference polarizabilities.",
 ["inputs","configurations"],"all elements, weights, reference charge sets, batches, precisions",
 "Tests compare a few stored C6 matrices; symmetry, integral identity and clipping for all elements are not settled.",
 [S+"utils.py",S+"model/base.py",S+"model/d4.py"],
 [("trapzd / trapzd_noref / trapzd_atm",S+"utils.py"),("BaseModel._get_alpha/_get_refc6/get_polarizabilities",S+"model/base.py"),("D4Model.get_atomic_c6/get_weighted_pols",S+"model/d4.py")],["D4Model","trapzd","trapzd_noref","trapzd_atm"])
p("C10","The D4S model is D4 with a pair-specific Gaussian width",
 "In the D4S model the weights of atom A for its interaction with atom B are the normalised Gaussian weights of A (same fallback, same charge scaling as D4) with the tabulated weighting factor of the element pair, and C6(A,B) contracts the reference C6 with the weights of A as seen by B and of B as seen by A. If the weighting factor is the same for all pairs, the D4S weights, C6 coefficients and energies coincide with those of D4 at that weighting factor.",
 ["inputs","configurations"],"all element pairs, coordination numbers, charges, batches, precisions",
 "The tests compare D4S with stored numbers for few molecules and with D4 for single molecules only.",
 [S+"model/d4s.py",S+"data/wfpair.py"],
 [("D4SModel.weight_references/get_atomic_c6/_get_wf",S+"model/d4s.py"),("WFPAIR",S+"data/wfpair.py")],["D4SModel"])
p("C11","Dispersion coefficients and two-body energies have the physical sign",
 "For every system and every non-negative s6, s8 and s10 with positive damping parameters, all weights, reference polarizabilities, C6 and C9 coefficients are non-negative and every atom's two-body energy and every pair contribution is at most zero. A pair's damped interaction strength never exceeds the undamped C_n/R^n.",
 ["inputs"],"all elements, geometries, charges and admissible parameters, all damping functions",
 "Sign is an inequality over all inputs; tests sample energies of a few molecules.",
 [S+"dispersion/twobody.py",S+"damping/functions.py",S+"model/base.py",S+"model/d4.py",S+"utils.py"],
 [("clipping of alpha at zero",S+"model/base.py"),("damping denominators",S+"damping/functions.py")],["dispersion2","Damping.__call__","get_atomic_c6"])
p("C12","The energy is the sum of exactly the registered terms",
 "A dispersion calculation returns the element-wise sum of the energies of exactly the terms currently registered, each evaluated once on the same inputs and with its own damping function and charge dependence; with no term the energy is zero. Registering adds one term, removing removes one equal term and fails if there is none, and different calculators never share terms or settings. The ready-made D4 calculator equals the functional interface for the same input.",
 ["histories","inputs","configurations"],"all sequences of registrations and removals, all calculators, all inputs",
 "Tests register one or two terms once; interactions between histories, calculators and terms are not covered.",
 [S+"dispersion/base.py",S+"dispersion/d4.py",S+"dispersion/d3.py",S+"disp.py"],
 [("Disp.register/deregister/calculate",S+"dispersion/base.py"),("TERMS",S+"dispersion/d4.py"),("DispTerm.__eq__",S+"dispersion/base.py")],["Disp","DispD4","dftd4"])
p("C13","Atomic charges are used exactly where and as documented",
 "Charges supplied by the caller are used unchanged; otherwise EEQ charges for the given total charge and the EEQ coordination cutoff are computed, and only if some term is charge dependent. Charge-dependent terms see these charges, charge-independent terms (three-body in the default setup) give the same energy for every charge. The property interface reports the same coordination numbers, charges, C6 and static polarizabilities that the energy evaluation of the default model uses.",
 ["inputs","configurations"],"all charges, total charges (tensor or number, defaulting to zero), cutoffs, term combinations",
 "Tests use fixed charges for a few molecules; flow of charges to every term for all configurations is not covered.",
 [S+"dispersion/base.py",S+"disp.py",S+"dispersion/twobody.py",S+"dispersion/threebody.py"],
 [("charge gating",S+"dispersion/base.py"),("charge_dependent",S+"dispersion/twobody.py, "+S+"dispersion/threebody.py"),("get_properties",S+"disp.py")],["dftd4","Disp.calculate","get_properties"])
p("C14","Inconsistent input is rejected and consistent input is accepted",
 "A calculation raises ValueError exactly when the shape of positions, covalent radii, r4r2 values, pairwise radii or charges is inconsistent with the atomic numbers, when the model name is unknown, or when the damping function needs van der Waals radii that are missing; it raises RuntimeError exactly when charges are supplied although no term uses them. Consistent input of any batch rank never raises (when charges are not supplied, within the shapes the EEQ solver accepts), and the names of the implemented models (d4, d4s) are accepted in any letter case.",
 ["inputs","configurations"],"all shapes and ranks, all optional-argument combinations, all model names",
 "Tests try one wrong shape per argument.",
 [S+"dispersion/base.py",S+"dispersion/twobody.py",S+"disp.py"],
 [("shape checks",S+"dispersion/base.py"),("model selection",S+"dispersion/base.py")],["dftd4","Disp.calculate","Disp.__init__"])
p("C15","Energies and gradients stay finite, including padding and diagonal",
 "For every system with distinct atoms, finite input and positive damping offset, all energies, weights and coefficients are finite, and no derivative with respect to positions, charges, damping parameters or supplied radii and r4/r2 values becomes NaN or infinite, even through entries that are masked out (self pairs, repeated indices of a triple, padded atoms, missing references, pairs beyond the cutoff).",
 ["inputs"],"all systems, paddings, coordination numbers and charges; every elementary operation of the evaluation",
 "Gradient tests sample a few molecules; singularities hide in masked entries and special elements.",
 [S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"damping/functions.py",S+"model/base.py",S+"model/d4.py",S+"model/d4s.py"],
 [("eps/one/1e-300 fillers and safe division/sqrt",S+"dispersion, "+S+"model, tad_mctc.storch")],["dftd4","dispersion2","get_atm_dispersion","weight_references"])
p("C16","Analytical weight derivatives agree with the weights",
 "Requesting derivatives does not change the returned weights, which always come first, followed by the coordination-number derivative and then the charge derivative as requested. For every input where the weights are smooth, the charge derivative equals the derivative of the weights with respect to the atom's charge, and the coordination-number derivative is minus the derivative with respect to the atom's coordination number (the sign the library has always returned).",
 ["inputs","configurations"],"all elements, coordination numbers, charges, ga, gc, both models where available",
 "Tests compare with autograd for a few molecules and one sign convention.",
 [S+"model/base.py",S+"model/d4.py",S+"model/d4s.py"],
 [("BaseModel._dzeta",S+"model/base.py"),("weight_references with derivatives",S+"model/d4.py, "+S+"model/d4s.py")],["weight_references"])
p("C17","The energy is differentiable in every continuous input",
 "The returned energies carry the full derivative with respect to positions, supplied charges, total charge, damping parameters, and supplied radii: no part of the dependence described by the energy expression is cut out of the differentiation graph, whatever combination of inputs requires gradients.",
 ["inputs","configurations"],"all inputs and all subsets of inputs requiring gradients, all terms and models",
 "Gradient checks cover a few molecules and positions/parameters only with default settings.",
 [S+"disp.py",S+"dispersion/base.py",S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"model/base.py",S+"model/d4.py",S+"model/d4s.py",S+"damping/functions.py"],
 [("absence of detach/no_grad/item",S)],["dftd4","weight_references","get_properties"])
p("C18","Results have the input precision and lose none of it",
 "All floating-point results have the dtype of the positions (of the model for weights and coefficients), for single and double precision alike; default parameters, cutoffs and tables are used at that precision. In a double-precision calculation no intermediate is rounded to single precision, and in single precision the Gaussian weighting is still evaluated in double precision.",
 ["inputs","configurations"],"both dtypes, all terms, models, damping functions, parameters as tensors or numbers, defaults or explicit",
 "Tests check the dtype of a few results; precision loss below the test tolerance is invisible.",
 [S+"model/base.py",S+"model/d4.py",S+"model/d4s.py",S+"dispersion/base.py",S+"dispersion/twobody.py",S+"dispersion/threebody.py",S+"disp.py",S+"cutoff.py"],
 [("dd propagation",S),("torch.double weighting",S+"model/d4.py, "+S+"model/d4s.py")],["dftd4","weight_references","get_params"])
p("C19","Calls are pure: no input is modified and no history matters",
 "No call modifies its tensor arguments, parameter dictionary, cutoff object, model, reference data or library defaults. The result of a call depends only on its own arguments, never on earlier calls, on the order of calls, or on other objects of the same class; looked-up parameter sets can be modified freely without affecting later look-ups.",
 ["histories","inputs"],"all sequences of calls with different systems, shapes, dtypes, parameters and models in one process",
 "Each test calls functions once in isolation and never compares arguments before and after.",
 [S+"dispersion/base.py",S+"disp.py",S+"model/base.py",S+"model/d4.py",S+"model/d4s.py",S+"damping/functions.py",S+"damping/parameters/loader.py",S+"cutoff.py"],
 [("out-of-place tensor operations",S),("dict copies",S+"damping/parameters/loader.py")],["dftd4","get_properties","get_params","weight_references"])
p("C20","Parameter look-up returns the published set for every functional",
 "For every method, functional (in any letter case) and variant in the parameter collection, the look-up returns exactly that entry's numerical values, with the reference key only on request and the method's first default variant when none is named. Unknown methods raise ValueError, unknown functionals or variants KeyError, and nothing is substituted silently.",
 ["inputs","configurations"],"all functionals, variants and methods, all letter cases, with and without reference",
 "Tests look up a few functionals; the collection has over a hundred entries.",
 [S+"damping/parameters/loader.py",S+"damping/parameters/base.py",S+"damping/parameters/d4.toml",S+"damping/parameters/d3.toml"],
 [("get_params/_load",S+"damping/parameters/loader.py")],["get_params"])
p("C21","Reference data and defaults are the published ones for every element",
 "Every tabulated quantity (reference coordination numbers, polarizabilities, counts, scalings, charges, hydrogen charges, r4r2, pair weighting factors, frequency weights) and every default (cutoffs, ga, gc, wf, damping defaults) has the published value for every element 1-103 and its documented shape; row zero of the tables describes padding and contributes nothing. Every element has at least one reference and exactly one with the largest coordination number, pair tables are symmetric.",
 ["inputs","configurations"],"all elements, references, frequencies, element pairs and defaults",
 "Tests exercise some elements only; a changed entry of an unused element is never noticed.",
 [S+"reference/d4/params.py",S+"reference/d4/charge_eeq.py",S+"reference/d4/charge_gfn2.py",S+"data/r4r2.py",S+"data/wfpair.py",S+"data/hardness.py",S+"data/zeff.py",S+"defaults.py",S+"cutoff.py"],
 [("data tables",S+"reference, "+S+"data"),("defaults",S+"defaults.py")],["data.R4R2","reference.d4","Cutoff","defaults"])
p("C22","User-supplied settings reach the calculation, omitted ones get defaults",
 "Every setting the interfaces accept takes effect as documented: the two-body, three-body, coordination-number and EEQ cutoffs, r4r2, pairwise radii, charges, model instance or name with its ga, gc, wf and reference charges, coordination function with its arguments, damping function. Omitted settings give the same result as passing their documented defaults explicitly, for the functional and the class interface alike.",
 ["configurations","inputs"],"all subsets of optional arguments and all values",
 "Tests pass few options at a time and mostly compare shapes.",
 [S+"disp.py",S+"dispersion/base.py",S+"cutoff.py",S+"model/base.py",S+"data/r4r2.py",S+"data/radii.py"],
 [("argument forwarding",S+"disp.py, "+S+"dispersion/base.py"),("Cutoff",S+"cutoff.py")],["dftd4","Disp.calculate","Cutoff","D4Model"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
