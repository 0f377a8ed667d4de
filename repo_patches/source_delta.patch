From bd6e3f3eea9e3083f8cb1ae2ca2eb3cf14106e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 01/16] fix: apply the three-body cutoff to all three distances
 of a triple

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..715c23c 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -154,7 +154,7 @@ def get_atm_dispersion(
         mask_triples
         * (r2ij <= cutoff2)
         * (r2jk <= cutoff2)
-        * (r2jk <= cutoff2),
+        * (r2ik <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
     )
-- 
2.43.0


From b99ccb9af0d978edaeaf2041a78c3a6b08ba55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 02/16] fix: zero damping divides radii by distances (two-body
 was inverted)

---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7034e6c 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 715c23c..c49fbef 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From 5aa3f62268dd495a3875562a23c55eff7a85848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 03/16] fix: optimised-power damping uses the critical radius
 in the denominator

---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7034e6c..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From d62fbf9b6f3e42d97b2b79bc4bb65aa4b4c67936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 04/16] fix: look up functional names case-insensitively

---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..4d0f25b 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From 9820caa7611841d42f60be5c8759746255e9eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 05/16] fix: use the default variant for the default parameter
 set

---
 src/tad_dftd4/damping/parameters/loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 4d0f25b..667f65c 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -88,6 +88,10 @@ def get_params(
     method = DispersionMethod(method)
     table = _load(method)
 
+    # Get default variant if not specified
+    if variant is None:
+        variant = table["default"][method.value][0]
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -113,10 +117,6 @@ def get_params(
                 f"for '{functional!r}'."
             )
 
-    # Get default variant if not specified
-    if variant is None:
-        variant = table["default"][method.value][0]
-
     variant_section = disp_method_section[method.value]
     if variant not in variant_section:
         raise KeyError(
-- 
2.43.0


From 2ba97e305c05c1f8e9c38d2b27218a67232f92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 06/16] fix: convert the total charge at the precision of the
 positions

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa5daa9 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From cf2a76184c5727ce0bd53dfec65ea23ec877cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 07/16] fix: create three-body default parameters at the input
 precision

---
 src/tad_dftd4/dispersion/threebody.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index c49fbef..e1ff9c3 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -219,6 +219,8 @@ class ATM(ThreeBodyTerm, ABC):
         rvdw: Tensor,
         cutoff: Cutoff,
     ):
+        dd: DD = {"device": positions.device, "dtype": positions.dtype}
+
         # ATM-specific C9 coefficients and radii
         c9 = self.get_c9(model, cn, q)
         radii = self.get_radii(param, r4r2, rvdw)
@@ -230,8 +232,8 @@ class ATM(ThreeBodyTerm, ABC):
             radii,
             damping_function=self.damping_fn,
             cutoff=cutoff.disp3,
-            s9=param.get("s9", torch.tensor(defaults.S9, **self.dd)),
-            alp=param.get("alp", torch.tensor(defaults.ALP, **self.dd)),
+            s9=param.get("s9", torch.tensor(defaults.S9, **dd)),
+            alp=param.get("alp", torch.tensor(defaults.ALP, **dd)),
         )
 
 
@@ -247,7 +249,7 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
@@ -265,7 +267,8 @@ class RadiiVDWMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": rvdw.device, "dtype": rvdw.dtype}
+
         rs9 = param.get("rs9", torch.tensor(defaults.RS9, **dd))
         return rs9 * rvdw
 
-- 
2.43.0


From 2b99aac8e6a3e4b346a3940748db9533990827cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:48 +0000
Subject: [PATCH 08/16] fix: default total charge of get_properties matches the
 batch shape

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index aa5daa9..fbb0464 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -182,7 +182,7 @@ def get_properties(
         cutoff = Cutoff(**dd)
 
     if charge is None:
-        charge = torch.tensor(0.0, **dd)
+        charge = torch.zeros(numbers.shape[:-1], **dd)
     else:
         charge = any_to_tensor(charge, **dd)
 
-- 
2.43.0


From 379ce881ad8a2a33715c3abc3fa1c9cc4ab56548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:33 +0000
Subject: [PATCH 09/16] fix: reject pairwise van der Waals radii that are not
 (..., nat, nat)

Only the leading dimensions were compared with the atomic numbers, so that
radii with a wrong second atom dimension were silently accepted.
---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..592a2fd 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -380,7 +380,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if (*numbers.shape, numbers.shape[-1]) != tuple(rvdw.shape):
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From 0ae13bf6229f08389a635e14852484b92d05aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 10/16] fix: avoid underflow in the coordination-number
 derivative of the weights

---
 src/tad_dftd4/model/d4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..9230e0a 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -249,7 +249,7 @@ class D4Model(BaseModel):
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
 
-            _dgw = (dexpw - expw * dnorm / norm) / norm
+            _dgw = (dexpw - (expw / norm) * dnorm) / norm
             dgw = torch.where(
                 is_exceptional(_dgw, self.dtype), zero, _dgw.type(self.dtype)
             )
-- 
2.43.0


From 9680e459f3ea8d61d67e2274847b22009eb2dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 11/16] fix: finite charge derivative where the effective
 charge vanishes

---
 src/tad_dftd4/model/base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..d847d42 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -43,7 +43,6 @@ from __future__ import annotations
 from abc import abstractmethod
 
 import torch
-from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
 from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, TensorLike, overload
@@ -326,10 +325,14 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # mask before dividing: entries that are not selected below would
+        # otherwise overflow and yield NaN gradients
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.tensor(1.0, **self.dd))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
@@ -355,12 +358,16 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # mask before dividing: entries that are not selected below would
+        # otherwise overflow and yield NaN gradients
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.tensor(1.0, **self.dd))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
-            -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
+            mask,
+            -ga * gam * scale * zeta * qref / qsafe**2,
             torch.tensor(0.0, **self.dd),
         )
 
-- 
2.43.0


From eac96ee742650628155a711d3916fe85ad241c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 12/16] fix: finite derivative of the weights when all
 Gaussians underflow

---
 src/tad_dftd4/model/d4.py  | 11 +++++------
 src/tad_dftd4/model/d4s.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 9230e0a..cb3480c 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -197,11 +197,10 @@ class D4Model(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
-        norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
-        )
+        # The same holds if all Gaussians of an atom underflow (fallback below).
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        underflow = mask & (norm < 1e-300)
+        norm = torch.where(mask & ~underflow, norm, zero_double + 1.0)
 
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
@@ -211,7 +210,7 @@ class D4Model(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            is_exceptional(gw_temp, self.dtype) | underflow,
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..c13e7bd 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -216,11 +216,10 @@ class D4SModel(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
-        norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
-        )
+        # The same holds if all Gaussians of an atom underflow (fallback below).
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        underflow = mask & (norm < 1e-300)
+        norm = torch.where(mask & ~underflow, norm, zero_double + 1.0)
 
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
@@ -230,7 +229,7 @@ class D4SModel(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            is_exceptional(gw_temp, self.dtype) | underflow,
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From 5b92344bc57ea6a398b781384e921b09bbf5eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 13/16] fix: finite parameter derivatives through masked pairs

---
 src/tad_dftd4/dispersion/twobody.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..33875a2 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -133,6 +133,7 @@ def dispersion2(
     """
     dd: DD = {"device": positions.device, "dtype": positions.dtype}
     zero = torch.tensor(0.0, **dd)
+    one = torch.tensor(1.0, **dd)
 
     if cutoff is None:
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
@@ -141,7 +142,7 @@ def dispersion2(
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        one,
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
@@ -156,6 +157,9 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # avoid NaN gradients from entries that are not selected below
+    radii = torch.where(mask, radii, one)
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From 99acc46e9eb706b33e72f7df6a1f9451537ce54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:21 +0000
Subject: [PATCH 14/16] fix: D4S weighted polarizabilities belong to the atom
 that owns the weights

The sum ran over the atoms that own the reference weights instead of their
partners, so every atom got the polarizability of the whole system, and the
division by the number of atoms did not broadcast for batches.
---
 src/tad_dftd4/model/d4s.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index c13e7bd..f193155 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -305,14 +305,15 @@ class D4SModel(BaseModel):
         Tensor
             Weighted polarizabilities of shape ``(..., nat, 23)``.
         """
-        mask = real_atoms(self.numbers)
-        nat = mask.sum(dim=-1, keepdim=True)
+        mask = real_atoms(self.numbers).type(gw.dtype)
+        nat = mask.sum(dim=-1).clamp(min=1)[..., None, None]
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # Since we sum over the (real) partner atoms here, we need to divide by
+        # the number of atoms.
+        gw = einsum("...mnr,...m->...nr", gw, mask) / nat
+        return einsum("...nr,...nrw->...nw", gw, a)
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From a1c25e3877095540df302912774c677be7dd4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 15/16] fix: D4SDebug weighting factors for batches

---
 src/tad_dftd4/model/d4s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index f193155..9f6b425 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -325,5 +325,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        shape = (*self.numbers.shape, self.numbers.shape[-1])
+        return torch.full(shape, WF_DEFAULT, **self.dd)
-- 
2.43.0


From 9baf093fb486b1dc43c2e13ece880c9d5bf4d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:41 +0000
Subject: [PATCH 16/16] fix: D4S model accepts a single weighting factor

---
 src/tad_dftd4/model/d4s.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 9f6b425..9f92c4d 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -194,7 +194,9 @@ class D4SModel(BaseModel):
         # ordering of the zeta function. Inserting in `-2` does not work!
         #
         # (..., n1, nref) * (..., n1, nref) * (n1, n2) -> (..., n2, n1, nref)
-        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
+        # (a single weighting factor applies to all pairs)
+        wf = self.wf.expand(*shp[:-1])
+        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, wf)
         tmp = torch.where(mask, torch.exp(arg), zero_double)
 
         # Gaussian weighting function part 2: tmp^(igw)
-- 
2.43.0

