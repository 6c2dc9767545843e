From bf94c6d1bf4292885ba331c482635100a7415e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:22 +0000
Subject: [PATCH 01/17] fix: bessel2ndDer must not modify the caller's argument
 in place

The second derivative replaced zeros in `z` in place. During backward of
sph_jn_der / sph_yn_der `z` shares memory with the user's tensor, so
differentiating silently changed the input values.
---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..80eebb1 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,7 +67,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # out of place: `z` may alias user data
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From f3c2cc6950a941396f265b00ac0221bea2d597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:22 +0000
Subject: [PATCH 02/17] fix: accept an integer n_add in sph_jn_torch_via_rec as
 documented

The integer form raised AttributeError ('int' has no attribute 'lower').
---
 src/pymiediff/special.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 80eebb1..46b366d 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -753,10 +753,13 @@ def sph_jn_torch_via_rec(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str):
+        if n_add.lower() != "auto":
+            raise ValueError("`n_add` must be 'auto' or an integer.")
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
+    n_add = int(n_add)
 
     # allocate tensors
     jns = []  # use python list for Bessel orders to avoid in-place modif.
-- 
2.43.0


From b8041f3b4ea20cd7b22753af20c76a1498bc4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 03/17] fix: small-argument branch of sph_jn_torch for
 multi-dimensional z

Any |z| below `small_z` in an argument with two or more dimensions raised a
shape mismatch, because the order axis kept the rank of the unflattened z.
---
 src/pymiediff/special.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 46b366d..774619f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -847,7 +847,7 @@ def sph_jn_torch(
         z_small = z_flat[idx_small]  # shape (S_small,)
 
         # double-factorial: log((2n+1)!!) = lgamma(2n+2) - n*log(2) - lgamma(n+1)
-        n_arr = _n.to(dtype_f)
+        n_arr = _n.reshape(-1, 1).to(dtype_f)  # shape (n_max+1, 1)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
             - n_arr * torch.log(torch.tensor(2.0))
@@ -856,8 +856,8 @@ def sph_jn_torch(
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c)  # shape (n_max+1, S_small)
-        jn_small = zpow / dd.to(dtype_c).unsqueeze(0)
+        zpow = z_small.unsqueeze(0) ** n_arr.to(dtype_c)  # shape (n_max+1, S_small)
+        jn_small = zpow / dd.to(dtype_c)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
         jns_flat[:, idx_small] = jn_small
-- 
2.43.0


From bf4b2e859b93dd86b8adc6462887be62fcb12131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 04/17] fix: material memo must not leak or hide autograd
 graphs

A second evaluation at a memoized wavelength returned a tensor attached to the
first call's graph ('backward through the graph a second time'), or a constant
without gradient if the first call was made without gradient tracking.
---
 src/pymiediff/materials/mat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..7994632 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,15 +384,20 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
-        # memoize evaluations
+        # memoize evaluations (only if not part of an autograd graph: memoized graphs
+        # would be shared between calls, memoized constants would hide gradients)
         wl_key = float(wavelength)
+        needs_grad = torch.is_grad_enabled() and getattr(
+            wavelength, "requires_grad", False
+        )
 
-        if wl_key in self.lookup_eps:
+        if wl_key in self.lookup_eps and not needs_grad:
             eps = self.lookup_eps[wl_key]
         else:
             _eps = self._eval(wavelength)
             eps = torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
-            self.lookup_eps[wl_key] = eps
+            if not needs_grad:
+                self.lookup_eps[wl_key] = eps
 
         return eps
 
-- 
2.43.0


From 42cb7d7b39dbc95e38afd5b008e3ebcf01b53c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 05/17] fix: batched near fields in the torch/scipy core-shell
 backends

Radii and layer indices were not expanded to the order/position/vector axes, so
several particles or wavenumbers raised a shape error or, when batch sizes
happened to coincide with the number of positions, gave wrong fields.
---
 src/pymiediff/multishell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..a92dd1a 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1365,6 +1365,11 @@ def nearfields(
     kc = kc.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     ks = ks.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     n_sourrounding = n_sourrounding.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_sourrounding
 
     # add position, vector dim
     a_n = a_n.unsqueeze(-1).unsqueeze(-1)
-- 
2.43.0


From 2d5797d9aea7b4f1fb4510237f47319111238bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 06/17] fix: nearfields(precision='single') with
 double-precision inputs

The field arrays take the coefficients' dtype, but the vector harmonics may be
of higher precision; the masked assignment then raised a dtype mismatch.
---
 src/pymiediff/multishell.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index a92dd1a..e9005a1 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1254,8 +1254,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(dtype_c)
+            Hs[masks[li]] = H_l[masks[li]].to(dtype_c)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
@@ -1428,9 +1428,9 @@ def nearfields(
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
     Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    Es[idx_1] = Es_1[idx_1].to(Es.dtype)
+    Es[idx_2] = Es_2[idx_2].to(Es.dtype)
+    Es[idx_3] = Es_3[idx_3].to(Es.dtype)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1446,9 +1446,9 @@ def nearfields(
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
     Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs[idx_1] = Hs_1[idx_1].to(Hs.dtype)
+    Hs[idx_2] = Hs_2[idx_2].to(Hs.dtype)
+    Hs[idx_3] = Hs_3[idx_3].to(Hs.dtype)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From f5971bda87f3999188a582c05cc1ce4bb100bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 07/17] fix: coefficient layout and host-index override in the
 torchgdm bridge

n_max=1 with several wavelengths came back transposed because the singleton
order axis had been squeezed, and any explicit n_env crashed because eps_env was
replaced by a float that is then indexed.
---
 src/pymiediff/helper/tg.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..e93dca6 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -179,7 +179,6 @@ def mie_ab_sphere_3d_AD(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -188,10 +187,9 @@ def mie_ab_sphere_3d_AD(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # particle methods squeeze all singleton dimensions: restore (N_order, N_wl)
+    a_n = a_n.reshape(-1, len(wavelengths))
+    b_n = b_n.reshape(-1, len(wavelengths))
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
@@ -510,7 +508,6 @@ def extract_GPM_sphere_miediff(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From 07bb18f140e784fb52a0b0016cc2d1a10c085436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 08/17] fix: list_available_materials(verbose=True) raised
 TypeError

---
 src/pymiediff/materials/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 7994632..f85bd4b 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -33,7 +33,7 @@ def list_available_materials(verbose=False):
     """Return all keys for the database materials"""
     if verbose:
         for f in REFINDEX_DATA:
-            print("{}: ".format(f, pathlib.Path(REFINDEX_DATA[f]).name))
+            print("{}: {}".format(f, pathlib.Path(REFINDEX_DATA[f][0]).name))
     return [f for f in REFINDEX_DATA]
 
 
-- 
2.43.0


From 7cc52812778338fbb968bb40f8d7edaa4394b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 09/17] fix: start the pena_D1_n downward recurrence above |z|

The recurrence started at n_max + 15 whatever the argument. For |z| larger
than that it never converges: near fields of the default backend were wrong by
orders of magnitude at ordinary probe distances, and so were coefficients
requested with a small explicit order.
---
 src/pymiediff/special.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 774619f..69c92b9 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -489,7 +489,10 @@ def pena_D1_n(
     # build entries without in-place tensor writes (autograd-safe)
     D_list = [None] * (n_max + 1)
 
-    n_start = n_max + int(n_add)
+    # the downward recurrence converges only if it starts well above max(n_max, |z|)
+    z_abs_max = float(torch.nan_to_num(_z.detach().abs(), nan=0.0, posinf=0.0).max())
+    n_turn = int(z_abs_max + 4.05 * z_abs_max ** (1 / 3))
+    n_start = max(n_max, n_turn) + int(n_add)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
 
-- 
2.43.0


From 190ed7e662c81e82396be3b9396b7a5db093a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 10/17] fix: zeta_0 in pena_psi_zeta_n without cancellation

sin(z) - i cos(z) loses all digits for Im z > 18 (thick absorbing layers).
---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 69c92b9..f75f566 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -683,7 +683,7 @@ def pena_psi_zeta_n(
     _z = _z.to(dtype=dtype_c)
 
     psi_prev = torch.sin(_z)
-    zeta_prev = torch.sin(_z) - 1j * torch.cos(_z)
+    zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
-- 
2.43.0


From 99cb46951800a090935f56f09c53973c2f08273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 11/17] fix: automatic depth of sph_jn_torch and
 sph_jn_torch_via_rec covers |z|

The automatic depth was capped relative to the requested order, so arguments
larger than order + cap returned wrong values.
---
 src/pymiediff/special.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index f75f566..e5bcea0 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -759,9 +759,12 @@ def sph_jn_torch_via_rec(
     if isinstance(n_add, str):
         if n_add.lower() != "auto":
             raise ValueError("`n_add` must be 'auto' or an integer.")
+        z_abs_max = int(torch.abs(z).detach().cpu().max())
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
+        # the depth counts from max(n_max, |z|): below |z| nothing converges
+        n_add = n_add + max(0, z_abs_max - n_max)
     n_add = int(n_add)
 
     # allocate tensors
@@ -877,9 +880,11 @@ def sph_jn_torch(
             zabs_max = float(torch.max(torch.abs(z_big)).item())
             n_extra_auto = max(20, int(zabs_max * 2.0) + 10)
             n_extra_use = min(n_extra_auto, max_n_add)
+            # the depth counts from max(n_max, |z|): below |z| nothing converges
+            N = max(n_max, int(zabs_max)) + n_extra_use
         else:
             n_extra_use = int(n_add)
-        N = n_max + n_extra_use
+            N = n_max + n_extra_use
 
         # - allocate tensors
         r_storage = torch.zeros((n_max, n_z_big), dtype=dtype_c, device=z.device)
-- 
2.43.0


From 0f843e2b34431e1e21f02ce9bbedb681e6623c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 12/17] =?UTF-8?q?fix:=20regular=20Pe=C3=B1a=20recurrences?=
 =?UTF-8?q?=20at=20zeros=20of=20the=20Riccati-Bessel=20functions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

psi_0(z) = sin(z) vanishes at z = k*pi (round numbers, e.g. a radius of
1500 nm at 500 nm wavelength), where D1_0 is singular and all recurrences
built from psi_{n-1} lost every digit. Use the D3 upward recurrence, the
Wronskian and zeta_n instead, which are regular there.
---
 src/pymiediff/special.py | 44 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index e5bcea0..a640a47 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -524,7 +524,7 @@ def pena_D3_n(
     z : torch.Tensor
         Complex argument(s).
     D1 : torch.Tensor, optional
-        Precomputed ``D1`` values.
+        Not used, kept for compatibility.
     eps : float, default=1e-30
         Small denominator safeguard.
     precision : {"single", "double"}, default="double"
@@ -546,24 +546,14 @@ def pena_D3_n(
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
 
-    if D1 is None:
-        D1 = pena_D1_n(n_max, _z, precision=precision)
-    D1 = D1.to(dtype=dtype_c)
-
-    # psi0(z) * zeta0(z) = 0.5 * (1 - exp(2 i z))
-    psi_zeta_prev = 0.5 * (1.0 - torch.exp(2j * _z))
     D3_prev = 1j * torch.ones_like(_z, dtype=dtype_c)
     D3_list = [D3_prev]
 
+    # upward recurrence, does not involve psi_n (whose zeros make D1_n singular)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        t1 = (nn / z_safe) - D1[nn - 1, ...]
-        t2 = (nn / z_safe) - D3_prev
-        psi_zeta_curr = psi_zeta_prev * t1 * t2
-        denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
-        D3_curr = D1[nn, ...] + 1j / denom
+        D3_curr = 1.0 / ((nn / z_safe) - D3_prev) - (nn / z_safe)
         D3_list.append(D3_curr)
-        psi_zeta_prev = psi_zeta_curr
         D3_prev = D3_curr
 
     return torch.stack(D3_list, dim=0)
@@ -630,17 +620,18 @@ def pena_Q_n(
     Q_prev = (num0 / den0) * torch.exp(-2.0 * (b2 - b1))
     Q_list = [Q_prev]
 
-    # Eq. (19b): Q_n^(l), n >= 1
-    x2_safe = torch.where(_x2.abs() < eps, _x2 + eps, _x2)
-    x_ratio_sq = (_x1 / x2_safe) ** 2
+    # Q_n = R_n (D3_n - D1_n)(z2) / (D3_n - D1_n)(z1) with R_n = (zeta_n(z2) / zeta_n(z1))^2,
+    # regular where psi_{n-1} = 0 at one of the arguments (singular D1_{n-1})
+    z1_safe = torch.where(_z1.abs() < eps, _z1 + eps, _z1)
+    z2_safe = torch.where(_z2.abs() < eps, _z2 + eps, _z2)
+    R_curr = torch.exp(2j * (_z2 - _z1))
     for nn in range(1, n_max + 1):
-        n_c = torch.as_tensor(nn, dtype=dtype_c, device=_z1.device)
-        num = (_z2 * D1_z2[nn, ...] + n_c) * (n_c - _z2 * D3_z2[nn - 1, ...])
-        den = (_z1 * D1_z1[nn, ...] + n_c) * (n_c - _z1 * D3_z1[nn - 1, ...])
-        den = torch.where(den.abs() < eps, den + eps, den)
-        Q_curr = Q_prev * x_ratio_sq * (num / den)
-        Q_list.append(Q_curr)
-        Q_prev = Q_curr
+        t1 = (nn / z1_safe) - D3_z1[nn - 1, ...]
+        t2 = (nn / z2_safe) - D3_z2[nn - 1, ...]
+        R_curr = R_curr * (t2 / t1) ** 2
+        num = D3_z2[nn, ...] - D1_z2[nn, ...]
+        den = D3_z1[nn, ...] - D1_z1[nn, ...]
+        Q_list.append(R_curr * (num / den))
 
     return torch.stack(Q_list, dim=0)
 
@@ -682,18 +673,17 @@ def pena_psi_zeta_n(
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
 
-    psi_prev = torch.sin(_z)
     zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
-    psi_list = [psi_prev]
+    psi_list = [torch.sin(_z)]
     zeta_list = [zeta_prev]
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
+        # Wronskian: regular where psi_{n-1} = 0 (singular D1_{n-1})
+        psi_curr = 1j / (zeta_curr * (D3[nn, ...] - D1[nn, ...]))
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
-        psi_prev = psi_curr
         zeta_prev = zeta_curr
 
     return torch.stack(psi_list, dim=0), torch.stack(zeta_list, dim=0)
-- 
2.43.0


From 4e17b4087a0a6398878cdef99a1560f3cf8814dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 13/17] fix: torch-native spherical Bessel functions at the
 zeros of j_0

The downward sequences were normalized to j_0(z), which vanishes at
z = k*pi. Normalize to j_1 where it is the larger one.
---
 src/pymiediff/special.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index a640a47..727a364 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -702,10 +702,8 @@ def sph_jn_torch_via_rec(
 ):
     """Torch-native ``j_n`` via downward recurrence. 
 
-    BEWARE: With this implementaion there is a singularity at z=pi, 
-    and the renormalization of the downward recurrence will fail.
-    The logarithmic derivatives implmentations, do not pose this risk.
-    
+    The recurrence is normalized to ``j_0``, or to ``j_1`` close to zeros of ``j_0``.
+
     Parameters
     ----------
     n : int or torch.Tensor
@@ -774,9 +772,14 @@ def sph_jn_torch_via_rec(
     # inverse order and convert to tensor
     jns = torch.stack(jns[::-1], dim=0)  # first dim: order n
 
-    # normalize
+    # normalize to j_0, or to j_1 close to the zeros of j_0
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
-    scale = j0_exact / jns[0, ...]
+    j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
+    scale = torch.where(
+        j0_exact.abs() < j1_exact.abs(),
+        j1_exact / j_np1[-1, ...],
+        j0_exact / jns[0, ...],
+    )
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
@@ -901,13 +904,18 @@ def sph_jn_torch(
             z_big == 0.0, torch.ones_like(z_big), torch.sin(z_big) / z_big
         )  # compute j0 safely
 
-        # cumulative product of r_k across orders: shape (Q, n_max)
-        r_cum = torch.cumprod(r_storage, dim=0)  # r_1, r_1*r_2, ...
-
         # fill spherical bessel output
         jns_big[0, :] = j0_big
         if n_max >= 1:
-            jns_big[1:, :] = j0_big.unsqueeze(0) * r_cum
+            # j_1 from j_0, but directly close to the zeros of j_0 (singular r_1)
+            j1_direct = (j0_big - torch.cos(z_big)) / z_big
+            j1_big = torch.where(
+                j0_big.abs() < j1_direct.abs(), j1_direct, j0_big * r_storage[0, :]
+            )
+            # cumulative product of r_k across higher orders: r_2, r_2*r_3, ...
+            r_cum = torch.cumprod(r_storage[1:, :], dim=0)
+            jns_big[1, :] = j1_big
+            jns_big[2:, :] = j1_big.unsqueeze(0) * r_cum
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From eb95a6120ee0b05307fd871d179ff69597517b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 14/17] fix: no overflow of the deep downward sweep in
 sph_jn_torch_via_rec

---
 src/pymiediff/special.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 727a364..ba484b2 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -758,16 +758,20 @@ def sph_jn_torch_via_rec(
     # allocate tensors
     jns = []  # use python list for Bessel orders to avoid in-place modif.
 
-    j_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
-    j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
+    # above n_max + 1 only the ratio j_{n+1} / j_n is needed (no overflow at small |z|)
+    ratio = torch.zeros_like(_z, dtype=dtype_c)
+    for _n in range(n_max + n_add, n_max + 1, -1):
+        ratio = 1.0 / ((2.0 * _n + 1.0) / _z - ratio)
+
+    j_n = torch.ones_like(_z, dtype=dtype_c) * 1e-25
+    j_np1 = ratio * 1e-25
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    for _n in range(n_max + 1, 0, -1):
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
-        if _n <= n_max + 1:
-            jns.append(j_n[-1, ...])
+        jns.append(j_n[-1, ...])
 
     # inverse order and convert to tensor
     jns = torch.stack(jns[::-1], dim=0)  # first dim: order n
-- 
2.43.0


From 14f8fd14ee4340acc95c54887a046160b1a339f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 15/17] fix: rotation matrices of helper.tg keep the gradient
 of the angle

---
 src/pymiediff/helper/tg.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index e93dca6..5fe4087 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -232,11 +232,8 @@ def rotation_x(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_x = torch.as_tensor(
-        [[1, 0, 0], [0, c, -s], [0, s, c]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_x = torch.stack([one, zero, zero, zero, c, -s, zero, s, c]).reshape(3, 3)
     return rot_x
 
 
@@ -260,11 +257,8 @@ def rotation_y(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_y = torch.as_tensor(
-        [[c, 0, s], [0, 1, 0], [-s, 0, c]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_y = torch.stack([c, zero, s, zero, one, zero, -s, zero, c]).reshape(3, 3)
     return rot_y
 
 
@@ -288,11 +282,8 @@ def rotation_z(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_z = torch.as_tensor(
-        [[c, -s, 0], [s, c, 0], [0, 0, 1]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_z = torch.stack([c, -s, zero, s, c, zero, zero, zero, one]).reshape(3, 3)
     return rot_z
 
 
-- 
2.43.0


From 7bed53c65c3766ee7e441739955b7a215dc3cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:55 +0000
Subject: [PATCH 16/17] fix: automatic depth of D1n_torch covers |z|, integer
 n_add accepted

The automatic depth was capped relative to the requested order, so arguments
larger than order + cap returned wrong values; the documented integer n_add
raised AttributeError.
---
 src/pymiediff/special.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index ba484b2..4553ed2 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1263,10 +1263,16 @@ def D1n_torch(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str):
+        if n_add.lower() != "auto":
+            raise ValueError("`n_add` must be 'auto' or an integer.")
+        z_abs_max = int(torch.abs(z).detach().cpu().max())
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
+        # the depth counts from max(n_max, |z|): below |z| nothing converges
+        n_add = n_add + max(0, z_abs_max - n_max)
+    n_add = int(n_add)
 
     D1ns = []
 
-- 
2.43.0


From e4e2a262a44cc4b9baaa1c870edbf3d8c9205aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:33 +0000
Subject: [PATCH 17/17] fix: spherical coordinates near the z-axis: exact
 angles and correct transverse gradients

---
 src/pymiediff/helper/helper.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 75578d1..0533832 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -248,12 +248,11 @@ def transform_xyz_to_spherical(x, y, z):
     """
     r = torch.sqrt(x**2 + y**2 + z**2)
     r_safe = torch.where(r == 0, torch.as_tensor(1e-12, device=r.device, dtype=r.dtype), r)
-    z_over_r = z / r_safe
-    eps = torch.finfo(z_over_r.dtype).eps * 10
-    z_over_r = torch.clamp(z_over_r, -1.0 + eps, 1.0 - eps)
-    theta = torch.acos(z_over_r)
-    eps_phi = torch.finfo(x.dtype).eps * 10
-    x_safe = x + (x == 0).to(x.dtype) * eps_phi
+    # angles have no derivative on the z-axis: evaluate them slightly off-axis there
+    tol = torch.finfo(r.dtype).eps ** 0.5 * r_safe.detach()
+    on_axis = torch.logical_and(x.abs() < tol, y.abs() < tol)
+    x_safe = torch.where(on_axis, torch.where(x < 0, x - tol, x + tol), x)
+    theta = torch.atan2(torch.sqrt(x_safe**2 + y**2), z)
     phi = torch.atan2(y, x_safe)
     return r, theta, phi
 
-- 
2.43.0

