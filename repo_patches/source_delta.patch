From d17f75db705152f54ee5972ea0cdaa5461b8e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:14 +0000
Subject: [PATCH 01/22] fix: decaying wave in an absorbing substrate (numpy,
 jax)

The kz of the superstrate and substrate was always conjugated, which turns the
principal root into the growing wave when the medium absorbs (n - ik): the
reflected efficiency could exceed one.
---
 meent/on_jax/emsolver/transfer_method.py   | 22 ++++++++++++++++------
 meent/on_numpy/emsolver/transfer_method.py | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 1399c25..c2e497d 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -4,14 +4,24 @@ import jax.numpy as jnp
 from .primitives import eig, conj, meeinv
 
 
+def decaying_branch(kz):
+    """Orient kz so that the wave decays away from the grating.
+
+    On the negative sign convention that is Im(kz) <= 0. The principal root has Im(kz) > 0 for an
+    evanescent order in a lossless medium, but already Im(kz) < 0 in an absorbing one (n - ik), so
+    conjugating unconditionally would pick the growing wave there.
+    """
+    return jnp.where(kz.imag > 0, kz.conj(), kz)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
     kz_top = (n_top ** 2 - kx ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
 
-    kz_top = kz_top.conjugate()
-    kz_bot = kz_bot.conjugate()
+    kz_top = decaying_branch(kz_top)
+    kz_bot = decaying_branch(kz_bot)
 
     F = jnp.eye(ff_x, dtype=type_complex)
 
@@ -208,8 +218,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
@@ -489,8 +499,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3b7027e..6fe9366 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -3,14 +3,24 @@ import numpy as np
 from .primitives import meeinv
 
 
+def decaying_branch(kz):
+    """Orient kz so that the wave decays away from the grating.
+
+    On the negative sign convention that is Im(kz) <= 0. The principal root has Im(kz) > 0 for an
+    evanescent order in a lossless medium, but already Im(kz) < 0 in an absorbing one (n - ik), so
+    conjugating unconditionally would pick the growing wave there.
+    """
+    return np.where(kz.imag > 0, kz.conj(), kz)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
     kz_top = (n_top ** 2 - kx ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
 
-    kz_top = kz_top.conj()
-    kz_bot = kz_bot.conj()
+    kz_top = decaying_branch(kz_top)
+    kz_bot = decaying_branch(kz_bot)
 
     F = np.eye(ff_x, dtype=type_complex)
 
@@ -146,8 +156,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
@@ -391,8 +401,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
     kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = decaying_branch(kz_top.flatten())
+    kz_bot = decaying_branch(kz_bot.flatten())
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
-- 
2.43.0


From 84d4165e33cb098e98e7cb07d32ab44de5089432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 02/22] fix: p transmission efficiency into an absorbing
 substrate (torch)

T_p is the electric amplitude H / n_bot, whose flux is Re(kz conj(n) / n); with
Re(kz) alone R + T was not one for a complex n_bot.
---
 meent/on_torch/emsolver/transfer_method.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..06961ec 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -442,7 +442,11 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    # T_p is scaled to |E| = |H / n_bot|, so the flux it carries is that of H, kz / n^2 |H|^2: the
+    # factor conj(n) / n is one unless the substrate absorbs.
+    n_bot_ = torch.as_tensor(n_bot, dtype=kz_bot.dtype, device=kz_bot.device)
+    kz_bot_p = kz_bot * n_bot_.conj() / n_bot_
+    de_ti_p = (T_p * T_p.conj() * (kz_bot_p / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -488,7 +492,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot_p / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
@@ -723,7 +727,11 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    # T_p is scaled to |E| = |H / n_bot|, so the flux it carries is that of H, kz / n^2 |H|^2: the
+    # factor conj(n) / n is one unless the substrate absorbs.
+    n_bot_ = torch.as_tensor(n_bot, dtype=kz_bot.dtype, device=kz_bot.device)
+    kz_bot_p = kz_bot * n_bot_.conj() / n_bot_
+    de_ti_p = (T_p * T_p.conj() * (kz_bot_p / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -769,7 +777,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot_p / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
-- 
2.43.0


From d9cf3881e86ab68e4a3b04ecd3f862527fa870bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:27 +0000
Subject: [PATCH 03/22] fix: amplitudes for TE and TM incidence on the
 convention of the main result (torch)

The phase convention fix for R and T had not reached res_te_inc / res_tm_inc: T
was still conjugated with respect to R and R_p had the opposite sign.
---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 06961ec..774eed1 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -480,13 +480,13 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
@@ -765,13 +765,13 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
-- 
2.43.0


From f1e4e5c4288f58991093ecd671fc18bc4a003bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:27 +0000
Subject: [PATCH 04/22] fix: rectangle with different triangle and
 parallelogram splits

The upper and lower triangle took their y step from n_split_parallelogram and
the middle part its x step from n_split_triangle, so unless both were equal the
drawn shape was not the requested rectangle.
---
 meent/on_jax/modeler/modeling.py   | 12 ++++++------
 meent/on_numpy/modeler/modeling.py | 12 ++++++------
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..9527f2d 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -191,13 +191,13 @@ class ModelingJax:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_parallelogram + 1).reshape(
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * jnp.arange(n_split_parallelogram + 1).reshape(
                 (-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -207,7 +207,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
@@ -270,7 +270,7 @@ class ModelingJax:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -285,7 +285,7 @@ class ModelingJax:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * jnp.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -305,7 +305,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..90c119b 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -166,12 +166,12 @@ class ModelingNumpy:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * np.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * np.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * np.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -179,7 +179,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * np.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -240,7 +240,7 @@ class ModelingNumpy:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * np.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -255,7 +255,7 @@ class ModelingNumpy:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * np.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -275,7 +275,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..2359dc5 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -208,12 +208,12 @@ class ModelingTorch:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -221,7 +221,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * torch.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -246,13 +246,13 @@ class ModelingTorch:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * torch.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * torch.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -262,7 +262,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
-- 
2.43.0


From 3841fb73bd084871fc6c808e97a0654e2f220f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 05/22] fix: conv_solve_field on jax

Both variants called a method that no longer exists. They return the result and
the field, as on the other backends.
---
 meent/on_jax/emsolver/rcwa.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..18b43eb 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -3,8 +3,6 @@ import jax
 import numpy as np
 import jax.numpy as jnp
 
-from functools import partial
-
 from ._base import _BaseRCWA, jax_device_set
 from .convolution_matrix import to_conv_mat_raster_discrete, to_conv_mat_raster_continuous, to_conv_mat_vector
 from .field_distribution import field_dist_1d, field_dist_1d_conical, field_dist_2d,  field_plot
@@ -281,24 +279,19 @@ class RCWAJax(_BaseRCWA):
     def field_plot(self, field_cell):
         field_plot(field_cell, self.pol)
 
-    @partial(jax.jit, static_argnums=(1, 2, 3))
     @jax_device_set
     def conv_solve_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False), **kwargs):
         [setattr(self, k, v) for k, v in kwargs.items()]  # needed for optimization
 
-        if self.fourier_type == 1:
-            print('CFT (fourier_type=1) is not supported with JAX jit-compilation. Use conv_solve_field_no_jit.')
-            return None, None, None
-
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res, field_cell
 
     @jax_device_set
     def conv_solve_field_no_jit(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res, field_cell
 
     def run_ucell_vmap(self, ucell_list):
         """
-- 
2.43.0


From 06e122d1c56b60fa1a5b9f9d3d646913fdf0669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 06/22] fix: one-row cell with Fourier orders in y

The conical solver took the number of y orders as one whatever fto said and
crashed when fto[1] was positive.
---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_numpy/emsolver/_base.py | 2 +-
 meent/on_torch/emsolver/_base.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..d750fbc 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -344,7 +344,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * jnp.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..b2c7af7 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -288,7 +288,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * np.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..b68a070 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -336,7 +336,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * torch.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
-- 
2.43.0


From ccf0c6e2669e8edb416b5841b9a46b30e20f72dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:57 +0000
Subject: [PATCH 07/22] fix: ellipse whose highest contour point has neighbours
 of equal height

With neither neighbour higher, nothing was written to the contour and the
ellipse vanished, e.g. every unrotated ellipse with 5, 9, 13, ... splits.
---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 9527f2d..dce0e4c 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -434,7 +434,7 @@ class ModelingJax:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1] // 2):
@@ -450,7 +450,7 @@ class ModelingJax:
             arr = arr.at[:, ::2].set(jnp.stack(right_array, axis=1))
             arr = arr.at[:, 1::2].set(jnp.stack(left_array, axis=1))
 
-        elif left_y < right_y:
+        else:
             # arr[:, ::2] = jnp.stack(left_array, axis=1)
             # arr[:, 1::2] = jnp.stack(right_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 90c119b..74c7bc0 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -455,7 +455,7 @@ class ModelingNumpy:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -467,7 +467,7 @@ class ModelingNumpy:
         if left_y > right_y:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = np.stack(left_array, axis=1)
             arr[:, 1::2] = np.stack(right_array, axis=1)
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 2359dc5..0285303 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -358,7 +358,7 @@ class ModelingTorch:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -370,7 +370,7 @@ class ModelingTorch:
         if left_y > right_y:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = torch.stack(left_array, dim=1)
             arr[:, 1::2] = torch.stack(right_array, dim=1)
 
-- 
2.43.0


From e2d092b177ef42ce39278d9dd8a8fe99ff0516d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 08/22] fix: reject a cell of unsupported dtype on jax

The setter kept the previous cell without a word; numpy raises.
---
 meent/on_jax/emsolver/rcwa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 18b43eb..c109a36 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -100,6 +100,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
 
         elif isinstance(ucell, np.ndarray):  # Raster
             self._modeling_type_assigned = 0
@@ -109,6 +111,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
-- 
2.43.0


From c79885b6d32d7779a962e27f4f5e8d4bd0ca993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 09/22] fix: keep use_pinv when a jax mee goes through a
 transformation

---
 meent/on_jax/mee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_jax/mee.py b/meent/on_jax/mee.py
index ec7edaa..18fbd8d 100644
--- a/meent/on_jax/mee.py
+++ b/meent/on_jax/mee.py
@@ -24,6 +24,7 @@ class MeeJax(ModelingJax, RCWAJax, OptimizerJax):
             'type_complex': self.type_complex,
             'fourier_type': self.fourier_type,
             'enhanced_dfs': self.enhanced_dfs,
+            'use_pinv': self.use_pinv,
         }
 
         return children, aux_data
-- 
2.43.0


From 5e4ed0e69c6a998d700ed034ddf2111fe5246928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 10/22] fix: rebuild a jax mee whose psi lies outside 0..pi/2

The pytree carried pol next to psi; pol derived from such a psi is rejected by
its setter, and psi alone determines both.
---
 meent/on_jax/mee.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/meent/on_jax/mee.py b/meent/on_jax/mee.py
index 18fbd8d..adc5d4b 100644
--- a/meent/on_jax/mee.py
+++ b/meent/on_jax/mee.py
@@ -15,7 +15,6 @@ class MeeJax(ModelingJax, RCWAJax, OptimizerJax):
                     self.period, self.wavelength, self.ucell, self.thickness)
         aux_data = {
             'backend': self.backend,
-            'pol': self.pol,
             'fto': self.fto,
             'ucell_materials': self.ucell_materials,
             'connecting_algo': self.connecting_algo,
-- 
2.43.0


From 07a568a5126b9ce5061d80316df53330e537e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:59 +0000
Subject: [PATCH 11/22] fix: grad on torch returns the gradient, not the sum
 over calls

backward() accumulates into .grad, so a second call returned the sum of both
gradients and changed the tensor returned by the first.
---
 meent/on_torch/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..0a47a94 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -17,6 +17,7 @@ class OptimizerTorch(Grad):
 
     def grad(self, pois, forward, loss_fn):
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
+        [setattr(getattr(self, poi), 'grad', None) for poi in pois]  # backward accumulates
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
-- 
2.43.0


From aebad60aac3003c8e4ce8f72b4f4501394ab6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:44 +0000
Subject: [PATCH 12/22] fix: take the downward branch of propagating layer
 modes

---
 meent/on_jax/emsolver/transfer_method.py   | 21 ++++++++++++++++-----
 meent/on_numpy/emsolver/transfer_method.py | 21 ++++++++++++++++-----
 meent/on_torch/emsolver/transfer_method.py | 21 ++++++++++++++++-----
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index c2e497d..8930a16 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -14,6 +14,17 @@ def decaying_branch(kz):
     return jnp.where(kz.imag > 0, kz.conj(), kz)
 
 
+def forward_branch(q):
+    """Take the wave that travels down for a layer mode that does not decay.
+
+    Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
+    imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
+    recursion is singular when the layer has the index of the medium under it.
+    """
+    tol = jnp.finfo(q.dtype).eps ** 0.5
+    return jnp.where((q.imag < 0) & (q.real < tol * jnp.abs(q)), -q, q)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
@@ -67,7 +78,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         A = Kx ** 2 - epy_conv
         eigenvalues, W = eig(A, type_complex, perturbation)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
         Q = jnp.diag(q)
         V = W @ Q
         return W, V, q
@@ -78,7 +89,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         eigenvalues, W = eig(epx_conv @ B, type_complex, perturbation)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
 
         Q = jnp.diag(q)
         # V = jnp.linalg.inv(epx_conv) @ W @ Q
@@ -286,8 +297,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=j
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_branch(eigenvalues_1 ** 0.5)
+    q_2 = forward_branch(eigenvalues_2 ** 0.5)
 
     Q_1 = jnp.diag(q_1)
     Q_2 = jnp.diag(q_2)
@@ -534,7 +545,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.compl
     # eigenvalues, W = jnp.linalg.eig(Omega2_LR)
     eigenvalues, W = eig(Omega2_LR, type_complex, perturbation)
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_branch(eigenvalues ** 0.5)
 
     Q = jnp.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 6fe9366..16fbb6e 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -13,6 +13,17 @@ def decaying_branch(kz):
     return np.where(kz.imag > 0, kz.conj(), kz)
 
 
+def forward_branch(q):
+    """Take the wave that travels down for a layer mode that does not decay.
+
+    Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
+    imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
+    recursion is singular when the layer has the index of the medium under it.
+    """
+    tol = np.finfo(q.dtype).eps ** 0.5
+    return np.where((q.imag < 0) & (q.real < tol * np.abs(q)), -q, q)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
@@ -45,7 +56,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         A = Kx ** 2 - epy_conv
         eigenvalues, W = np.linalg.eig(A)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
         Q = np.diag(q)
         V = W @ Q
 
@@ -55,7 +66,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         eigenvalues, W = np.linalg.eig(epx_conv @ B)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
 
         Q = np.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -191,8 +202,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=n
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_branch(eigenvalues_1 ** 0.5)
+    q_2 = forward_branch(eigenvalues_2 ** 0.5)
 
     Q_1 = np.diag(q_1)
     Q_2 = np.diag(q_2)
@@ -436,7 +447,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=np.comple
     eigenvalues, W = np.linalg.eig(Omega2_LR)
 
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_branch(eigenvalues ** 0.5)
 
     Q = np.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 774eed1..1f497b4 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -20,6 +20,17 @@ def branch_sign(value):
     return torch.where(value.real < 0, -ones, ones)
 
 
+def forward_branch(q):
+    """Take the wave that travels down for a layer mode that does not decay.
+
+    Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
+    imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
+    recursion is singular when the layer has the index of the medium under it.
+    """
+    tol = torch.finfo(q.dtype).eps ** 0.5
+    return torch.where((q.imag < 0) & (q.real < tol * q.abs()), -q, q)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, device=torch.device('cpu'), type_complex=torch.complex128):
     ff_x = len(kx)
 
@@ -64,7 +75,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(A)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
         Q = torch.diag(q)
         V = W @ Q
 
@@ -75,7 +86,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(epx_conv @ B)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_branch(eigenvalues ** 0.5)
 
         Q = torch.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -277,8 +288,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device='cpu',
     eigenvalues_1, W_1 = Eig.apply(Omega2_RL)
     eigenvalues_2, W_2 = Eig.apply(Omega2_LR)
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_branch(eigenvalues_1 ** 0.5)
+    q_2 = forward_branch(eigenvalues_2 ** 0.5)
 
     Q_1 = torch.diag(q_1)
     Q_2 = torch.diag(q_2)
@@ -577,7 +588,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
 
     Eig.perturbation = perturbation
     eigenvalues, W = Eig.apply(Omega2_LR)
-    q = eigenvalues ** 0.5
+    q = forward_branch(eigenvalues ** 0.5)
 
     q = torch.where(q.abs() < 1E-10, torch.full_like(q, 1E-10), q)
 
-- 
2.43.0


From d5dbc33382ac5a7bc51a2ac8a8ee6e30fa7899b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:44 +0000
Subject: [PATCH 13/22] fix: continuous-series gradient of equal neighbouring
 pixels

---
 meent/on_jax/emsolver/convolution_matrix.py   | 7 +++++--
 meent/on_torch/emsolver/convolution_matrix.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index e83bfb8..6847a1d 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -19,6 +19,9 @@ def cell_compression(cell, type_complex=jnp.complex128):
     else:
         type_float = jnp.float32
 
+    # merging equal neighbours would send the gradient of all of them to one pixel
+    keep_all = isinstance(cell, jax.core.Tracer)
+
     # find discontinuities in x
     step_y, step_x = 1. / jnp.array(cell.shape, dtype=type_float)
     x = []
@@ -29,7 +32,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_next = jnp.roll(cell, -1, axis=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col])
 
@@ -37,7 +40,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x_next = jnp.roll(cell_x, -1, axis=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :])
 
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index cd3b391..b33fc31 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -15,6 +15,9 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     else:
         type_float = torch.float32
 
+    # merging equal neighbours would send the gradient of all of them to one pixel
+    keep_all = cell.requires_grad
+
     # find discontinuities in x
     step_y, step_x = 1. / torch.tensor(cell.shape, device=device, dtype=type_float)
     x = []
@@ -25,7 +28,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_next = torch.roll(cell, -1, dims=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col].reshape((1, -1)))
 
@@ -33,7 +36,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x_next = torch.roll(cell_x, -1, dims=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :].reshape((1, -1)))
 
-- 
2.43.0


From d58d7763ed14065aa6521f083c6ed6b6a48a5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:44 +0000
Subject: [PATCH 14/22] fix: centre of a rotated rectangle keeps its gradient
 and precision on torch

---
 meent/on_torch/modeler/modeling.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 0285303..8dcde0c 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -134,10 +134,11 @@ class ModelingTorch:
         DL = rotate @ torch.vstack([-lx / 2, -ly / 2])
         LU = rotate @ torch.vstack([-lx / 2, ly / 2])
 
-        UR += torch.tensor([[cx], [cy]])
-        RD += torch.tensor([[cx], [cy]])
-        DL += torch.tensor([[cx], [cy]])
-        LU += torch.tensor([[cx], [cy]])
+        center = torch.stack([torch.as_tensor(c, dtype=self.type_float).reshape(1) for c in (cx, cy)])
+        UR += center
+        RD += center
+        DL += center
+        LU += center
 
         if 0 <= angle < torch.pi / 2:
             angle_inside = (torch.pi / 2) - angle
@@ -308,11 +309,11 @@ class ModelingTorch:
 
         angle = angle % (2 * torch.pi)
 
-        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w))
-        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h))
+        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w, dtype=self.type_float))
+        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h, dtype=self.type_float))
 
-        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w))[:-1]
-        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h))[:-1]
+        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w, dtype=self.type_float))[:-1]
+        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h, dtype=self.type_float))[:-1]
         points_origin_contour = torch.vstack([points_x_origin_contour, points_y_origin_contour])
 
         axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin))])
-- 
2.43.0


From 6bcb7d56e9e944dd5869adf61396fdd17737b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:14 +0000
Subject: [PATCH 15/22] fix: torch accepts device='cpu' as documented

---
 meent/on_torch/emsolver/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index b68a070..a8b68fd 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -85,9 +85,9 @@ class _BaseRCWA:
 
     @device.setter
     def device(self, device):
-        if device == 0:
+        if device in (0, 'cpu'):
             self._device = torch.device('cpu')
-        elif device == 1:
+        elif device in (1, 'gpu', 'cuda'):
             self._device = torch.device('cuda')
         elif type(device) is torch.device:
             self._device = device
-- 
2.43.0


From cd15b1df1062ec24993b4d149bc79ce8103843ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:45 +0000
Subject: [PATCH 16/22] fix: torch mee without a period takes the default like
 the other backends

---
 meent/on_torch/modeler/modeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 8dcde0c..818415e 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -66,7 +66,8 @@ class ModelingTorch:
         self.y_list = None
         self.mat_table = None
         self.ucell_info_list = None
-        self.period = period
+        if period is not None:  # else the solver's own default holds
+            self.period = period
         # self.type_complex = torch.complex128
         # self.type_float = torch.float64
 
-- 
2.43.0


From ad6c130d0b4b55cf974b399c736c66fcda2e172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 17/22] fix: cold graphene index in the far infrared
 (quadrature missed the Fermi step)

---
 meent/dispersion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meent/dispersion.py b/meent/dispersion.py
index fe2c2fd..044998b 100644
--- a/meent/dispersion.py
+++ b/meent/dispersion.py
@@ -193,7 +193,11 @@ def model_graphene_falkovsky(coefficients, wl, xp):
     for index, energy in enumerate(photon_ev):
         half = occupation(energy / 2)
         integrand = lambda z: (occupation(z) - half) / (energy ** 2 - 4 * z * z)
-        interband, _ = quad(integrand, 0, 1000, points=[energy / 2], limit=400)
+        # the occupation steps at the Fermi level within a few kT, which is narrow on the scale of
+        # the interval when cold, so the quadrature has to be told where to look
+        points = sorted({energy / 2, fermi_level, fermi_level + 20 * temperature_ev,
+                         max(fermi_level - 20 * temperature_ev, 0.0)})
+        interband, _ = quad(integrand, 0, 1000, points=points, limit=400)
 
         intraband = ((2j * ELEMENTARY_CHARGE ** 2 * temperature_ev)
                      / (np.pi * HBAR * (energy + 1j * scattering))
-- 
2.43.0


From ac7ff1012088d66e7ad6af22685a5729f6a78e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 18/22] fix: an order with kx = 0 gave NaN in the conical and
 2D solvers

---
 meent/on_jax/emsolver/transfer_method.py   | 8 ++++++--
 meent/on_numpy/emsolver/transfer_method.py | 8 ++++++--
 meent/on_torch/emsolver/transfer_method.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 8930a16..8768286 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -232,7 +232,9 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -513,7 +515,9 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 16fbb6e..3c93efc 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -170,7 +170,9 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = np.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -415,7 +417,9 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = decaying_branch(kz_top.flatten())
     kz_bot = decaying_branch(kz_bot.flatten())
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = np.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 1f497b4..b41312c 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -234,7 +234,9 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, device='cpu', type_complex=torch
 
     # varphi = torch.arctan(ky / kx_vector)
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = torch.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = torch.diag(kz_bot)
 
 
@@ -543,7 +545,9 @@ def transfer_2d_1(kx, ky, n_top, n_bot, device=torch.device('cpu'), type_complex
     kz_top = kz_top.flatten()
     kz_bot = kz_bot.flatten()
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # an order may leave exactly along kx = 0, where the ratio has no value
+    kx_nz = kx + (kx == 0) * 1E-15
+    varphi = torch.arctan(ky.reshape((-1, 1)) / kx_nz).flatten()
     Kz_bot = torch.diag(kz_bot)
 
     big_F = torch.cat(
-- 
2.43.0


From 513a58cef2337cd65b65e795d255ada8aa727522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 19/22] fix: planar and conical solvers singular for a layer
 mode at cutoff

---
 meent/on_jax/emsolver/transfer_method.py   | 6 +++++-
 meent/on_numpy/emsolver/transfer_method.py | 6 +++++-
 meent/on_torch/emsolver/transfer_method.py | 8 +++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 8768286..3030eb4 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -20,9 +20,13 @@ def forward_branch(q):
     Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
     imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
     recursion is singular when the layer has the index of the medium under it.
+
+    At cutoff (q = 0) the two waves of a mode coincide and the recursion is singular, so q is kept at
+    the square root of the precision.
     """
     tol = jnp.finfo(q.dtype).eps ** 0.5
-    return jnp.where((q.imag < 0) & (q.real < tol * jnp.abs(q)), -q, q)
+    q = jnp.where((q.imag < 0) & (q.real < tol * jnp.abs(q)), -q, q)
+    return jnp.where(jnp.abs(q) < tol, tol, q)
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3c93efc..3d7d9bb 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -19,9 +19,13 @@ def forward_branch(q):
     Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
     imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
     recursion is singular when the layer has the index of the medium under it.
+
+    At cutoff (q = 0) the two waves of a mode coincide and the recursion is singular, so q is kept at
+    the square root of the precision.
     """
     tol = np.finfo(q.dtype).eps ** 0.5
-    return np.where((q.imag < 0) & (q.real < tol * np.abs(q)), -q, q)
+    q = np.where((q.imag < 0) & (q.real < tol * np.abs(q)), -q, q)
+    return np.where(np.abs(q) < tol, tol, q)
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index b41312c..fb7e078 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -26,9 +26,13 @@ def forward_branch(q):
     Re(q) > 0 decides between the two roots of a decaying mode. A propagating mode has q on the
     imaginary axis, where rounding in the eigenvalue picks the root; with the upward wave the
     recursion is singular when the layer has the index of the medium under it.
+
+    At cutoff (q = 0) the two waves of a mode coincide and the recursion is singular, so q is kept at
+    the square root of the precision.
     """
     tol = torch.finfo(q.dtype).eps ** 0.5
-    return torch.where((q.imag < 0) & (q.real < tol * q.abs()), -q, q)
+    q = torch.where((q.imag < 0) & (q.real < tol * q.abs()), -q, q)
+    return torch.where(q.abs() < tol, torch.full_like(q, tol), q)
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, device=torch.device('cpu'), type_complex=torch.complex128):
@@ -594,8 +598,6 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
     eigenvalues, W = Eig.apply(Omega2_LR)
     q = forward_branch(eigenvalues ** 0.5)
 
-    q = torch.where(q.abs() < 1E-10, torch.full_like(q, 1E-10), q)
-
     Q = torch.diag(q)
     Q_i = torch.diag(1 / q)
     Omega_R = torch.cat(
-- 
2.43.0


From 98f4eb2fc34190ad4c3a164d8ff59220b54879df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:23 +0000
Subject: [PATCH 20/22] fix: numpy conv_solve ignored settings given with the
 call

---
 meent/on_numpy/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 429e9b2..e2ed900 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -171,7 +171,7 @@ class RCWANumpy(_BaseRCWA):
         return result
 
     def conv_solve(self, **kwargs):
-        # [setattr(self, k, v) for k, v in kwargs.items()]  # no need in npmeent
+        [setattr(self, k, v) for k, v in kwargs.items()]
 
         if self.modeling_type_assigned == 0:  # Raster
 
-- 
2.43.0


From a3da0fb0029cc78e53a86b67ee378f8e5a025a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:23 +0000
Subject: [PATCH 21/22] fix: torch: pol given as a tensor lost its gradient

---
 meent/on_torch/emsolver/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index a8b68fd..3433ee2 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -175,7 +175,7 @@ class _BaseRCWA:
             raise ValueError
 
         self._pol = pol
-        psi = torch.tensor(torch.pi / 2 * (1 - self.pol), device=self.device, dtype=self.type_complex)
+        psi = _to_tensor(torch.pi / 2 * (1 - self.pol), self.device, self.type_complex)
         self._psi = psi
 
     @property
-- 
2.43.0


From b29b3c4226dcc6de6be722d06b9aad38e526e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:42 +0000
Subject: [PATCH 22/22] fix: psi of a one-row cell can be traced on jax

The choice between the planar and the conical solver looked at the value of pol before asking whether phi is given, so
fit() or jit over psi failed for conical incidence, where the value does not matter.
---
 meent/on_jax/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index c109a36..a256ee5 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -148,7 +148,7 @@ class RCWAJax(_BaseRCWA):
         """
         if self.modeling_type_assigned == 0:  # Raster
             if self.ucell.shape[1] == 1:
-                if (self.pol in (0, 1)) and (self.phi is None) and (self.fto[1] == 0):
+                if (self.phi is None) and (self.fto[1] == 0) and (self.pol in (0, 1)):
                     self._grating_type_assigned = 0
                 else:
                     self._grating_type_assigned = 1
-- 
2.43.0

