From b822ee455ebfead70cb99926a090fbb8be1cf8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 1/9] fix: do not modify the caller's wavevector array when
 computing solid angles

---
 src/fmmax/farfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index f75aae7..160dba3 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -135,8 +135,8 @@ def solid_angle_from_unflattened_transverse_wavevectors(
     ky = transverse_wavevectors[..., 1]
 
     # Normalize the wavevectors so they lie on the unit sphere.
-    kx /= 2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis]
-    ky /= 2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis]
+    kx = kx / (2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis])
+    ky = ky / (2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis])
     polar_angle = jnp.arcsin(jnp.sqrt(kx**2 + ky**2))
 
     # Each of our transverse wavevectors lies within a "cell" in the kxky plane.
-- 
2.43.0


From 26c145ed574b44c7424ba89759f5c46fdbd80058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 2/9] fix: treat batched lattice vectors element by element

---
 src/fmmax/basis.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..ed17b9c 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -118,6 +118,7 @@ def generate_expansion(
 def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     """Computes the reciprocal vectors for the `basis`."""
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
+    cross_product = cross_product[..., jnp.newaxis]
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
         / cross_product
@@ -228,10 +229,16 @@ def brillouin_zone_in_plane_wavevector(
         [
             2
             * jnp.pi
-            * (i * reciprocal_vectors.u[..., 0] + j * reciprocal_vectors.v[..., 0]),
+            * (
+                i * reciprocal_vectors.u[..., 0, jnp.newaxis, jnp.newaxis]
+                + j * reciprocal_vectors.v[..., 0, jnp.newaxis, jnp.newaxis]
+            ),
             2
             * jnp.pi
-            * (i * reciprocal_vectors.u[..., 1] + j * reciprocal_vectors.v[..., 1]),
+            * (
+                i * reciprocal_vectors.u[..., 1, jnp.newaxis, jnp.newaxis]
+                + j * reciprocal_vectors.v[..., 1, jnp.newaxis, jnp.newaxis]
+            ),
         ],
         axis=-1,
     )
@@ -254,12 +261,12 @@ def transverse_wavevectors(
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0, jnp.newaxis]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1, jnp.newaxis]
     )
     return jnp.stack([kx, ky], axis=-1)
 
-- 
2.43.0


From 08ec727e5d45b859cdf90a4c038b2a7c0fb5633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:10 +0000
Subject: [PATCH 3/9] fix: combine layers with and without batch axes correctly
 in matrix solves

---
 src/fmmax/scattering.py | 5 +++++
 src/fmmax/sources.py    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..3d23ba5 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -598,4 +598,9 @@ def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarr
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
         b = b.astype(jnp.promote_types(b.dtype, jnp.float64))
+    # Ensure that `b` is always a (batch of) matrices. With unequal ranks, `b` could be
+    # interpreted as a batch of vectors by `jnp.linalg.solve`.
+    ndim = max(a.ndim, b.ndim)
+    a = utils.atleast_nd(a, n=ndim)
+    b = utils.atleast_nd(b, n=ndim)
     return jnp.linalg.solve(a, b).astype(output_dtype)
diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..541f099 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -288,7 +288,7 @@ def amplitudes_for_source(
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
     # source, and the backward-going wave amplitudes before the source.
-    ab = jnp.linalg.solve(matrix, pol)
+    ab = jnp.linalg.solve(matrix, utils.atleast_nd(pol, n=matrix.ndim))
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
     # Other wave amplitudes are computed from the scattering matrices.
-- 
2.43.0


From 9fc88d86badeb941258cd4348462b0a4999569b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:05 +0000
Subject: [PATCH 4/9] fix: broadcast the emission matrix over the batch of the
 whole substacks

---
 src/fmmax/sources.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 541f099..ca21951 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -397,7 +397,12 @@ def emission_matrix(
     fd_s12_before = utils.diag(fd) @ s_matrix_before_source.s12
     fd_s21_after = utils.diag(next_fd) @ s_matrix_after_source.s21
 
-    shape = jnp.broadcast_shapes(q.shape, next_q.shape)
+    shape = jnp.broadcast_shapes(
+        q.shape,
+        next_q.shape,
+        s_matrix_before_source.s12.shape[:-1],
+        s_matrix_after_source.s21.shape[:-1],
+    )
     eye = utils.diag(jnp.ones(shape, dtype=q.dtype))
 
     # Equation 7.9 from [1999 Whittaker].
-- 
2.43.0


From 64db69680929c8e45a514e88379f1d066c3b4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 5/9] fix: remove old API pages whatever the output directory
 is called

glob treats brackets in the directory name as a pattern and ignores errors, so
that stale pages were kept and function pages were appended to old ones.
---
 docs/gen_API_from_docstrings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/docs/gen_API_from_docstrings.py b/docs/gen_API_from_docstrings.py
index 1dcf5b3..3d95b24 100644
--- a/docs/gen_API_from_docstrings.py
+++ b/docs/gen_API_from_docstrings.py
@@ -4,7 +4,6 @@ Copyright (c) Meta Platforms, Inc. and affiliates.
 """
 
 import ast
-import glob
 import os
 from typing import Any, Dict
 
@@ -204,9 +203,9 @@ def traverse_directory(input_dir: str, output_dir: str) -> Dict[str, Any]:
         os.makedirs(output_dir)
 
     # Remove any existing doc files.
-    files = glob.glob(os.path.join(output_dir, "*.md"))
-    for f in files:
-        os.remove(f)
+    for name in os.listdir(output_dir):
+        if name.endswith(".md"):
+            os.remove(os.path.join(output_dir, name))
 
     # Walk through the file tree and process each file.
     toc = {}
-- 
2.43.0


From 30d42b4f9c715494ca8ea463be7521c860c23c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 6/9] fix: process modules in a fixed order when generating API
 pages

Methods of equally named classes are appended to one page, and equally named
modules write the same pages, so that the result depended on the order in which
the file system lists files.
---
 docs/gen_API_from_docstrings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/gen_API_from_docstrings.py b/docs/gen_API_from_docstrings.py
index 3d95b24..75a4184 100644
--- a/docs/gen_API_from_docstrings.py
+++ b/docs/gen_API_from_docstrings.py
@@ -210,7 +210,9 @@ def traverse_directory(input_dir: str, output_dir: str) -> Dict[str, Any]:
     # Walk through the file tree and process each file.
     toc = {}
     for root, dirs, files in os.walk(input_dir):
-        for file in files:
+        # Fix the order, since modules may contribute to the same page.
+        dirs.sort()
+        for file in sorted(files):
             if file.endswith(".py"):
                 process_file(output_dir, os.path.join(root, file), toc)
     return toc
-- 
2.43.0


From e4510d72abba0ff13e4901673cf3a98972acdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 7/9] fix: report unreadable source directories when generating
 API pages

os.walk ignores such errors by default, and the pages of whole modules were
missing without notice.
---
 docs/gen_API_from_docstrings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docs/gen_API_from_docstrings.py b/docs/gen_API_from_docstrings.py
index 75a4184..d26b26e 100644
--- a/docs/gen_API_from_docstrings.py
+++ b/docs/gen_API_from_docstrings.py
@@ -189,6 +189,11 @@ def docstring_to_markdown(docstring: str) -> str:
     return markdown
 
 
+def _raise_error(error: OSError) -> None:
+    """Raises errors which `os.walk` would otherwise ignore."""
+    raise error
+
+
 def traverse_directory(input_dir: str, output_dir: str) -> Dict[str, Any]:
     """
     Traverses a directory and processes all Python files.
@@ -209,7 +214,7 @@ def traverse_directory(input_dir: str, output_dir: str) -> Dict[str, Any]:
 
     # Walk through the file tree and process each file.
     toc = {}
-    for root, dirs, files in os.walk(input_dir):
+    for root, dirs, files in os.walk(input_dir, onerror=_raise_error):
         # Fix the order, since modules may contribute to the same page.
         dirs.sort()
         for file in sorted(files):
-- 
2.43.0


From 25fc65256fc963176c158ed1dceaefb6d55a21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:54 +0000
Subject: [PATCH 8/9] fix: do not let the images of one tutorial overwrite
 those of another

All notebooks are exported to one directory, and images were named after their
cell only: dipoles.ipynb and metal_dipole.ipynb both wrote output_23_0.png.
---
 docs/gen_tutorials_from_notebooks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docs/gen_tutorials_from_notebooks.py b/docs/gen_tutorials_from_notebooks.py
index df779f9..03e81f9 100644
--- a/docs/gen_tutorials_from_notebooks.py
+++ b/docs/gen_tutorials_from_notebooks.py
@@ -33,8 +33,11 @@ def export_notebooks(notebook_dir: str, output_dir: str = None) -> None:
             # Create a Markdown exporter
             exporter = MarkdownExporter()
 
-            # Export the notebook to markdown
-            body, resources = exporter.from_notebook_node(notebook)
+            # Export the notebook to markdown. Images are named after the notebook, so
+            # that those of different notebooks do not overwrite each other.
+            body, resources = exporter.from_notebook_node(
+                notebook, resources={"unique_key": filename[:-6]}
+            )
 
             # Save the markdown to a file
             output_filename = filename[:-6] + ".md"
-- 
2.43.0


From f5acf0bf83f15775daf83143ba65bd16afb8f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 9/9] fix: finite gradients of far-field profiles with
 evanescent orders

The flux was divided by a solid angle that is nan for evanescent orders, which
turned the gradient with respect to the flux of every order into nan.
---
 src/fmmax/farfield.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index 160dba3..5fa35b1 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -77,7 +77,13 @@ def farfield_profile(
         transverse_wavevectors=transverse_wavevectors,
         wavelength=wavelength,
     )
-    transformed_flux = flux / solid_angle[..., jnp.newaxis, jnp.newaxis]
+    # There is no solid angle for evanescent orders. These have a `nan` value, but are
+    # excluded from the division so that they do not affect the gradient of other values.
+    divisor = solid_angle[..., jnp.newaxis, jnp.newaxis]
+    undefined = jnp.isnan(divisor)
+    transformed_flux = jnp.where(
+        undefined, jnp.nan, flux / jnp.where(undefined, 1, divisor)
+    )
     return polar_angle, azimuthal_angle, solid_angle, transformed_flux
 
 
-- 
2.43.0

