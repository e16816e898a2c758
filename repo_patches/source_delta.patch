From 3cdaccce2ba69d14cb0925387876f7f21f1788f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 01/17] fix: blasglue_gemm/herk with an empty product (k == 0)
 must scale C by b, and herk must leave the other triangle alone

---
 src/matrices/blasglue.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/matrices/blasglue.c b/src/matrices/blasglue.c
index 7a41e5e..d7cbbe8 100644
--- a/src/matrices/blasglue.c
+++ b/src/matrices/blasglue.c
@@ -195,11 +195,19 @@ void blasglue_gemm(char transa, char transb, int m, int n, int k,
      if (m*n == 0)
 	  return;
 
-     if (k == 0) {
+     if (k == 0) { /* the product is empty: C = b*C */
 	  int i, j;
 	  for (i = 0; i < m; ++i)
-	       for (j = 0; j < n; ++j)
-		    ASSIGN_ZERO(C[i*fdC + j]);
+	       for (j = 0; j < n; ++j) {
+		    if (b == 0.0) {
+			 ASSIGN_ZERO(C[i*fdC + j]);
+		    }
+		    else {
+			 ASSIGN_SCALAR(C[i*fdC + j],
+				       b * SCALAR_RE(C[i*fdC + j]),
+				       b * SCALAR_IM(C[i*fdC + j]));
+		    }
+	       }
 	  return;
      }
 
@@ -219,11 +227,21 @@ void blasglue_herk(char uplo, char trans, int n, int k,
      if (n == 0)
 	  return;
 
-     if (k == 0) {
+     if (k == 0) { /* the product is empty: C = b*C */
 	  int i, j;
 	  for (i = 0; i < n; ++i)
 	       for (j = 0; j < n; ++j)
-		    ASSIGN_ZERO(C[i*fdC + j]);
+		    if (uplo == 'U' ? j >= i : j <= i) {
+			 if (b == 0.0) {
+			      ASSIGN_ZERO(C[i*fdC + j]);
+			 }
+			 else {
+			      ASSIGN_SCALAR(C[i*fdC + j],
+					    b * SCALAR_RE(C[i*fdC + j]),
+					    i == j ? 0.0 :
+					    b * SCALAR_IM(C[i*fdC + j]));
+			 }
+		    }
 	  return;
      }
 
-- 
2.43.0


From 8f161fb5bfb18af8d8de0d6184919e9d8c0d1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 02/17] fix: evectmatrix_aXpbY/sqmatrix_aApbB: scale by a+b
 when both operands are the same matrix

---
 src/matrices/evectmatrix.c | 6 ++++++
 src/matrices/sqmatrix.c    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..9442f36 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,6 +92,12 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
+     if (X.data == Y.data) { /* don't scale Y by a before adding it */
+	  blasglue_rscal(X.n * X.p, a + b, X.data, 1);
+	  evectmatrix_flops += X.N * X.c * X.p;
+	  return;
+     }
+
      if (a != 1.0)
 	  blasglue_rscal(X.n * X.p, a, X.data, 1);
 
diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 49b9531..723a15d 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -189,6 +189,11 @@ void sqmatrix_aApbB(real a, sqmatrix A, real b, sqmatrix B)
 {
      CHECK(A.p == B.p, "arrays not conformant");
 
+     if (A.data == B.data) { /* don't scale B by a before adding it */
+          blasglue_rscal(A.p * A.p, a + b, A.data, 1);
+          return;
+     }
+
      if (a != 1.0)
           blasglue_rscal(A.p * A.p, a, A.data, 1);
 
-- 
2.43.0


From fef1d88de4e0b8496ee15f32a70c8ce0443245f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 03/17] fix: averaging loops count mesh sizes below 1 as 1

set_maxwell_dielectric counts a mesh size below 1 as 1 when it computes the
mesh steps and the number of mesh points, but the loops over the mesh used
the size itself: the sums were empty and the averaged tensor came out as
zero or infinite.
---
 src/maxwell/maxwell_eps.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/maxwell/maxwell_eps.c b/src/maxwell/maxwell_eps.c
index e7ff93f..0fa67ec 100644
--- a/src/maxwell/maxwell_eps.c
+++ b/src/maxwell/maxwell_eps.c
@@ -415,9 +415,9 @@ static symmetric_matrix average_eps_inv_over_mesh(real r[3],
    ASSIGN_ESCALAR(eps_inv_mean.m12, 0, 0);
 
    /* sum up eps_inv over mesh points */
-   for (mi = 0; mi < mesh_size[0]; ++mi) {
-      for (mj = 0; mj < mesh_size[1]; ++mj) {
-         for (mk = 0; mk < mesh_size[2]; ++mk) {
+   for (mi = 0; mi < MAX2(mesh_size[0], 1); ++mi) {
+      for (mj = 0; mj < MAX2(mesh_size[1], 1); ++mj) {
+         for (mk = 0; mk < MAX2(mesh_size[2], 1); ++mk) {
             real r_mesh[3];
             symmetric_matrix eps, eps_inv;
             r_mesh[0] = r[0] + (mi - mesh_center[0]) * m1;
@@ -681,9 +681,9 @@ void set_maxwell_dielectric(maxwell_data *md,
            ASSIGN_ESCALAR(tau.m01, 0.0, 0.0);
            ASSIGN_ESCALAR(tau.m02, 0.0, 0.0);
            ASSIGN_ESCALAR(tau.m12, 0.0, 0.0);
-           for (mi = 0; mi < mesh_size[0]; ++mi) {
-              for (mj = 0; mj < mesh_size[1]; ++mj) {
-                 for (mk = 0; mk < mesh_size[2]; ++mk) {
+           for (mi = 0; mi < MAX2(mesh_size[0], 1); ++mi) {
+              for (mj = 0; mj < MAX2(mesh_size[1], 1); ++mj) {
+                 for (mk = 0; mk < MAX2(mesh_size[2], 1); ++mk) {
                     real r_mesh[3];
                     symmetric_matrix eps, eps_inv, teps;
                     r_mesh[0] = r[0] + (mi - mesh_center[0]) * m1;
-- 
2.43.0


From 7725bae4daccaac4ab926dcf5bcdafce41603276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 04/17] fix: normalise the z and y parities by the norm of the
 state

maxwell_zparity and maxwell_yparity visit a row and its mirror row
together; the expectation value counted the pair twice but the norm used
twice the first row only, so the parity of a state that is not a parity
eigenstate was wrong and could exceed 1.
---
 src/maxwell/maxwell_constraints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..a2d9201 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,9 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
-                         (SCALAR_RE(u) * SCALAR_RE(u) +
-                          SCALAR_IM(u) * SCALAR_IM(u) +
-                          SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+		    norm_scratch[b] += SCALAR_NORMSQR(u) + SCALAR_NORMSQR(v);
+		    if (ij != ij2)
+			 norm_scratch[b] += SCALAR_NORMSQR(u2) + SCALAR_NORMSQR(v2);
 	       }
 	  }
 
@@ -289,11 +287,9 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
-			      (SCALAR_RE(v) * SCALAR_RE(v) +
-			       SCALAR_IM(v) * SCALAR_IM(v) +
-			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			 norm_scratch[b] += SCALAR_NORMSQR(u) + SCALAR_NORMSQR(v);
+			 if (ijk != ijk2)
+			      norm_scratch[b] += SCALAR_NORMSQR(u2) + SCALAR_NORMSQR(v2);
 		    }
 	       }
 	  }
-- 
2.43.0


From 168711436df77a5222e7ac93de776f058392e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 05/17] fix: mirror interpolation points beyond the upper edge
 back into the grid

---
 mpb/epsilon_file.c  | 6 +++---
 mpb/material_grid.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..8ab2889 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -55,9 +55,9 @@ real linear_interpolate(real rx, real ry, real rz,
      real dx, dy, dz;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..4567968 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -257,9 +257,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      real dx, dy, dz, u;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
-- 
2.43.0


From 5499bbe36b966387bb3b3afac56da0700435c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 06/17] fix: divide_parallel_processes without MPI accepts one
 group and refuses more

---
 src/util/mpi_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mpi_utils.c b/src/util/mpi_utils.c
index 7a19cb5..4120711 100644
--- a/src/util/mpi_utils.c
+++ b/src/util/mpi_utils.c
@@ -83,7 +83,7 @@ int divide_parallel_processes(int numgroups)
     MPI_Comm_split(MPI_COMM_WORLD, mygroup, rank, &mpb_comm);
     return mygroup;
 #else
-    CHECK(numgroups != 1, "tried to split into more groups than processes");
+    CHECK(numgroups == 1, "tried to split into more groups than processes");
     return 0;
 #endif
 }
-- 
2.43.0


From aa40f12d1fa43e514063ba79c3d1a3bd3b95ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 07/17] fix: group velocities with mu keep the solved fields

With a permeability and a single block of bands Hblock shares its data with
H, so that computing H = mu^-1 B for the group velocity replaced the solved
eigenvectors, and a second call gave a different velocity.
---
 mpb/mpb.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..588a82b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -901,16 +901,24 @@ number_list compute_group_velocity_component(vector3 d)
 	the work matrix W[0] may not have enough space to do it all at once. */
 
      for (ib = 0; ib < num_bands; ib += Hblock.alloc_p) {
+	  evectmatrix Hib;
+
 	  if (ib + mdata->num_bands > num_bands) {
 	       maxwell_set_num_bands(mdata, num_bands - ib);
 	       evectmatrix_resize(&W[0], num_bands - ib, 0);
 	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
+	  Hib = Hblock;
+	  if (mdata->mu_inv && Hblock.data == H.data) {
+	       /* mu^-1 B must not overwrite the solutions in H */
+	       CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
+	       Hib = W[1];
+	  }
+          maxwell_compute_H_from_B(mdata, H, Hib,
                                    (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
-	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
+                                   ib, 0, Hib.p);
+	  maxwell_ucross_op(Hib, W[0], mdata, u);
+	  evectmatrix_XtY_diag_real(Hib, W[0], gv_scratch,
 				    gv_scratch + group_v.num_items);
 	  {
 	       int ip;
-- 
2.43.0


From 5373c5ecc15626dbf4840619273a96dd71a2da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 08/17] fix: compute-field-squared without a vector field does
 nothing

After printing the error it squared whatever was loaded, or crashed if nothing was.
---
 mpb/fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..ebbda39 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -357,6 +357,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+          return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
-- 
2.43.0


From f0e151b36d18fa734a1e4716c8a9f90581046c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 09/17] fix: z component of k+G in compute-field-divergence

---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index ebbda39..7e8f638 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -393,7 +393,7 @@ void compute_field_divergence(void)
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nz);
+	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nx);
 	       ASSIGN_SCALAR(field2[ij],
 			     SCALAR_RE(field2[3*ij+0]) * kx +
 			     SCALAR_RE(field2[3*ij+1]) * ky +
-- 
2.43.0


From e61932c312e5609f39dfba29eea6d9c07078fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 10/17] fix: compute-field-divergence uses the k+G of each
 point with real fields

The Fourier-space array is padded to last_dim_size there, k_plus_G is not.
---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 7e8f638..8721fd7 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -389,7 +389,7 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-- 
2.43.0


From 0d4a02999569bb607d7a148ff6ac2fdc4afebdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 11/17] fix: compute-field-divergence multiplies by i in place
 correctly

The real part was already overwritten when it was used for the imaginary part.
---
 mpb/fields.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 8721fd7..8dc9756 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -411,9 +411,10 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
+	  scalar_complex div = curfield[i]; /* the assignment is in-place */
 	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+			 -CSCALAR_IM(div) * scale,
+			 CSCALAR_RE(div) * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From f5f14ec209930527df047f9008b7cee8a439747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 12/17] fix: compute-field-divergence before init-params
 reports the missing field

instead of dereferencing a null pointer
---
 mpb/fields.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 8dc9756..34c6a29 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -374,13 +374,14 @@ void compute_field_divergence(void)
 {
      int i, j, N;
      scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
           mpi_one_fprintf(stderr, "A Bloch-periodic field must be loaded.\n");
           return;
      }
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
 
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
-- 
2.43.0


From a997d7b146bfa4c2ad21315aed6f065d7c7b4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 13/17] fix: halved axis index in cell sums of the
 inversion-symmetric build

Since LOOP_XYZ declares its own loop variables, the index that decides which
points count twice was an uninitialized variable, so that energies in
objects, field integrals and material-grid gradients were wrong in mpbi.
---
 mpb/fields.c        | 12 ++++++------
 mpb/material_grid.c |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 34c6a29..4f1269c 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1349,11 +1349,11 @@ number compute_energy_in_object_list(geometric_object_list objects)
 			      int last_index;
 #  ifdef HAVE_MPI
 			      if (n3 == 1)
-				   last_index = j + local_y_start;
+				   last_index = i2;
 			      else
-				   last_index = k;
+				   last_index = i3;
 #  else
-			      last_index = j;
+			      last_index = i2_;
 #  endif
 			      if (last_index != 0 && 2*last_index != last_dim)
 				   energy_sum += energy[xyz_index];
@@ -1453,11 +1453,11 @@ cnumber compute_field_integral(function f)
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 4567968..7648ac7 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -429,11 +429,11 @@ void material_grids_addgradient(double *v,
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From 8d08f1cbcac708a29c082a7b64fa4a3c75c45788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:27 +0000
Subject: [PATCH 14/17] fix: match_eps_func: gradient of the mirrored point
 uses the mirrored point's misfit

---
 mpb/material_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 7648ac7..c63188a 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -957,6 +957,7 @@ static double match_eps_func(int n, const double *u, double *grad, void *data)
 						   (i3c + 0.5) / n3, eps,
 						   eps_nx, eps_ny, eps_nz, 1);
 			 val += (epsilon - eps0) * (epsilon - eps0);
+			 scalegrad = 2.0 * scaleby * (epsilon - eps0);
 
 			 if (grad) {
 			      p.x = i1c * s1 - c1;
-- 
2.43.0


From 082ce914926c4a9c987446387977155885df7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:27 +0000
Subject: [PATCH 15/17] fix: mindiff_func: clear the whole gradient work array

---
 mpb/material_grid_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 1d8fcd0..0613073 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -56,7 +56,7 @@ static double mindiff_func(int n, const double *u, double *grad, void *data)
     d->iter++;
     material_grids_set(u, d->grids, d->ngrids);
     reset_epsilon();
-    if (grad) memset(work, 0, sizeof(double) * (n-2));
+    if (grad) memset(work, 0, sizeof(double) * n);
 
     set_maxwell_data_parity(mdata, EVEN_Z_PARITY);
     randomize_fields();
-- 
2.43.0


From 55c0dda8fe530d3d10b3732b87c4833b2ae0bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 16/17] fix: fieldio_write_complex_field: multiply by the phase
 the components the field has, not always 3

---
 src/matrixio/fieldio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..6175c11 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,16 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components;
+			      ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From 649fedd6688586d93e55c39a192863f1eb5fa867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 17/17] fix: matrixio_read_real_data: fail when a file holds no
 dataset instead of opening an unset name

---
 src/matrixio/matrixio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..14ce37e 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -801,7 +801,7 @@ real *matrixio_read_real_data(matrixio_id id,
 	  strcpy(dname, name);
      }
      else {
-	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0)
+	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) <= 0)
 	       return NULL;
      }
      SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
-- 
2.43.0

