From 419b4d6259c806d2684e3bd558f4a92ef79c14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 01/85] fix: TDyAlloc allocates the requested number of bytes,
 not its square

TDyAlloc(size) is documented in bytes but multiplied the size by the size of
the pointee (1.4 GB per TDyCreate). Callers that relied on the excess
(quadrature arrays, file-sourced variables, unit_vec_up_dn) now request what
they write.
---
 include/private/tdymemoryimpl.h | 2 +-
 src/fe/tdyfe.c                  | 4 ++--
 src/fv/share/tdymesh.c          | 2 +-
 src/tdydiscretization.c         | 2 --
 src/tdyio.c                     | 2 +-
 5 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/private/tdymemoryimpl.h b/include/private/tdymemoryimpl.h
index e2e0880..cc1280e 100644
--- a/include/private/tdymemoryimpl.h
+++ b/include/private/tdymemoryimpl.h
@@ -8,7 +8,7 @@
 /// Allocates a chunk of zeroed memory of the given size (in bytes).
 /// @param [in] size The size of the requested allocation.
 /// @param [out] result A pointer to the requested memory chunk.
-#define TDyAlloc(size,result) PetscCalloc1(size,result)
+#define TDyAlloc(size,result) PetscCalloc(size,result)
 
 /// @def TDyRealloc
 /// Resizes the given chunk of memory to the new requested size.
diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index ec4178e..dcee4e5 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -156,8 +156,8 @@ PetscErrorCode SetQuadrature(PetscQuadrature q,PetscInt dim) {
   PetscReal *x,*w;
   PetscInt d,nv=1;
   for(d=0; d<dim; d++) nv *= 2;
-  ierr = TDyAlloc(nv*dim,&x); CHKERRQ(ierr);
-  ierr = TDyAlloc(nv,&w); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*dim*sizeof(PetscReal),&x); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*sizeof(PetscReal),&w); CHKERRQ(ierr);
   switch(nv*dim) {
   case 2: /* line */
     x[0] = -1.0; w[0] = 1.0;
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..afdbb64 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 5c67cd0..04d9c6d 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -35,8 +35,6 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
 
   PetscErrorCode ierr;
 
-  ierr = TDyAlloc(sizeof(TDyDiscretization), &discretization); CHKERRQ(ierr);
-
   ierr = TDyDMDestroy (discretization->tdydm); CHKERRQ(ierr);
   TDyFree(discretization);
 
diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..def05e7 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -319,7 +319,7 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
 
-  ierr = TDyAlloc(n,variable);CHKERRQ(ierr);
+  ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
     (*variable)[i] = ptr[i];
   }
-- 
2.43.0


From 19a00c5adaa4cf296eac5e93314d8632c5ba1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 02/85] fix: evaluate the previous state on local+ghost cells
 in PreSolve/TimeCut

The state update read num_cells entries from the global (owned cells only)
vector, past its end on more than one rank, and left ghost auxiliary
variables undefined.
---
 src/fv/fvtpf/tdyfvtpf_snes.c          | 14 ++++++++------
 src/fv/mpfao/tdympfao_snes.c          |  7 ++++---
 src/fv/mpfao/tdympfao_snes_salinity.c |  5 +++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..256fbb4 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -54,9 +54,10 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
@@ -94,9 +95,10 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..6661ad0 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -42,9 +42,10 @@ PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..62755b9 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -60,7 +60,8 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&U); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
@@ -80,7 +81,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,U[icell*2+1],&accum_prev[icell*2+1]); CHKERRQ(ierr);
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&U); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 958042fec38d6b4295b061554761ace20810f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 03/85] fix: TH residual reads dU/dt of owned cells only

U_t is a global vector; the loop ran over ghost cells as well.
---
 src/fv/mpfao/tdympfao_th_ts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..7f3cd91 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -219,6 +219,7 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
             temp[cEnd-cStart], dtemp_dt[cEnd-cStart];
   ierr = VecGetArray(tdy->soln_loc,&u_p); CHKERRQ(ierr);
   for (c=0;c<cEnd-cStart;c++) {
+    if (!cells->is_local[c]) break; // U_t is a global vector: no ghost cells
     dp_dt[c]    = du_dt[c*2];
     dtemp_dt[c] = du_dt[c*2+1];
     temp[c]     = u_p[c*2+1];
-- 
2.43.0


From 06cc0074398bee92a1bb66e2a39f087901b44568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 04/85] fix: distribute the mesh once in TDySetFromOptions

DMSetFromOptions distributed the plex by default before the library set up
fields and natural ordering and distributed it again.
---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..9b86397 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -672,7 +672,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-      // Here we lean on PETSc's DM* options for overrides.
+      // Here we lean on PETSc's DM* options for overrides. The mesh is
+      // distributed below, once its fields and natural ordering are in place.
+      ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
       ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     }
 
@@ -689,6 +691,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       ierr = DMDestroy(&dm); CHKERRQ(ierr);
       dm = dm_dist;
     }
+    ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
     ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
-- 
2.43.0


From 0bc3e61682abe0212cb218a1ab216da9ed6fd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 05/85] fix: do not mark the rim of the ghost layer as domain
 boundary

DMPlexMarkBoundaryFaces marks faces with a single cell, which on more than
one process includes the outer faces of ghost cells; DMPlexLabelComplete then
marked the interior faces they are copies of. WY imposed the boundary
pressure on those.
---
 src/tdycore.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 9b86397..35801ef 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -445,6 +445,35 @@ PetscErrorCode TDyGetDM(TDy tdy,DM *dm) {
   PetscFunctionReturn(0);
 }
 
+// Removes the faces of ghost cells from a label for boundary faces. Ghost faces
+// on the domain's boundary are marked by the process that owns their cell.
+static PetscErrorCode UnmarkGhostBoundaryFaces(DM dm, DMLabel label) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  PetscSF sf;
+  PetscInt cStart, cEnd, num_leaves;
+  const PetscInt *leaves;
+  ierr = DMPlexGetHeightStratum(dm, 0, &cStart, &cEnd); CHKERRQ(ierr);
+  ierr = DMGetPointSF(dm, &sf); CHKERRQ(ierr);
+  ierr = PetscSFGetGraph(sf, NULL, &num_leaves, &leaves, NULL); CHKERRQ(ierr);
+  for (PetscInt l = 0; l < num_leaves; ++l) {
+    PetscInt point = leaves ? leaves[l] : l;
+    if ((point < cStart) || (point >= cEnd)) continue;
+    PetscInt cone_size;
+    const PetscInt *cone;
+    ierr = DMPlexGetConeSize(dm, point, &cone_size); CHKERRQ(ierr);
+    ierr = DMPlexGetCone(dm, point, &cone); CHKERRQ(ierr);
+    for (PetscInt f = 0; f < cone_size; ++f) {
+      PetscInt support_size;
+      ierr = DMPlexGetSupportSize(dm, cone[f], &support_size); CHKERRQ(ierr);
+      if (support_size == 1) {
+        ierr = DMLabelClearValue(label, cone[f], 1); CHKERRQ(ierr);
+      }
+    }
+  }
+  PetscFunctionReturn(0);
+}
+
 /// Retrieves the indices of the faces belonging to the domain boundary
 /// for the dycore. This must be called after TDySetFromOptions. Call
 /// TDyRestoreBoundaryFaces when you're finished manipulating boundary
@@ -703,6 +732,8 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ierr = DMCreateLabel(((tdy->discretization)->tdydm)->dm, "boundary"); CHKERRQ(ierr);
     ierr = DMGetLabel(((tdy->discretization)->tdydm)->dm, "boundary", &boundary_label); CHKERRQ(ierr);
     ierr = DMPlexMarkBoundaryFaces(((tdy->discretization)->tdydm)->dm, 1, boundary_label); CHKERRQ(ierr);
+    // The rim of the ghost layer isn't part of the domain's boundary.
+    ierr = UnmarkGhostBoundaryFaces(((tdy->discretization)->tdydm)->dm, boundary_label); CHKERRQ(ierr);
     ierr = DMPlexLabelComplete(((tdy->discretization)->tdydm)->dm, boundary_label); CHKERRQ(ierr);
 
   }
-- 
2.43.0


From 232ef919d464f69697b17156c4bcbcddd16b8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 06/85] fix: TDyGetBoundaryFaces returns boundary faces only

The boundary label holds the closure of the faces (edges, vertices); the
index set was leaked.
---
 src/tdycore.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 35801ef..75ffb11 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -489,9 +489,26 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumSize(label, 1, num_faces); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISGetIndices(is, faces); CHKERRQ(ierr);
+
+  // The label holds the transitive closure of the faces.
+  PetscInt fStart, fEnd, num_points, *face_points;
+  const PetscInt *points;
+  ierr = DMPlexGetHeightStratum(dm, 1, &fStart, &fEnd); CHKERRQ(ierr);
+  ierr = DMLabelGetStratumSize(label, 1, &num_points); CHKERRQ(ierr);
+  ierr = TDyAlloc((num_points+1)*sizeof(PetscInt), &face_points); CHKERRQ(ierr);
+  *num_faces = 0;
+  if (num_points > 0) {
+    ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
+    ierr = ISGetIndices(is, &points); CHKERRQ(ierr);
+    for (PetscInt p = 0; p < num_points; ++p) {
+      if ((points[p] >= fStart) && (points[p] < fEnd)) {
+        face_points[(*num_faces)++] = points[p];
+      }
+    }
+    ierr = ISRestoreIndices(is, &points); CHKERRQ(ierr);
+    ierr = ISDestroy(&is); CHKERRQ(ierr);
+  }
+  *faces = face_points;
   PetscFunctionReturn(0);
 }
 
@@ -502,13 +519,9 @@ PetscErrorCode TDyRestoreBoundaryFaces(TDy tdy, PetscInt *num_faces,
                                        const PetscInt** faces) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  DMLabel label;
-  IS is;
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISRestoreIndices(is, faces); CHKERRQ(ierr);
+  ierr = TDyFree(*faces); CHKERRQ(ierr);
+  *faces = NULL;
+  *num_faces = 0;
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 366d508363222525fadafd3a9d376b0d158b4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 07/85] fix: a cut time step no longer skips simulated time

A step that had been shortened to end at sync_time and was then cut
left dt_save set, so the integrator declared sync_time reached after
the shorter step.
---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..aa6e243 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= 0.25;
+            ti->dt_save = 0.; // the shorter step doesn't end at sync_time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 94c3c970f3875db5b00da9157e5d4cc6e73f6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 08/85] fix: the TS time integrator runs to sync_time

TSSetMaxTime takes an absolute time: a second TDyTimeIntegratorRunToTime
stopped early or did nothing.
---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index aa6e243..6975057 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -183,9 +183,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From f1041bde830d1c9bc67d92b77fb0352aecca2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 09/85] fix: write output for accepted time steps only

---
 src/tdyti.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 6975057..4a63293 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -160,7 +160,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           sprintf(message,"\nTime step %d: time = %f dt = %f ni = %d li = %d rsn = %s\n\n",
             ti->istep,ti->time,ti->dt,nit,lit, SNESConvergedReasons[reason]);
           ierr = PetscPrintf(PETSC_COMM_WORLD,message); CHKERRQ(ierr);
-          if (tdy->io->output_timestep_interval > 0) {
+          if (solver_converged && tdy->io->output_timestep_interval > 0) {
             if ((tdy->ti->istep)%(tdy->io->output_timestep_interval) == 0) {
               ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr);
             }
-- 
2.43.0


From 2abe0ce20033347c2116362e084a3de435d485d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 10/85] fix: honour the time step reduction factor

It was read from the options and ignored; 0.25, the value applied so far,
becomes the default.
---
 src/tdyti.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 4a63293..ba60dd7 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -17,7 +17,7 @@ PetscErrorCode TDyTimeIntegratorCreate(TDyTimeIntegrator *_ti) {
   ti->dt_init = 1.;
   ti->dt_max = 1.e20;
   ti->dt_growth_factor = 1.25;
-  ti->dt_reduction_factor = 0.5;
+  ti->dt_reduction_factor = 0.25;
   ti->time = 0.;
   ti->dt_save = 0.;
   PetscReal final_time_in_years = 0.0001;
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             ti->dt_save = 0.; // the shorter step doesn't end at sync_time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
-- 
2.43.0


From 1c41c6c2a7f1f3598fd12221175db6bbc4df7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 11/85] fix: FV_TPF boundary residual reads the state of its
 own boundary face

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 256fbb4..479e5fd 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -181,7 +181,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From 6f094916e6ee58659447b8289eb8c0d1421f1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 12/85] fix: FV_TPF faces without mobility contribute zero, not
 uninitialised values

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 479e5fd..7003598 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -577,7 +577,7 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Res;
+    PetscReal Res = 0.0;
     ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -667,7 +667,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Jup, Jdn;
+    PetscReal Jup = 0.0, Jdn = 0.0;
     ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -696,7 +696,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = TDyMeshGetFaceCells(mesh, iface, &cell_ids, &num_face_cells); CHKERRQ(ierr);
 
     PetscInt cell_id_dn = cell_ids[1];
-    PetscReal Jdn;
+    PetscReal Jdn = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
       ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
-- 
2.43.0


From c02047d331ac50e630ca859ceb0ef12ae7710ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 13/85] fix: FV_TPF boundary Jacobian includes inflow

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 7003598..0cc981d 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -408,15 +408,15 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
@@ -488,10 +488,9 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From c90aa8f77d85ede0d7f4d0ff99b32b6fb644b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 14/85] fix: the transient variable of MPFA_O_TRANSIENTVAR is
 mass per volume

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..fc1ad0c 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
@@ -39,7 +39,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   ierr = VecRestoreArray(C,&c); CHKERRQ(ierr);
-- 
2.43.0


From 34d8bf75492cc7231f5588819708a1de82208871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 15/85] fix: liquid mass diagnostic counts the water in the
 pores

---
 src/fv/fvtpf/tdyfvtpf.c | 3 ++-
 src/fv/mpfao/tdympfao.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..90e750a 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -379,7 +379,8 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = fvtpf->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->porosity[c] *
+                                      fvtpf->S[c] * fvtpf->V[c];
 
     count++;
   }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..bd40e59 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2776,7 +2776,8 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = mpfao->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->porosity[c] *
+                                      mpfao->S[c] * mpfao->V[c];
 
     count++;
   }
-- 
2.43.0


From 8a6d9d533c5bf5c6312b8b0642b4ce5172e53472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 16/85] fix: the finite volume residuals apply the forcing
 functions

---
 include/private/tdympfaoimpl.h          |  1 +
 src/fv/fvtpf/tdyfvtpf_snes.c            |  8 ++++++-
 src/fv/mpfao/tdympfao_snes.c            |  3 ++-
 src/fv/mpfao/tdympfao_snes_salinity.c   |  3 ++-
 src/fv/mpfao/tdympfao_th_ts.c           |  1 +
 src/fv/mpfao/tdympfao_ts.c              |  1 +
 src/fv/mpfao/tdympfao_ts_transientvar.c |  1 +
 src/fv/mpfao/tdympfao_utils.c           | 29 +++++++++++++++++++++++++
 8 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/include/private/tdympfaoimpl.h b/include/private/tdympfaoimpl.h
index e0d44c5..45b41e0 100644
--- a/include/private/tdympfaoimpl.h
+++ b/include/private/tdympfaoimpl.h
@@ -165,6 +165,7 @@ PETSC_INTERN PetscErrorCode ExtractSubGmatrix(TDyMPFAO*,PetscInt,PetscInt,PetscI
 PETSC_INTERN PetscErrorCode ExtractTempSubGmatrix(TDyMPFAO*,PetscInt,PetscInt,PetscInt,PetscReal**);
 PETSC_INTERN PetscErrorCode ExtractPsiSubGmatrix(TDyMPFAO*,PetscInt,PetscInt,PetscInt,PetscReal**);
 PETSC_INTERN PetscErrorCode TDyMPFAOUpdateBoundaryState(TDy);
+PETSC_INTERN PetscErrorCode TDyMPFAOUpdateSourceSink(TDy);
 PETSC_INTERN PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy,Vec,PetscReal*,PetscInt*);
 PETSC_INTERN PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVertices(TDy, Vec,PetscReal*,PetscInt*);
 PETSC_INTERN PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertices(TDy,Vec,PetscReal*,PetscInt*);
diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 0cc981d..c770154 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -623,8 +623,14 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
 
     ierr = TDyFVTPFSNESAccumulation(icell,tdy->dtime,tdy->context,&accum_current); CHKERRQ(ierr);
 
+    // Sources are given per unit volume
+    if (ConditionsHasForcing(tdy->conditions)) {
+      ierr = ConditionsComputeForcing(tdy->conditions, 1, cells->centroid[icell].X,
+                                      &(fvtpf->source_sink[icell])); CHKERRQ(ierr);
+    }
+
     r_ptr[icell] += accum_current - accum_prev[icell];
-    r_ptr[icell] -= fvtpf->source_sink[icell];
+    r_ptr[icell] -= fvtpf->source_sink[icell] * cells->volume[icell];
 
   }
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index 6661ad0..570b5c9 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -98,6 +98,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
+  ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
   ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
 
   PetscReal *accum_prev;
@@ -120,7 +121,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
     ierr = TDyMPFAOSNESAccumulation(tdy,icell,&accum_current); CHKERRQ(ierr);
 
     r[icell] += accum_current - accum_prev[icell];
-    r[icell] -= mpfao->source_sink[icell];
+    r[icell] -= mpfao->source_sink[icell] * cells->volume[icell];
   }
 
   /* Cleanup */
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 62755b9..7189718 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -255,6 +255,7 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,Ul); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundarySalineConcentration(tdy,Ul); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
+  ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
   ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
   ierr = MatMult(mpfao->Psi_Trans_mat,mpfao->Psi_vec,mpfao->TtimesPsi_vec);
 
@@ -282,7 +283,7 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,soln[icell*2+1],&accum_current_transport); CHKERRQ(ierr);
 
     r[icell*2] += accum_current_mass - accum_prev[icell*2];
-    r[icell*2] -= mpfao->source_sink[icell];
+    r[icell*2] -= mpfao->source_sink[icell] * cells->volume[icell];
     r[icell*2+1] += accum_current_transport - accum_prev[icell*2+1];
     r[icell*2+1] -= mpfao->salinity_source_sink[icell];
   }
diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 7f3cd91..d3dfd41 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -185,6 +185,7 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundaryTemperature(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
+  ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
   ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
   ierr = MatMult(mpfao->Temp_Trans_mat,mpfao->Temp_P_vec,mpfao->Temp_TtimesP_vec);
 
diff --git a/src/fv/mpfao/tdympfao_ts.c b/src/fv/mpfao/tdympfao_ts.c
index 055bb27..ea3962b 100644
--- a/src/fv/mpfao/tdympfao_ts.c
+++ b/src/fv/mpfao/tdympfao_ts.c
@@ -181,6 +181,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
+  ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
   ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index fc1ad0c..20fc358 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -76,6 +76,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
+  ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
   ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 0dae94b..12c0707 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -20,6 +20,35 @@ PetscErrorCode ComputeGtimesZ(PetscReal *gravity, PetscReal *X, PetscInt dim, Pe
   PetscFunctionReturn(0);
 }
 
+/* -------------------------------------------------------------------------- */
+/// Evaluates the forcing functions (sources per unit volume) in local cells.
+PetscErrorCode TDyMPFAOUpdateSourceSink(TDy tdy) {
+
+  TDyMPFAO *mpfao = tdy->context;
+  TDyMesh *mesh = mpfao->mesh;
+  TDyCell *cells = &mesh->cells;
+  Conditions *conditions = tdy->conditions;
+  PetscErrorCode ierr;
+
+  PetscFunctionBegin;
+
+  for (PetscInt icell=0; icell<mesh->num_cells; icell++) {
+
+    if (!cells->is_local[icell]) continue;
+
+    if (ConditionsHasForcing(conditions)) {
+      ierr = ConditionsComputeForcing(conditions, 1, cells->centroid[icell].X,
+                                      &(mpfao->source_sink[icell])); CHKERRQ(ierr);
+    }
+    if (mpfao->energy_source_sink && ConditionsHasEnergyForcing(conditions)) {
+      ierr = ConditionsComputeEnergyForcing(conditions, 1, cells->centroid[icell].X,
+                                            &(mpfao->energy_source_sink[icell])); CHKERRQ(ierr);
+    }
+  }
+
+  PetscFunctionReturn(0);
+}
+
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyMPFAOUpdateBoundaryState(TDy tdy) {
 
-- 
2.43.0


From 67c27f709dfb588db17f635b7b19976cb18bbbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 17/85] fix: room for the cell count in front of the cells
 above and below a vertex

---
 src/fv/share/tdymeshplex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..c966d03 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3036,12 +3036,12 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
     }
   }
 
-  // Determine cell IDs that are above and below all vertices
+  // Determine cell IDs that are above and below all vertices (preceded by their number)
   PetscInt **cellsAbove, **cellsBelow;
   PetscInt ncells_per_vertex = TDyMaxNumberOfCellsSharingAVertex(dm, mesh->closureSize, mesh->closure);
 
-  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
 
   ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
 
-- 
2.43.0


From a82f92d778beca880cde1c353d20965f4bc799d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 18/85] fix: -tdy_fvtpf_boundary_condition_type takes effect

---
 src/fv/fvtpf/tdyfvtpf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 90e750a..e546115 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -331,6 +331,12 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
 
+  // The type given as an option applies to all boundary faces, unless a function
+  // gives it face by face.
+  for (PetscInt iface=0; iface<fvtpf->mesh->num_faces; iface++) {
+    if (!fvtpf->mesh->faces.is_internal[iface]) fvtpf->mesh->faces.bc_type[iface] = fvtpf->bc_type;
+  }
+
   if (ConditionsHasBoundaryPressureType(condition)) {
     TDyMesh  *mesh = fvtpf->mesh;
     TDyFace  *faces = &mesh->faces;
-- 
2.43.0


From 0461a4aa9ace143635d163017c833b01cc65efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 19/85] fix: corner vertices use their own subfaces of
 distorted meshes

---
 src/fv/share/tdymeshplex.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index c966d03..9a8428f 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3168,6 +3168,22 @@ PetscErrorCode UpdateCellOrientationAroundAFace(DM dm, TDyMesh *mesh) {
     }
   }
 
+  // The order of the vertices of a face may have changed, so update the
+  // position of each vertex within its faces (vertices->subface_ids).
+  for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
+    PetscInt *face_ids, num_faces;
+    PetscInt *subface_ids, num_subfaces;
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
+    ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
+    for (PetscInt iface=0; iface<num_faces; iface++) {
+      PetscInt *vertex_ids, num_vertices;
+      ierr = TDyMeshGetFaceVertices(mesh, face_ids[iface], &vertex_ids, &num_vertices); CHKERRQ(ierr);
+      for (PetscInt ii=0; ii<num_vertices; ii++) {
+        if (vertex_ids[ii] == ivertex) subface_ids[iface] = ii;
+      }
+    }
+  }
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From c4772e30546c6b96a4e008348e60aa7d60ce7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 20/85] fix: processes that own no cells can set up the finite
 volume mesh

---
 src/fv/share/tdymeshplex.c | 8 ++++++++
 src/tdyutils.c             | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 9a8428f..2f068d4 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -730,6 +730,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatIntegerValues(
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -781,6 +783,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatTDyVectorValues(DM dm,
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -835,6 +839,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatTDyCoordinateValues(
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
@@ -888,6 +894,8 @@ static PetscErrorCode ConvertMeshElementToCompressedFormatRealValues(DM dm,
 
   PetscInt count = 0, new_offset = 0;
 
+  if (num_element == 0) PetscFunctionReturn(0);
+
   count = (*subelement_num)[0];
   for (PetscInt ielem=1; ielem<num_element; ielem++) {
 
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..af8869b 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -147,7 +147,7 @@ PetscInt TDyGetNumberOfCellVerticesWithClosures(DM dm, PetscInt *closureSize, Pe
   ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
-  nq = -1;
+  nq = (cStart < cEnd) ? -1 : 8; // no cells: any supported type will do
   for(c=cStart; c<cEnd; c++) {
     q = 0;
     for (i=0; i<closureSize[c]*2; i+=2) {
-- 
2.43.0


From bf2d68dac1464c2bddd32de6cc999b415fbdc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 21/85] fix: regression output does not divide by zero when a
 process owns no cells

---
 src/tdyregression.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..0fceb10 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -64,7 +64,10 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
     ierr = TDyAlloc(ndof_per_cell*size*regression->num_cells_per_process*sizeof(PetscInt),&(regression->cells_per_process_natural_ids)); CHKERRQ(ierr);
   }
 
-  if (tdy->options.mode == TH) {
+  if (regression->num_cells_per_process == 0) {
+    increment = 0; // some process owns no cells
+  }
+  else if (tdy->options.mode == TH) {
     increment = floor(vecsize_local/regression->num_cells_per_process/2);
   }
   else {
-- 
2.43.0


From d243c443dafa5e0c911a682a456f523d36ce3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 22/85] fix: saturation and mass of multi-component modes no
 longer overrun the natural-order vector

---
 src/tdycore.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 75ffb11..db89777 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1812,6 +1812,34 @@ static PetscErrorCode ExtractDiagnosticField(TDy tdy, PetscInt index, Vec vec) {
   PetscFunctionReturn(0);
 }
 
+/// Converts a scalar cell-centered field in PETSc's global ordering to natural
+/// ordering, whatever the number of degrees of freedom of a cell.
+static PetscErrorCode DiagnosticGlobalToNatural(TDy tdy, Vec global, Vec natural) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  Vec dof_global, dof_natural;
+  PetscInt num_dof, num_cells;
+  ierr = TDyCreateGlobalVector(tdy, &dof_global); CHKERRQ(ierr);
+  ierr = VecGetSize(dof_global, &num_dof); CHKERRQ(ierr);
+  ierr = VecGetSize(global, &num_cells); CHKERRQ(ierr);
+  if (num_dof == num_cells) {
+    ierr = TDyGlobalToNatural(tdy, global, natural); CHKERRQ(ierr);
+  } else {
+    // The natural ordering is defined for vectors with all degrees of freedom.
+    ierr = TDyCreateGlobalVector(tdy, &dof_natural); CHKERRQ(ierr);
+    ierr = VecSetBlockSize(dof_global, num_dof/num_cells); CHKERRQ(ierr);
+    ierr = VecSetBlockSize(dof_natural, num_dof/num_cells); CHKERRQ(ierr);
+    ierr = VecStrideScatter(global, 0, dof_global, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, dof_global, dof_natural); CHKERRQ(ierr);
+    ierr = VecStrideGather(dof_natural, 0, natural, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = VecDestroy(&dof_natural); CHKERRQ(ierr);
+  }
+  ierr = VecDestroy(&dof_global); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Creates a matrix
 /// @param [in] tdy A TDy object
 /// @param [out] mat A matrix
@@ -1846,7 +1874,7 @@ PetscErrorCode TDyGetLiquidSaturation(TDy tdy, Vec sat_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_SATURATION, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = DiagnosticGlobalToNatural(tdy, tmp_vec, sat_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
@@ -1865,7 +1893,7 @@ PetscErrorCode TDyGetLiquidMass(TDy tdy, Vec mass_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_MASS, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = DiagnosticGlobalToNatural(tdy, tmp_vec, mass_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From efb95a55523f35ca8766b2f46f754654e6d90647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 23/85] fix: permeability tensors read from a file have zero
 off-diagonal entries

---
 src/tdyio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index def05e7..26f0ef5 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,7 +124,7 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(dim*dim) * n);
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-- 
2.43.0


From 2edc6138fd4c8ab4d2b10b1494f21bbf1f7cc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 24/85] fix: HDF5 output does not permute the saturation twice
 and frees its vectors

---
 src/tdyio.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 26f0ef5..841e236 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -438,14 +438,23 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     if (useNatural) {
       Vec p_natural;
       Vec s_natural;
-      ierr = TDyCreateGlobalVector(tdy,&p_natural);
+      PetscInt num_dof, num_cells;
+      ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
       ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
 
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
+      // The saturation is in natural order already. It is the first component
+      // of what is written; any other component is that of the solution.
+      ierr = VecGetSize(p, &num_dof); CHKERRQ(ierr);
+      ierr = VecGetSize(s, &num_cells); CHKERRQ(ierr);
+      ierr = TDyCreateGlobalVector(tdy, &s_natural); CHKERRQ(ierr);
+      ierr = VecCopy(p_natural, s_natural); CHKERRQ(ierr);
+      ierr = VecSetBlockSize(s_natural, num_dof/num_cells); CHKERRQ(ierr);
+      ierr = VecStrideScatter(s, 0, s_natural, INSERT_VALUES); CHKERRQ(ierr);
 
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
       ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
+      ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
+      ierr = VecDestroy(&s_natural); CHKERRQ(ierr);
     }
     else {
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
-- 
2.43.0


From 4a44c116a0f237cfebf68187f96b07ac58da86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 25/85] fix: out.xmf is written by one process and only along
 with out.h5

---
 src/tdyio.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 841e236..153b841 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -603,6 +603,12 @@ PetscErrorCode TDyIOWriteXMFHeader(PetscInt numCell,PetscInt dim,PetscInt numVer
   cellMap[18] = "Wedge";
   cellMap[24] = "Hexahedron";
 
+  // The file is written by the first process.
+  PetscMPIInt rank;
+  PetscErrorCode ierr;
+  ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+  if (rank != 0) PetscFunctionReturn(0);
+
   //  xmf_filename = "out.xmf";
   fid = fopen("out.xmf","w");
   fprintf(fid,"<?xml version=\"1.0\" ?>");
@@ -694,6 +700,12 @@ PetscErrorCode TDyIOWriteXMFAttribute(char* name,char* time,PetscInt numCell){
 PetscErrorCode TDyIOWriteXMFFooter(){
   FILE *fid;
 
+  // The file is written by the first process.
+  PetscMPIInt rank;
+  PetscErrorCode ierr;
+  ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+  if (rank != 0) PetscFunctionReturn(0);
+
   //  xmf_filename = "out.xmf";
   fid = fopen("out.xmf","a");
 
@@ -706,8 +718,11 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
-  TDyFree(*io);
-  io = PETSC_NULL;
+  PetscErrorCode ierr;
+  if ((*io)->format == HDF5Format) {
+    ierr = TDyIOWriteXMFFooter(); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(*io); CHKERRQ(ierr);
+  *io = PETSC_NULL;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 6cf3b9cec9b705bff8b87bf37a73626ce646ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 26/85] fix: out.xmf describes the whole mesh instead of that
 of one process

---
 src/tdyio.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 153b841..5a5b408 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -369,7 +369,10 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   char *zonalVarNames[num_vars];
 
-  PetscInt dim,istart,iend,numCell,numVert,numCorner;
+  PetscInt dim,cStart,cEnd,numCell,numVert,numCorner,numLocalCorner;
+  IS cellNumbering;
+  const PetscInt *cellNumbers;
+  Vec coordinates;
 
   for (n=0;n<num_vars;++n){
     zonalVarNames[n] =  tdy->io->zonalVarNames[n];
@@ -383,11 +386,23 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   else if (tdy->io->format == HDF5Format) {
     strcpy(tdy->io->filename, "out.h5");
     char *ofilename = tdy->io->filename;
-    numCorner = TDyGetNumberOfCellVertices(dm);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
-    ierr = DMPlexGetHeightStratum(dm,3,&istart,&iend);CHKERRQ(ierr);
-    numVert = iend-istart;
-    ierr = VecGetSize(tdy->soln_prev, &numCell);CHKERRQ(ierr);
+
+    // These are the numbers of the whole mesh, not of this process.
+    numLocalCorner = TDyGetNumberOfCellVertices(dm);
+    ierr = MPI_Allreduce(&numLocalCorner,&numCorner,1,MPIU_INT,MPI_MAX,PETSC_COMM_WORLD);CHKERRQ(ierr);
+    ierr = DMGetCoordinates(dm,&coordinates);CHKERRQ(ierr);
+    ierr = VecGetSize(coordinates,&numVert);CHKERRQ(ierr);
+    numVert = numVert/dim;
+    PetscInt numLocalCell = 0;
+    ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);CHKERRQ(ierr);
+    ierr = DMPlexGetCellNumbering(dm,&cellNumbering);CHKERRQ(ierr);
+    ierr = ISGetIndices(cellNumbering,&cellNumbers);CHKERRQ(ierr);
+    for (PetscInt c=0;c<cEnd-cStart;++c) {
+      if (cellNumbers[c] >= 0) numLocalCell++;
+    }
+    ierr = ISRestoreIndices(cellNumbering,&cellNumbers);CHKERRQ(ierr);
+    ierr = MPI_Allreduce(&numLocalCell,&numCell,1,MPIU_INT,MPI_SUM,PETSC_COMM_WORLD);CHKERRQ(ierr);
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
     ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
@@ -508,7 +523,10 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   if (rank == 0){
+    PetscInt blockSize;
     ierr = VecGetSize(U, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(U, &blockSize);CHKERRQ(ierr);
+    numCell = numCell/blockSize;
     ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell);CHKERRQ(ierr);
   }
 
-- 
2.43.0


From 6f1cc0d08a6e5bcc71381c7942928cec78dfd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 27/85] fix: reading fields and writing checkpoints free their
 vectors and viewers

---
 src/tdyio.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 5a5b408..0cd1f61 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -284,7 +284,8 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
-  ierr = VecDestroy(&u);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -327,6 +328,8 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -354,6 +357,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From b32b9b06fa65e85fba196d2c91d8836d073f8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 28/85] fix: errors of reading and writing files are reported

---
 src/tdydriver.c |  2 +-
 src/tdyio.c     | 34 ++++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..ed3bc96 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -214,7 +214,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
diff --git a/src/tdyio.c b/src/tdyio.c
index 0cd1f61..d2d0147 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -181,7 +181,7 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
 
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetDimension(dm, &dim);
+  ierr = DMGetDimension(dm, &dim); CHKERRQ(ierr);
   PetscInt cStart,cEnd;
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);CHKERRQ(ierr);
 
@@ -247,10 +247,10 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   }
 
   PetscReal *Porosity;
-  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);
+  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity); CHKERRQ(ierr);
 
   ierr = MaterialPropSetPorosity(tdy->matprop, Porosity, AssignScalars,
-                                 ScalarsDestroy);
+                                 ScalarsDestroy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -275,9 +275,9 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
@@ -308,13 +308,13 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscReal *ptr;
   int i,n;
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateLocalVector(tdy, &u_local);
+  ierr = TDyCreateLocalVector(tdy, &u_local); CHKERRQ(ierr);
   ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
@@ -351,7 +351,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   sprintf(filename,"%11.5e_%s.h5",time,"chk");
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateGlobalVector(tdy,&p_natural);
+  ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
   ierr = TDyGlobalToNatural(tdy,p,p_natural);CHKERRQ(ierr);
   ierr = PetscObjectSetName((PetscObject) p_natural,"IC");CHKERRQ(ierr);
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
@@ -485,7 +485,7 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   }
 
   // Clean up.
-  VecDestroy(&s);
+  ierr = VecDestroy(&s); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -519,7 +519,7 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
   ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
-  ierr = DMGetLocalSection(dm, &sec);
+  ierr = DMGetLocalSection(dm, &sec); CHKERRQ(ierr);
   //Change to field name
   ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
   ierr = VecView(U,viewer);CHKERRQ(ierr);
@@ -633,6 +633,7 @@ PetscErrorCode TDyIOWriteXMFHeader(PetscInt numCell,PetscInt dim,PetscInt numVer
 
   //  xmf_filename = "out.xmf";
   fid = fopen("out.xmf","w");
+  if (!fid) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_OPEN,"Unable to open out.xmf");
   fprintf(fid,"<?xml version=\"1.0\" ?>");
   fprintf(fid,"\n<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" [");
   fprintf(fid,"\n<!ENTITY HeavyData \"out.h5\">");
@@ -677,7 +678,8 @@ PetscErrorCode TDyIOWriteXMFHeader(PetscInt numCell,PetscInt dim,PetscInt numVer
   fprintf(fid,"\n          </DataItem>");
   fprintf(fid,"\n        </Geometry>");
 
-  fclose(fid);
+  PetscBool failed = (ferror(fid) != 0);
+  if (fclose(fid) != 0 || failed) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_WRITE,"Unable to write out.xmf");
 
   PetscFunctionReturn(0);
 }
@@ -688,6 +690,7 @@ PetscErrorCode TDyIOWriteXMFAttribute(char* name,char* time,PetscInt numCell){
 
   //  xmf_filename = "out.xmf";
   fid = fopen("out.xmf","a");
+  if (!fid) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_OPEN,"Unable to open out.xmf");
 
   fprintf(fid,"\n        <Attribute");
   fprintf(fid,"\n           Name=\"%s_%s\"",time,name);
@@ -714,7 +717,8 @@ PetscErrorCode TDyIOWriteXMFAttribute(char* name,char* time,PetscInt numCell){
   fprintf(fid,"\n          </DataItem>");
   fprintf(fid,"\n        </Attribute>");
 
-  fclose(fid);
+  PetscBool failed = (ferror(fid) != 0);
+  if (fclose(fid) != 0 || failed) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_WRITE,"Unable to write out.xmf");
 
   PetscFunctionReturn(0);
 }
@@ -730,11 +734,13 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
   //  xmf_filename = "out.xmf";
   fid = fopen("out.xmf","a");
+  if (!fid) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_OPEN,"Unable to open out.xmf");
 
   fprintf(fid,"\n      </Grid>");
   fprintf(fid,"\n  </Domain>");
   fprintf(fid,"\n</Xdmf>\n");
-  fclose(fid);
+  PetscBool failed = (ferror(fid) != 0);
+  if (fclose(fid) != 0 || failed) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_WRITE,"Unable to write out.xmf");
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 566c37dbd675e2374abaffbc246ceefb524dff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 29/85] fix: errors of library and PETSc calls are propagated
 everywhere

---
 src/fe/tdybdm.c                         |   2 +-
 src/fv/fvtpf/tdyfvtpf.c                 |  18 +--
 src/fv/fvtpf/tdyfvtpf_snes.c            |  24 ++--
 src/fv/mpfao/tdympfao.c                 | 146 ++++++++++++------------
 src/fv/mpfao/tdympfao_snes.c            |   8 +-
 src/fv/mpfao/tdympfao_snes_salinity.c   |   8 +-
 src/fv/mpfao/tdympfao_steady.c          |   4 +-
 src/fv/mpfao/tdympfao_th_ts.c           |  24 ++--
 src/fv/mpfao/tdympfao_ts.c              |  10 +-
 src/fv/mpfao/tdympfao_ts_dae.c          |  10 +-
 src/fv/mpfao/tdympfao_ts_transientvar.c |   2 +-
 src/fv/mpfao/tdympfao_utils.c           |  10 +-
 src/fv/share/tdymesh.c                  |   2 +-
 src/fv/share/tdymeshcustom.c            |  26 ++---
 src/fv/share/tdymeshplex.c              |  54 ++++-----
 src/fv/share/tdyugdm.c                  |  22 ++--
 src/fv/share/tdyugrid.c                 |  44 +++----
 src/tdycore.c                           |  22 ++--
 src/tdydiscretization.c                 |   4 +-
 src/tdyio.c                             |   4 +-
 src/tdyregression.c                     |   2 +-
 src/tdyrichards.c                       |   6 +-
 src/tdysalinity.c                       |   6 +-
 src/tdyth.c                             |   6 +-
 src/tdyti.c                             |   2 +-
 25 files changed, 233 insertions(+), 233 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..4d89b5f 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -518,7 +518,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     for(f=0;f<coneSize;f++){
       ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
-        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal);
+        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal); CHKERRQ(ierr);
       }
     } /* end faces */
 
diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index e546115..89c564a 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -419,7 +419,7 @@ PetscErrorCode TDyUpdateState_Richards_FVTPF(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, fvtpf->Sr, Pc, fvtpf->S, fvtpf->dS_dP,
-                           fvtpf->d2S_dP2);
+                           fvtpf->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -428,7 +428,7 @@ PetscErrorCode TDyUpdateState_Richards_FVTPF(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, fvtpf->Kr, fvtpf->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, fvtpf->Kr, fvtpf->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -462,7 +462,7 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
   PetscErrorCode ierr;
   TDyFVTPF *fvtpf = context;
   DM dm;
-  ierr = PetscPrintf(PETSC_COMM_WORLD," Setting up RICHARDS FV-TPF method\n");
+  ierr = PetscPrintf(PETSC_COMM_WORLD," Setting up RICHARDS FV-TPF method\n"); CHKERRQ(ierr);
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
   TDyDM *tdydm_ptr;
@@ -473,14 +473,14 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
 
   switch (tdydm_ptr->dmtype) {
     case PLEX_TYPE:
-    ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMPlex\n");
-    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh);
-    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv);
+    ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMPlex\n"); CHKERRQ(ierr);
+    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv); CHKERRQ(ierr);
     break;
 
     case TDYCORE_DM_TYPE:
-    ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n"); CHKERRQ(ierr);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
     break;
 
     default:
@@ -491,7 +491,7 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
   ierr = TDyAllocate_RealArray_1D(&(fvtpf->vel), fvtpf->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(fvtpf->vel_count), fvtpf->mesh->num_faces); CHKERRQ(ierr);
 
-  ierr = PetscPrintf(PETSC_COMM_WORLD," Initializing material properties\n");
+  ierr = PetscPrintf(PETSC_COMM_WORLD," Initializing material properties\n"); CHKERRQ(ierr);
   ierr = InitMaterials(fvtpf, matprop, cc); CHKERRQ(ierr);
 
   ierr = AllocateMemoryForBoundaryValues(fvtpf, eos); CHKERRQ(ierr);
diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index c770154..a767db8 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -130,7 +130,7 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -185,7 +185,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -246,7 +246,7 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -304,7 +304,7 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -388,7 +388,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -468,7 +468,7 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -577,7 +577,7 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscInt cell_id_dn = cell_ids[1];
 
     PetscReal Res = 0.0;
-    ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+    ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
       r_ptr[cell_id_up] += Res;
@@ -602,10 +602,10 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscReal Res = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
-      ierr = RichardsBCResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+      ierr = RichardsBCResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
       break;
     case SEEPAGE_BC:
-      ierr = RichardsSeepageBCResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+      ierr = RichardsSeepageBCResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unsupported bc type in the computation of the residual");
@@ -673,7 +673,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscInt cell_id_dn = cell_ids[1];
 
     PetscReal Jup = 0.0, Jdn = 0.0;
-    ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn);
+    ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn); CHKERRQ(ierr);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
       //r_ptr[cell_id_up] += Res;
@@ -704,10 +704,10 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscReal Jdn = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
-      ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
+      ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn); CHKERRQ(ierr);
       break;
     case SEEPAGE_BC:
-      ierr = RichardsSeepageBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
+      ierr = RichardsSeepageBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unsupported bc type in the computation of the jacobian");
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index bd40e59..238f4ca 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,7 +564,7 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr);
 
   TDyFree(mpfao);
 
@@ -1029,11 +1029,11 @@ static PetscErrorCode ComputeCandFmatrix(TDyMPFAO *mpfao, PetscInt ivertex,
     ierr = TDyMeshGetSubcellFaceFluxIdxs(mesh, subcell_id, &face_flux_idx, &subcell_num_faces); CHKERRQ(ierr);
 
     if (varID == VAR_PRESSURE) {
-      ierr = ExtractSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     } else if (varID == VAR_TEMPERATURE){
-      ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     } else if (varID == VAR_SALINE_CONCENTRATION){
-      ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     }
 
     PetscInt idx_interface_p0, idx_interface_p1, idx_interface_p2;
@@ -1162,7 +1162,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
   PetscInt nflux_all_bc_up, nflux_all_bc_dn;
   PetscInt nflux_dir_bc_up, nflux_dir_bc_dn;
   PetscInt nflux_neu_bc_up, nflux_neu_bc_dn;
-  ierr = DetermineNumberOfUpAndDownBoundaryFaces(mpfao, ivertex, &nflux_all_bc_up, &nflux_all_bc_dn);
+  ierr = DetermineNumberOfUpAndDownBoundaryFaces(mpfao, ivertex, &nflux_all_bc_up, &nflux_all_bc_dn); CHKERRQ(ierr);
 
   PetscInt npitf_dir_bc_all, npitf_neu_bc_all;
 
@@ -1202,32 +1202,32 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
   PetscInt npitf_in = nflux_in;
   PetscInt npitf = npitf_in + npitf_bc_all;
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, ndim, ndim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, ndim, ndim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Fup_all, nflux_in_plus_bcs_up, npcen);
-  ierr = TDyAllocate_RealArray_2D(&Cup_all, nflux_in_plus_bcs_up, npitf);
-  ierr = TDyAllocate_RealArray_2D(&Fdn_all, nflux_in_plus_bcs_dn, npcen);
-  ierr = TDyAllocate_RealArray_2D(&Cdn_all, nflux_in_plus_bcs_dn, npitf);
+  ierr = TDyAllocate_RealArray_2D(&Fup_all, nflux_in_plus_bcs_up, npcen); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Cup_all, nflux_in_plus_bcs_up, npitf); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Fdn_all, nflux_in_plus_bcs_dn, npcen); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Cdn_all, nflux_in_plus_bcs_dn, npitf); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&AINBCxINBC_1d  , (nflux_in+nflux_neu_bc_all)*(npitf_in + nflux_neu_bc_all));
-  ierr = TDyAllocate_RealArray_1D(&BINBCxCDBC_1d  , (nflux_in+nflux_neu_bc_all)*(npcen    + npitf_dir_bc_all));
-  ierr = TDyAllocate_RealArray_1D(&CupINBCxINBC_1d, (nflux_in+nflux_neu_bc_all)*(npitf_in + npitf_neu_bc_all));
+  ierr = TDyAllocate_RealArray_1D(&AINBCxINBC_1d  , (nflux_in+nflux_neu_bc_all)*(npitf_in + nflux_neu_bc_all)); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&BINBCxCDBC_1d  , (nflux_in+nflux_neu_bc_all)*(npcen    + npitf_dir_bc_all)); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupINBCxINBC_1d, (nflux_in+nflux_neu_bc_all)*(npitf_in + npitf_neu_bc_all)); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&CupDBCxIn_1d, nflux_dir_bc_up*npitf_in);
-  ierr = TDyAllocate_RealArray_1D(&CdnDBCxIn_1d, nflux_dir_bc_dn*npitf_in);
+  ierr = TDyAllocate_RealArray_1D(&CupDBCxIn_1d, nflux_dir_bc_up*npitf_in); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CdnDBCxIn_1d, nflux_dir_bc_dn*npitf_in); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&AinvB_1d             , (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CupInxIntimesAinvB_1d, (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CupBCxIntimesAinvB_1d, nflux_dir_bc_up              *(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CdnBCxIntimesAinvB_1d, nflux_dir_bc_dn              *(npcen + npitf_dir_bc_all) );
+  ierr = TDyAllocate_RealArray_1D(&AinvB_1d             , (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupInxIntimesAinvB_1d, (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupBCxIntimesAinvB_1d, nflux_dir_bc_up              *(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CdnBCxIntimesAinvB_1d, nflux_dir_bc_dn              *(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
 
   ierr = ComputeCandFmatrix(mpfao, ivertex, varID, Cup_all, Cdn_all, Fup_all, Fdn_all); CHKERRQ(ierr);
 
   PetscReal **Fup_in, **Fup_dir_bc, **Fup_neu_bc;
   PetscReal **Fdn_in, **Fdn_dir_bc, **Fdn_neu_bc;
 
-  ierr = ExtractsubFMatrices(Fup_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_up, nflux_neu_bc_up, &Fup_in, &Fup_dir_bc, &Fup_neu_bc);
-  ierr = ExtractsubFMatrices(Fdn_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, &Fdn_in, &Fdn_dir_bc, &Fdn_neu_bc);
+  ierr = ExtractsubFMatrices(Fup_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_up, nflux_neu_bc_up, &Fup_in, &Fup_dir_bc, &Fup_neu_bc); CHKERRQ(ierr);
+  ierr = ExtractsubFMatrices(Fdn_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, &Fdn_in, &Fdn_dir_bc, &Fdn_neu_bc); CHKERRQ(ierr);
 
   PetscReal **Cup_11, **Cup_12, **Cup_13, **Cup_21, **Cup_22, **Cup_23, **Cup_31, **Cup_32, **Cup_33;
   PetscReal **Cdn_11, **Cdn_12, **Cdn_13, **Cdn_21, **Cdn_22, **Cdn_23, **Cdn_31, **Cdn_32, **Cdn_33;
@@ -1237,14 +1237,14 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
     npitf_in, npitf_dir_bc_all, nflux_neu_bc_all, // cols
     &Cup_11, &Cup_12, &Cup_13,
     &Cup_21, &Cup_22, &Cup_23,
-    &Cup_31, &Cup_32, &Cup_33);
+    &Cup_31, &Cup_32, &Cup_33); CHKERRQ(ierr);
 
   ierr = ExtractsubCMatrices(nflux_in_plus_bcs_up, npitf, Cdn_all,
     nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, // rows
     npitf_in, npitf_dir_bc_all, nflux_neu_bc_all, // cols
     &Cdn_11, &Cdn_12, &Cdn_13,
     &Cdn_21, &Cdn_22, &Cdn_23,
-    &Cdn_31, &Cdn_32, &Cdn_33);
+    &Cdn_31, &Cdn_32, &Cdn_33); CHKERRQ(ierr);
 
   idx = 0;
   for (j=0; j<npcen; j++) {
@@ -1540,7 +1540,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // Vertex is on the boundary
 
@@ -1556,13 +1556,13 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
   if (varID == VAR_PRESSURE) {
     Trans = &mpfao->Trans;
     Trans_mat = &mpfao->Trans_mat;
-    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
   } else if (varID == VAR_TEMPERATURE) {
-    ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
     Trans = &mpfao->Temp_Trans;
     Trans_mat = &mpfao->Temp_Trans_mat;
   } else if (varID == VAR_SALINE_CONCENTRATION) {
-    ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
     Trans = &mpfao->Psi_Trans;
     Trans_mat = &mpfao->Psi_Trans_mat;
   }
@@ -2122,7 +2122,7 @@ PetscErrorCode ComputeFacePermeabilityValueMPFAO(TDyMPFAO *mpfao, MaterialProp *
   ierr = ComputeUpDownUnitVector(mpfao, face_id, u_up2dn); CHKERRQ(ierr);
 
   PetscReal Kface[dim*dim];
-  ierr = ComputeFacePermeabilityTensor(mpfao, matprop, face_id, Kface);
+  ierr = ComputeFacePermeabilityTensor(mpfao, matprop, face_id, Kface); CHKERRQ(ierr);
 
   // Ku = Kface x u_up2dn
   PetscReal Ku[dim];
@@ -2236,7 +2236,7 @@ static PetscErrorCode ComputeGravityDiscretization(TDyMPFAO *mpfao, DM dm,
       PetscReal k_face_value;
       switch (mpfao->gmatrix_method) {
         case MPFAO_GMATRIX_DEFAULT:
-          ierr = ComputeFacePermeabilityValueMPFAO(mpfao, matprop, dim, face_id, &k_face_value);
+          ierr = ComputeFacePermeabilityValueMPFAO(mpfao, matprop, dim, face_id, &k_face_value); CHKERRQ(ierr);
           break;
 
       case MPFAO_GMATRIX_TPF:
@@ -2287,8 +2287,8 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2310,11 +2310,11 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
                                   nsubcells, 3, 3); CHKERRQ(ierr);
@@ -2343,8 +2343,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2366,11 +2366,11 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
                                   nsubcells, 3, 3); CHKERRQ(ierr);
@@ -2396,8 +2396,8 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2419,18 +2419,18 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Temp_Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Temp_Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->Temp_TtimesP_vec);
+  ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->Temp_TtimesP_vec); CHKERRQ(ierr);
 
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
@@ -2465,8 +2465,8 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2488,18 +2488,18 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Psi_Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Psi_Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesPsi_vec);
+  ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesPsi_vec); CHKERRQ(ierr);
 
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
@@ -2547,7 +2547,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2556,7 +2556,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2585,7 +2585,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; ++c) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2616,7 +2616,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2625,7 +2625,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2662,7 +2662,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; c++) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2700,7 +2700,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2709,7 +2709,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2741,7 +2741,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; c++) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2797,7 +2797,7 @@ PetscErrorCode TDyMPFAOComputeSystem(TDy tdy,Mat K,Vec F) {
   TDY_START_FUNCTION_TIMER()
 
 
-  ierr = MatZeroEntries(K);
+  ierr = MatZeroEntries(K); CHKERRQ(ierr);
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index 570b5c9..9f713c2 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -83,7 +83,7 @@ PetscErrorCode TDyMPFAOSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
   char word[32];
   sprintf(word,"U%d.vec",icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);
+  ierr = VecView(U,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -99,7 +99,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   PetscReal *accum_prev;
 
@@ -131,7 +131,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 #if defined(DEBUG)
   sprintf(word,"Function%d.vec",icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = VecView(R,viewer);
+  ierr = VecView(R,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   icount_f++;
 #endif
@@ -193,7 +193,7 @@ PetscErrorCode TDyMPFAOSNESJacobian(SNES snes,Vec U,Mat A,Mat B,void *ctx) {
   char word[32];
   sprintf(word,"Jacobian%d.mat",icount_j);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = MatView(A,viewer);
+  ierr = MatView(A,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   icount_j++;
   if (icount_j == max_count) exit(0);
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 7189718..e012b09 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -239,7 +239,7 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
   char word[32];
   sprintf(word,"U%d.vec",icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"U2.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);
+  ierr = VecView(U,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   #endif
 
@@ -256,8 +256,8 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
   ierr = TDyMPFAO_SetBoundarySalineConcentration(tdy,Ul); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
-  ierr = MatMult(mpfao->Psi_Trans_mat,mpfao->Psi_vec,mpfao->TtimesPsi_vec);
+  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = MatMult(mpfao->Psi_Trans_mat,mpfao->Psi_vec,mpfao->TtimesPsi_vec); CHKERRQ(ierr);
 
   // Fluxes
   ierr = TDyMPFAOIFunction_Vertices_Salinity(Ul,R,ctx); CHKERRQ(ierr);
@@ -297,7 +297,7 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
 #if defined(DEBUG)
   sprintf(word,"Function%d.vec", icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = VecView(R,viewer);
+  ierr = VecView(R,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   icount_f++;
 #endif
diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 26950de..dc0ef40 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -33,7 +33,7 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
 
@@ -116,7 +116,7 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
     /*
 
diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index d3dfd41..68853d9 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -169,7 +169,7 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
 #if defined(DEBUG)
   sprintf(word,"Ul%d.vec",icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = VecView(Ul,viewer);
+  ierr = VecView(Ul,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -186,21 +186,21 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
   ierr = TDyMPFAO_SetBoundaryTemperature(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
-  ierr = MatMult(mpfao->Temp_Trans_mat,mpfao->Temp_P_vec,mpfao->Temp_TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = MatMult(mpfao->Temp_Trans_mat,mpfao->Temp_P_vec,mpfao->Temp_TtimesP_vec); CHKERRQ(ierr);
 
 #if 0
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"Temp_Trans_mat.mat",&viewer); CHKERRQ(ierr);
-  ierr = MatView(mpfao->Temp_Trans_mat,viewer);
+  ierr = MatView(mpfao->Temp_Trans_mat,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"Temp_TtimesP_vec.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(mpfao->Temp_TtimesP_vec,viewer);
+  ierr = VecView(mpfao->Temp_TtimesP_vec,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"Temp_P_vec.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(mpfao->Temp_P_vec,viewer);
+  ierr = VecView(mpfao->Temp_P_vec,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -289,7 +289,7 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
 #if defined(DEBUG)
   sprintf(word,"Function%d.vec",icount_f);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = VecView(R,viewer);
+  ierr = VecView(R,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   icount_f++;
 #endif
@@ -566,7 +566,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
 #if 0
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"jac_flux.mat",&viewer); CHKERRQ(ierr);
-  ierr = MatView(A,viewer);
+  ierr = MatView(A,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -835,7 +835,7 @@ PetscErrorCode TDyMPFAOIJacobian_Accumulation_TH(Vec Ul,Vec Udotl,PetscReal shif
 #if 0
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"jac_accum.mat",&viewer); CHKERRQ(ierr);
-  ierr = MatView(A,viewer);
+  ierr = MatView(A,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -862,8 +862,8 @@ PetscErrorCode TDyMPFAOIJacobian_TH(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal sh
   ierr = TDyGlobalToLocal(tdy,U,tdy->soln_loc); CHKERRQ(ierr);
   ierr = DMGlobalToLocal(dm,U_t,INSERT_VALUES,Udotl); CHKERRQ(ierr);
 
-  ierr = TDyMPFAOIJacobian_Vertices_TH(tdy->soln_loc,B,ctx);
-  ierr = TDyMPFAOIJacobian_Accumulation_TH(tdy->soln_loc,Udotl,shift,B,ctx);
+  ierr = TDyMPFAOIJacobian_Vertices_TH(tdy->soln_loc,B,ctx); CHKERRQ(ierr);
+  ierr = TDyMPFAOIJacobian_Accumulation_TH(tdy->soln_loc,Udotl,shift,B,ctx); CHKERRQ(ierr);
 
   if (A !=B ) {
     ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
@@ -877,7 +877,7 @@ PetscErrorCode TDyMPFAOIJacobian_TH(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal sh
   char word[32];
   sprintf(word,"Jacobian%d.mat",icount_j);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer); CHKERRQ(ierr);
-  ierr = MatView(A,viewer);
+  ierr = MatView(A,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   icount_j++;
   if (icount_j == max_count) exit(0);
diff --git a/src/fv/mpfao/tdympfao_ts.c b/src/fv/mpfao/tdympfao_ts.c
index ea3962b..f2bc468 100644
--- a/src/fv/mpfao/tdympfao_ts.c
+++ b/src/fv/mpfao/tdympfao_ts.c
@@ -166,7 +166,7 @@ PetscErrorCode TDyMPFAOIFunction(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"IU.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);
+  ierr = VecView(U,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -182,7 +182,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
 
@@ -218,7 +218,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
 #if defined(DEBUG)
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"IFunction.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(R,viewer);
+  ierr = VecView(R,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -540,7 +540,7 @@ PetscErrorCode TDyMPFAOIJacobian(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal shift
   ierr = TDyMPFAOIJacobian_Vertices(tdy->soln_loc, B, ctx); CHKERRQ(ierr);
 
   //ierr = TDyMPFAOIJacobian_BoundaryVertices_NotSharedWithInternalVertices(Ul, A, ctx);
-  ierr = TDyMPFAOIJacobian_Accumulation(tdy->soln_loc, Udotl, shift, B, ctx);
+  ierr = TDyMPFAOIJacobian_Accumulation(tdy->soln_loc, Udotl, shift, B, ctx); CHKERRQ(ierr);
 
   if (A !=B ) {
     ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
@@ -552,7 +552,7 @@ PetscErrorCode TDyMPFAOIJacobian(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal shift
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"IJacobian.mat",&viewer); CHKERRQ(ierr);
-  ierr = MatView(A,viewer);
+  ierr = MatView(A,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index b22aaf3..47ae2f0 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -33,10 +33,10 @@ PetscErrorCode TDyMPFAOIFunction_DAE(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void
   ierr = VecZeroEntries(R); CHKERRQ(ierr);
 
   // Get sub-vectors
-  ierr = ExtractSubVectors(tdy->soln_loc,0,&P);
-  ierr = ExtractSubVectors(tdy->soln_loc,1,&M);
-  ierr = ExtractSubVectors(R,0,&R_P);
-  ierr = ExtractSubVectors(R,1,&R_M);
+  ierr = ExtractSubVectors(tdy->soln_loc,0,&P); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(tdy->soln_loc,1,&M); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(R,0,&R_P); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(R,1,&R_M); CHKERRQ(ierr);
 
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(P,&p); CHKERRQ(ierr);
@@ -45,7 +45,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,P); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(P,R_P,ctx); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index 20fc358..4048d70 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -77,7 +77,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateSourceSink(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 12c0707..16be1d3 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -160,7 +160,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -188,7 +188,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
       PetscInt icell, cell_id;
       for (icell=0; icell<vertices->num_internal_cells[ivertex]; icell++) {
         cell_id = vertices->internal_cell_ids[vOffsetCell + icell];
-        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz);
+        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz); CHKERRQ(ierr);
         Pcomputed[icell] = u[cell_id] + mpfao->rho[cell_id]*gz;
       }
 
@@ -279,7 +279,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -594,7 +594,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -622,7 +622,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
     PetscScalar pBoundary[subcells->num_faces[subcell_id]];
 
-    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
 
     PetscInt *face_ids, num_faces;
     PetscReal *face_areas;
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index afdbb64..87c275d 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -899,7 +899,7 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
-  ierr = TDyFree(mesh->closureSize);
+  ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
             mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
   CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..b8de36b 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -22,10 +22,10 @@ static PetscErrorCode TDyMeshMapIndices(TDyDiscretizationType *discretization, T
   TDyMesh *mesh_ptr = *mesh;
 
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization,&ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization,&ugrid); CHKERRQ(ierr);
 
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   PetscInt ngmax = ugrid->num_cells_global;
   PetscInt nlmax = ugrid->num_cells_local;
@@ -149,7 +149,7 @@ static PetscErrorCode TDySetupCellsFromDiscretization(TDyDiscretizationType *dis
 
   // compute number of vertices per grid cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt nverts_per_cell = ugrid->max_verts_per_cell;
   PetscInt num_cells = ugrid->num_cells_global;
@@ -748,7 +748,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(tmp_int_2d, 2);
+  ierr = TDyDeallocate_IntegerArray_2D(tmp_int_2d, 2); CHKERRQ(ierr);
 
   // Since duplicate faces have been removed, update the cell-to-face mapping
   for (PetscInt iface=0; iface<face_count; iface++) {
@@ -1018,8 +1018,8 @@ static PetscErrorCode ComputeTriAreasAndIntercpet(TDyUGrid *ugrid, PetscInt v_id
     v1[idim] = point3[idim] - point2[idim];
     v2[idim] = point1[idim] - point2[idim];
   }
-  ierr = TDyCrossProduct(v1,v2,cross_prod);
-  ierr = TDyDotProduct(cross_prod,cross_prod,&dot_prod);
+  ierr = TDyCrossProduct(v1,v2,cross_prod); CHKERRQ(ierr);
+  ierr = TDyDotProduct(cross_prod,cross_prod,&dot_prod); CHKERRQ(ierr);
 
   PetscReal magnitude = PetscPowReal(dot_prod,0.5);
 
@@ -1093,12 +1093,12 @@ static PetscErrorCode ComputeGeoAttrOfInternalFaces(TDyUGrid *ugrid, TDyMesh **m
     PetscInt vertex_id3 = ugrid->face_to_vertex[2][ugrid_face_id];
     PetscInt vertex_id4 = -1;
 
-    ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id2, vertex_id3, point_up, point_dn, n_up_dn, &area1, &area_projected1, intercept1);
+    ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id2, vertex_id3, point_up, point_dn, n_up_dn, &area1, &area_projected1, intercept1); CHKERRQ(ierr);
 
     if (faces->num_vertices[face_id] == 4) {
       vertex_id4 = ugrid->face_to_vertex[3][ugrid_face_id];
 
-      ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id4, vertex_id3, point_up, point_dn, n_up_dn, &area2, &area_projected2, intercept2);
+      ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id4, vertex_id3, point_up, point_dn, n_up_dn, &area2, &area_projected2, intercept2); CHKERRQ(ierr);
       for (PetscInt idim=0; idim<dim; idim++) {
         intercept[idim] = (intercept1[idim] + intercept2[idim])/2.0;
       }
@@ -1237,7 +1237,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // cell_to_face
   // vertex_to_cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt num_vertices_local = ugrid->num_verts_local;
   PetscInt ngmax = ugrid->num_cells_global;
@@ -1256,14 +1256,14 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = TDyAllocate_IntegerArray_2D(&ugrid->face_to_vertex_natural,max_vert_per_face, max_face_per_cell*ngmax); CHKERRQ(ierr);
 
   // Set up few mappings
-  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex);
+  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex); CHKERRQ(ierr);
 
   // Remove duplicate faces that are shared between two cells
   ierr = RemoveDuplicateFaces(ugrid, face_to_vertex, face_to_cell, cell_to_face); CHKERRQ(ierr);
 
   // Update the maps after removing duplicate faces
-  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex);
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face);
+  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face); CHKERRQ(ierr);
 
   // Set up vertex-to-cell mapping
   PetscInt **vertex_to_cell;
@@ -1273,7 +1273,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = SetupMap_V2C(ugrid, num_vertex_to_cell, vertex_to_cell); CHKERRQ(ierr);
 
   // Create internal faces
-  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh);
+  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh); CHKERRQ(ierr);
 
   // Compute geometric attributes of internal faces e.g. distances, areas, unit normal, etc
   ierr = ComputeGeoAttrOfInternalFaces(ugrid, mesh); CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 2f068d4..6d28517 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -618,9 +618,9 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
 
     // Create the natural vector
     Vec natural;
-    ierr = DMCreateGlobalVector(dm, &natural);
+    ierr = DMCreateGlobalVector(dm, &natural); CHKERRQ(ierr);
     PetscInt natural_size, cum_natural_size;
-    ierr = VecGetLocalSize(natural, &natural_size);
+    ierr = VecGetLocalSize(natural, &natural_size); CHKERRQ(ierr);
     ierr = MPI_Scan(&natural_size, &cum_natural_size, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);CHKERRQ(ierr);
 
     // Add entries in the natural vector
@@ -650,7 +650,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
 
     // Save natural IDs
     PetscInt local_size;
-    ierr = VecGetLocalSize(local, &local_size);
+    ierr = VecGetLocalSize(local, &local_size); CHKERRQ(ierr);
     ierr = VecGetArray(local, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < local_size/num_fields; ++i) {
       cells->natural_id[i] = entries[i*num_fields];
@@ -688,7 +688,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
       ierr = DMGlobalToLocalEnd(dm, global, INSERT_VALUES, local); CHKERRQ(ierr);
 
       // Save the region ids
-      ierr = VecGetLocalSize(local, &local_size);
+      ierr = VecGetLocalSize(local, &local_size); CHKERRQ(ierr);
       ierr = VecGetArray(local, &entries); CHKERRQ(ierr);
 
       PetscInt ncells = local_size/num_fields;
@@ -698,7 +698,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
         cell_ids[i] = entries[i*num_fields];
       }
 
-      ierr = TDyRegionAddCells(ncells, cell_ids, &mesh->region_connected);
+      ierr = TDyRegionAddCells(ncells, cell_ids, &mesh->region_connected); CHKERRQ(ierr);
 
       ierr = VecRestoreArray(local, &entries); CHKERRQ(ierr);
 
@@ -1404,7 +1404,7 @@ PetscErrorCode UpdateFaceOrientationAroundAVertex(TDyCoordinate *cell_centroid,
 
   PetscErrorCode ierr;
   ierr = TDyCrossProduct(a,b,axb); CHKERRQ(ierr);
-  ierr = TDyDotProduct(axb,c,&dot_prod);
+  ierr = TDyDotProduct(axb,c,&dot_prod); CHKERRQ(ierr);
 
   // If the dot prod is positive (f_idx[0], f_idx[1], f_idx[2]) form a plane such
   // that the normal to the plane is pointing towards the centroid of the control
@@ -1457,10 +1457,10 @@ PetscErrorCode UpdateIthTraversalOrder(TDyVertex *vertices, PetscInt ivertex, TD
 
   // Get pointers to the four cells
   PetscErrorCode ierr;
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][0], v1);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][1], v2);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][2], v3);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][3], v4);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][0], v1); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][1], v2); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][2], v3); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][3], v4); CHKERRQ(ierr);
 
   // Save (x,y,z) of the four cells, and
   // a vector joining centroid of four cells and the vertex (c2v_vec)
@@ -2889,11 +2889,11 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
 
       // For a given cell, find all face ids that are share a vertex
       PetscInt f_idx[3];
-      ierr = FindFaceIDsOfACellCommonToAVertex(cells->id[icell], faces, vertices, ivertex, f_idx, &num_shared_faces);
+      ierr = FindFaceIDsOfACellCommonToAVertex(cells->id[icell], faces, vertices, ivertex, f_idx, &num_shared_faces); CHKERRQ(ierr);
 
       // Update order of faces in f_idx so (face_ids[0], face_ids[1], face_ids[2])
       // form a plane such that normal to plane points toward the cell centroid
-      ierr = UpdateFaceOrientationAroundAVertex(&cells->centroid[icell], faces, vertices, ivertex, dim, f_idx);
+      ierr = UpdateFaceOrientationAroundAVertex(&cells->centroid[icell], faces, vertices, ivertex, dim, f_idx); CHKERRQ(ierr);
       for (PetscInt d=0;d<3;d++) {
         subcell_face_ids[d] = f_idx[d];
         subcell_vertex_ids[d] = ivertex;
@@ -2930,7 +2930,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
         PetscInt neighboring_vertex_ids[2];
 
         // Find 'n0' and 'n1'
-        ierr = FindNeighboringVerticesOfAFace(faces,face_id,ivertex,neighboring_vertex_ids);
+        ierr = FindNeighboringVerticesOfAFace(faces,face_id,ivertex,neighboring_vertex_ids); CHKERRQ(ierr);
 
         PetscReal edge0_cen[3], edge1_cen[3];
         TDyCoordinate *subcell_face_centroids;
@@ -2986,7 +2986,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
         ierr = TDyFace_GetCentroid(faces, face_id_3, dim, &f3[0]); CHKERRQ(ierr);
 
         // Compute (x_{f1_idx } - x_{cell_centroid}) x (x_{f2_idx } - x_{cell_centroid})
-        ierr = TDyNormalToTriangle(cell_cen, f1, f2, f_normal);
+        ierr = TDyNormalToTriangle(cell_cen, f1, f2, f_normal); CHKERRQ(ierr);
 
         // Save the data
         TDyVector *nu_vectors;
@@ -3051,7 +3051,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
   ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
 
-  ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
+  ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow); CHKERRQ(ierr);
 
   for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
     if (vertices->num_internal_cells[ivertex] > 1 && vertices->is_local[ivertex]) {
@@ -3059,8 +3059,8 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
     }
   }
 
-  ierr = TDyDeallocate_IntegerArray_2D(cellsAbove, mesh->num_vertices);
-  ierr = TDyDeallocate_IntegerArray_2D(cellsBelow, mesh->num_vertices);
+  ierr = TDyDeallocate_IntegerArray_2D(cellsAbove, mesh->num_vertices); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(cellsBelow, mesh->num_vertices); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
@@ -3608,23 +3608,23 @@ static PetscErrorCode ComputeGeoAttrOfFaces(TDyMesh *mesh) {
 
       PetscReal plane[4], point1[dim], point2[dim], point3[dim], point4[dim];
 
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[0], dim, &point1[0]);
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[1], dim, &point2[0]);
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[2], dim, &point3[0]);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[0], dim, &point1[0]); CHKERRQ(ierr);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[1], dim, &point2[0]); CHKERRQ(ierr);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[2], dim, &point3[0]); CHKERRQ(ierr);
 
-      ierr = ComputePlaneGeometry (point1, point2, point3, plane);
+      ierr = ComputePlaneGeometry (point1, point2, point3, plane); CHKERRQ(ierr);
 
       PetscReal intercept[3];
       PetscBool boundary_face = PETSC_FALSE;
 
       if (cell_id_up >= 0 && cell_id_dn >=0 ) { 
-        ierr = GeometryGetPlaneIntercept(plane, coord_up, coord_dn, intercept);
+        ierr = GeometryGetPlaneIntercept(plane, coord_up, coord_dn, intercept); CHKERRQ(ierr);
       } else {
         boundary_face = PETSC_TRUE;
         if (cell_id_up >= 0 ) {
-          ierr = GeometryProjectPointOnPlane(plane, coord_up, intercept);
+          ierr = GeometryProjectPointOnPlane(plane, coord_up, intercept); CHKERRQ(ierr);
         } else {
-          ierr = GeometryProjectPointOnPlane(plane, coord_dn, intercept);
+          ierr = GeometryProjectPointOnPlane(plane, coord_dn, intercept); CHKERRQ(ierr);
         }
       }
 
@@ -3632,9 +3632,9 @@ static PetscErrorCode ComputeGeoAttrOfFaces(TDyMesh *mesh) {
         if (num_vertices == 4) {
           PetscReal plane2[4];
 
-          ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[3], dim, &point4[0]);
+          ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[3], dim, &point4[0]); CHKERRQ(ierr);
 
-          ierr = ComputePlaneGeometry (point2, point3, point4, plane2);
+          ierr = ComputePlaneGeometry (point2, point3, point4, plane2); CHKERRQ(ierr);
 
           PetscReal intercept2[3];
           ierr = GeometryGetPlaneIntercept(plane2, coord_up, coord_dn, intercept2); CHKERRQ(ierr);
@@ -3796,7 +3796,7 @@ PetscErrorCode TDyMeshCreateFromPlex(DM dm, PetscReal **volumes, PetscReal **coo
   ierr = UpdateFaceOrderAroundAVertex(dm, m); CHKERRQ(ierr);
   ierr = UpdateCellOrientationAroundAFace(dm, m); CHKERRQ(ierr);
   ierr = SetupSubcells(dm, m); CHKERRQ(ierr);
-  ierr = ComputeGeoAttrOfFaces(m);
+  ierr = ComputeGeoAttrOfFaces(m); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
diff --git a/src/fv/share/tdyugdm.c b/src/fv/share/tdyugdm.c
index 345277f..13cc139 100644
--- a/src/fv/share/tdyugdm.c
+++ b/src/fv/share/tdyugdm.c
@@ -148,7 +148,7 @@ static PetscErrorCode CreateLocalOrderIS(PetscInt ngmax, PetscInt nlmax, PetscIn
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, nlmax, idxL, PETSC_COPY_VALUES, &ugdm->IS_LocalCells_in_LocalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_in_LocalOrder,"is_local_local_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_in_LocalOrder,"is_local_local_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscInt idxG[ngmax];
@@ -157,7 +157,7 @@ static PetscErrorCode CreateLocalOrderIS(PetscInt ngmax, PetscInt nlmax, PetscIn
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, ngmax, idxG, PETSC_COPY_VALUES, &ugdm->IS_GhostedCells_in_LocalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostedCells_in_LocalOrder,"is_ghosted_local_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostedCells_in_LocalOrder,"is_ghosted_local_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscInt idxGhost[nghost];
@@ -166,7 +166,7 @@ static PetscErrorCode CreateLocalOrderIS(PetscInt ngmax, PetscInt nlmax, PetscIn
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, nghost, idxGhost, PETSC_COPY_VALUES, &ugdm->IS_GhostCells_in_LocalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostCells_in_LocalOrder,"is_ghosts_local_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostCells_in_LocalOrder,"is_ghosts_local_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -193,7 +193,7 @@ static PetscErrorCode CreatePetscOrderIS(PetscInt ndof, TDyUGrid *ugrid, TDyUGDM
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, nlmax, idxL, PETSC_COPY_VALUES, &ugdm->IS_LocalCells_in_GlobalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_in_GlobalOrder,"is_local_petsc_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_in_GlobalOrder,"is_local_petsc_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscInt idxG[ngmax];
@@ -205,7 +205,7 @@ static PetscErrorCode CreatePetscOrderIS(PetscInt ndof, TDyUGrid *ugrid, TDyUGDM
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, ngmax, idxG, PETSC_COPY_VALUES, &ugdm->IS_GhostedCells_in_GlobalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostedCells_in_GlobalOrder,"is_ghosted_petsc_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostedCells_in_GlobalOrder,"is_ghosted_petsc_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscInt idxGhost[nghost];
@@ -214,7 +214,7 @@ static PetscErrorCode CreatePetscOrderIS(PetscInt ndof, TDyUGrid *ugrid, TDyUGDM
   }
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, nghost, idxGhost, PETSC_COPY_VALUES, &ugdm->IS_GhostCells_in_GlobalOrder); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostCells_in_GlobalOrder,"is_ghosts_petsc_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_GhostCells_in_GlobalOrder,"is_ghosts_petsc_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -252,7 +252,7 @@ static PetscErrorCode CreateNaturalOrderIS(PetscInt ndof, TDyUGrid *ugrid, TDyUG
 
   ierr = ISCreateBlock(PETSC_COMM_WORLD, ndof, nlmax, idx, PETSC_COPY_VALUES, &ugdm->IS_LocalCells_to_NaturalCells); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_to_NaturalCells,"is_local_natural_1.out");
+  ierr = TDySavePetscISAsASCII(ugdm->IS_LocalCells_to_NaturalCells,"is_local_natural_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -284,7 +284,7 @@ static PetscErrorCode CreateVecScatters(PetscInt ndof, PetscInt nlmax, TDyUGDM *
   vec_scatter = &ugdm->Scatter_LocalCells_to_GlobalCells;
   ierr = VecScatterCreate(*vec_from, *is_from, *vec_to, *is_to, vec_scatter); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_ltog_1.out");
+  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_ltog_1.out"); CHKERRQ(ierr);
 #endif
 
   vec_from    = &ugdm->GlobalVec;
@@ -294,7 +294,7 @@ static PetscErrorCode CreateVecScatters(PetscInt ndof, PetscInt nlmax, TDyUGDM *
   vec_scatter = &ugdm->Scatter_GlobalCells_to_LocalCells;
   ierr = VecScatterCreate(*vec_from, *is_from, *vec_to, *is_to, vec_scatter); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_gtol_1.out");
+  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_gtol_1.out"); CHKERRQ(ierr);
 #endif
 
   ierr = VecScatterCopy(ugdm->Scatter_GlobalCells_to_LocalCells, &ugdm->Scatter_LocalCells_to_LocalCells); CHKERRQ(ierr);
@@ -307,7 +307,7 @@ static PetscErrorCode CreateVecScatters(PetscInt ndof, PetscInt nlmax, TDyUGDM *
   ierr = VecScatterRemap(ugdm->Scatter_LocalCells_to_LocalCells, idx, PETSC_NULL); CHKERRQ(ierr);
   ierr = ISRestoreIndices(ugdm->IS_LocalCells_in_LocalOrder, &int_ptr); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_ltol_1.out");
+  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_ltol_1.out"); CHKERRQ(ierr);
 #endif
 
   vec_from    = &ugdm->GlobalVec;
@@ -323,7 +323,7 @@ static PetscErrorCode CreateVecScatters(PetscInt ndof, PetscInt nlmax, TDyUGDM *
   ierr = VecScatterCreate(*vec_from, *is_from, vec_tmp, *is_to, vec_scatter); CHKERRQ(ierr);
   ierr = VecDestroy(&vec_tmp); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_gton_1.out");
+  ierr = TDySavePetscVecScatterAsASCII(*vec_scatter, "scatter_gton_1.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..37ea13e 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -98,10 +98,10 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
 
   // Save information about cells
   PetscInt vec_cells_size;
-  ierr = VecGetSize(cells, &ugrid->num_cells_global);
-  ierr = VecGetLocalSize(cells, &vec_cells_size);
+  ierr = VecGetSize(cells, &ugrid->num_cells_global); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(cells, &vec_cells_size); CHKERRQ(ierr);
   PetscInt blocksize;
-  ierr = VecGetBlockSize(cells, &blocksize);
+  ierr = VecGetBlockSize(cells, &blocksize); CHKERRQ(ierr);
   *num_cells_local = (PetscInt) (vec_cells_size/blocksize);
 
   *max_verts_per_cell = blocksize - 1;
@@ -135,9 +135,9 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
 
   // Save information about vertices
   PetscInt vert_dim, vec_verts_size;
-  ierr = VecGetSize(verts, &ugrid->num_verts_global);
-  ierr = VecGetLocalSize(verts, &vec_verts_size);
-  ierr = VecGetBlockSize(verts, &vert_dim);
+  ierr = VecGetSize(verts, &ugrid->num_verts_global); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(verts, &vec_verts_size); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(verts, &vert_dim); CHKERRQ(ierr);
   if (vert_dim != 3) {
     ierr = PetscObjectGetComm((PetscObject)verts, &comm); CHKERRQ(ierr);
     SETERRQ(comm,PETSC_ERR_USER,"Vertices in the the HDF5 is not 3D");
@@ -260,7 +260,7 @@ PetscErrorCode PartitionGrid(Mat DualMat, IS *NewCellRankIS, PetscInt *NewNumCel
   *NewNumCellsLocal = cell_counts[myrank];
 
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(*NewCellRankIS,"is.out");
+  ierr = TDySavePetscISAsASCII(*NewCellRankIS,"is.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -298,7 +298,7 @@ static PetscErrorCode DetermineMaxNumDualCells(Mat DualMat, TDyUGrid *ugrid) {
   }
 
   PetscInt tmp = ugrid->max_ndual_per_cell;
-  ierr = MPI_Allreduce(&tmp, &ugrid->max_ndual_per_cell, 1, MPI_INTEGER, MPI_MAX, PETSC_COMM_WORLD);
+  ierr = MPI_Allreduce(&tmp, &ugrid->max_ndual_per_cell, 1, MPI_INTEGER, MPI_MAX, PETSC_COMM_WORLD); CHKERRQ(ierr);
 
   ierr = MatRestoreRowIJ(DualMat, 0, PETSC_FALSE, PETSC_FALSE, &num_rows, &ia_ptr, &ja_ptr, &success);CHKERRQ(ierr);
 
@@ -331,7 +331,7 @@ static PetscErrorCode CreateISNatOrderToPetscOrder(TDyUGrid *ugrid, IS NewCellRa
   ierr = ISDestroy(&NumberingIS); CHKERRQ(ierr);
 
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(*NatToPetscIS,"is_scatter_elem_old_to_new.out");
+  ierr = TDySavePetscISAsASCII(*NatToPetscIS,"is_scatter_elem_old_to_new.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -438,8 +438,8 @@ PetscErrorCode PrePartNatOrder_To_PostPartNatOrder(PetscInt stride, PetscInt New
   ierr = VecScatterDestroy(&VecScatter); CHKERRQ(ierr);
 
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecAsASCII(*Pre,"elements_old.out");
-  ierr = TDySavePetscVecAsASCII(*Post,"elements_natural.out");
+  ierr = TDySavePetscVecAsASCII(*Pre,"elements_old.out"); CHKERRQ(ierr);
+  ierr = TDySavePetscVecAsASCII(*Post,"elements_natural.out"); CHKERRQ(ierr);
 #endif
 
  PetscFunctionReturn(0);
@@ -557,7 +557,7 @@ static PetscErrorCode CellAndDualIDs_FromNatOrder_To_GlobalOrder(PetscInt stride
   }
   ierr = VecRestoreArray(*PetscOrderVec, &v_ptr); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_petsc.out");
+  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_petsc.out"); CHKERRQ(ierr);
 #endif
 
   PetscFunctionReturn(0);
@@ -622,7 +622,7 @@ PetscErrorCode DualIDs_FromPetscOrder_To_LocalOrder(PetscInt stride, PetscInt du
 
   ierr = VecRestoreArray(*PetscOrderVec, &v_ptr); CHKERRQ(ierr);
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_local_dual_unsorted.out");
+  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_local_dual_unsorted.out"); CHKERRQ(ierr);
 #endif
 
   // Sort any ghost cells that are present
@@ -695,7 +695,7 @@ PetscErrorCode DualIDs_FromPetscOrder_To_LocalOrder(PetscInt stride, PetscInt du
     ierr = VecRestoreArray(*PetscOrderVec, &v_ptr); CHKERRQ(ierr);
   }
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_local_dual.out");
+  ierr = TDySavePetscVecAsASCII(*PetscOrderVec,"elements_local_dual.out"); CHKERRQ(ierr);
 #endif
 
   ugrid->num_cells_local = NewNumCellsLocal;
@@ -838,10 +838,10 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
   ierr = CreateApplicationOrder(NewGlobalOffset, NewNumCellsLocal, ugrid); CHKERRQ(ierr);
 
   // Change cell and dual ids from natural-order to PETSc order
-  ierr = CellAndDualIDs_FromNatOrder_To_GlobalOrder(stride, dual_offset, NewNumCellsLocal, ugrid, &PostPartNatOrderVec, PetscOrderVec);
+  ierr = CellAndDualIDs_FromNatOrder_To_GlobalOrder(stride, dual_offset, NewNumCellsLocal, ugrid, &PostPartNatOrderVec, PetscOrderVec); CHKERRQ(ierr);
 
   // Change the dual ids from Glboal-order to local-order
-  ierr = DualIDs_FromPetscOrder_To_LocalOrder(stride, dual_offset, NewNumCellsLocal, NewGlobalOffset, ugrid, PetscOrderVec);
+  ierr = DualIDs_FromPetscOrder_To_LocalOrder(stride, dual_offset, NewNumCellsLocal, NewGlobalOffset, ugrid, PetscOrderVec); CHKERRQ(ierr);
 
   // Update the array that saves the natural cell ids to include ghost cells
   ierr = UpdateNaturalCellIDs(stride, dual_offset, &PostPartNatOrderVec, PetscOrderVec, ugrid); CHKERRQ(ierr);
@@ -1063,8 +1063,8 @@ static PetscErrorCode SaveLocalVertexCoordinates(PetscInt stride, PetscInt verte
   ierr = ISCreateBlock(PETSC_COMM_WORLD, dim, NewNumVertices, idx, PETSC_COPY_VALUES, &ISScatter); CHKERRQ(ierr);
 
 #ifdef UGRID_DEBUG
-  ierr = TDySavePetscISAsASCII(ISScatter,"is_scatter_vert_old_to_new.out");
-  ierr = TDySavePetscISAsASCII(ISGather,"is_gather_vert_old_to_new.out");
+  ierr = TDySavePetscISAsASCII(ISScatter,"is_scatter_vert_old_to_new.out"); CHKERRQ(ierr);
+  ierr = TDySavePetscISAsASCII(ISGather,"is_gather_vert_old_to_new.out"); CHKERRQ(ierr);
 #endif
 
   // 3. Create vectors for data in natural-order and local-order
@@ -1183,21 +1183,21 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
   ierr = CreateISNatOrderToPetscOrder(ugrid, NewCellRankIS, stride, &NatToPetscIS); CHKERRQ(ierr);
   ierr = CreateVectorNatOrder(ugrid, NewCellRankIS, stride, &NatOrderVec); CHKERRQ(ierr);
 
-  ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec);
+  ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec); CHKERRQ(ierr);
   ierr = MatDestroy(&DualMat); CHKERRQ(ierr);
 
   // Update the global offset
   ierr = MPI_Exscan(&NewNumCellsLocal, &(ugrid->global_offset), 1, MPI_INTEGER, MPI_SUM, PETSC_COMM_WORLD); CHKERRQ(ierr);
 
   Vec PetscOrderVec;
-  ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec);
+  ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec); CHKERRQ(ierr);
   ierr = ISDestroy(&NatToPetscIS); CHKERRQ(ierr);
 
    Vec LocalOrderVec;
-   ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec);
+   ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec); CHKERRQ(ierr);
    ierr = VecDestroy(&PetscOrderVec); CHKERRQ(ierr);
 
-   ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec);
+   ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec); CHKERRQ(ierr);
    ierr = VecDestroy(&LocalOrderVec); CHKERRQ(ierr);
 
   //ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
diff --git a/src/tdycore.c b/src/tdycore.c
index db89777..6853f96 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -375,7 +375,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (!tdy) PetscFunctionReturn(0);
 
   if (tdy->regression) {
-    ierr = TDyRegressionDestroy(tdy);
+    ierr = TDyRegressionDestroy(tdy); CHKERRQ(ierr);
   }
 
   // Destroy Jacobian data.
@@ -596,7 +596,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -607,11 +607,11 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
-      ierr = ConditionsSetConstantBoundaryVelocity(tdy->conditions, options->boundary_velocity);
+      ierr = ConditionsSetConstantBoundaryVelocity(tdy->conditions, options->boundary_velocity); CHKERRQ(ierr);
     } else { // TODO: what goes here??
     }
   }
@@ -622,7 +622,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   } else {
     ierr = PetscOptionsReal("-tdy_temperature_bc_value", "Constant boundary temperature", NULL, options->boundary_temperature, &options->boundary_temperature,&flag); CHKERRQ(ierr);
     if (flag) {
-      ierr = ConditionsSetConstantBoundaryTemperature(tdy->conditions, options->boundary_temperature);
+      ierr = ConditionsSetConstantBoundaryTemperature(tdy->conditions, options->boundary_temperature); CHKERRQ(ierr);
     } else { // TODO: what goes here??
     }
   }
@@ -706,7 +706,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     } else {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
-        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm);
+        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
       } else if (create_dm_f90_) {
         // Create a DM all-Fortran-like.
         MPI_Fint comm_f = MPI_Comm_c2f(comm);
@@ -828,7 +828,7 @@ PetscErrorCode TDySetup(TDy tdy) {
     ierr = PetscSectionSetFieldName(section, DIAG_LIQUID_MASS, "LiquidMass");
     CHKERRQ(ierr);
     ierr = DMSetLocalSection(tdy->diag_dm, section); CHKERRQ(ierr);
-    ierr = PetscSectionDestroy(&section);
+    ierr = PetscSectionDestroy(&section); CHKERRQ(ierr);
 
     // Create a Vec that can store the diagnostic fields.
     ierr = DMCreateGlobalVector(tdy->diag_dm, &tdy->diag_vec); CHKERRQ(ierr);
@@ -1955,9 +1955,9 @@ PetscErrorCode TDySetIFunction(TS ts,TDy tdy) {
   PetscInt dim;
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = DMGetLocalSection(dm, &sec);
+  ierr = DMGetLocalSection(dm, &sec); CHKERRQ(ierr);
   PetscInt num_fields;
-  ierr = PetscSectionGetNumFields(sec, &num_fields);
+  ierr = PetscSectionGetNumFields(sec, &num_fields); CHKERRQ(ierr);
   ierr = TSGetDM(ts,&dm);CHKERRQ(ierr);
 
   switch (tdy->options.discretization) {
@@ -2243,7 +2243,7 @@ PetscErrorCode TDyCreateVectors(TDy tdy) {
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
-  ierr = PetscPrintf(PETSC_COMM_WORLD,"Creating Vectors\n");
+  ierr = PetscPrintf(PETSC_COMM_WORLD,"Creating Vectors\n"); CHKERRQ(ierr);
   if (tdy->soln == NULL) {
     ierr = TDyCreateGlobalVector(tdy, &tdy->soln); CHKERRQ(ierr);
     ierr = VecDuplicate(tdy->soln,&tdy->residual); CHKERRQ(ierr);
@@ -2263,7 +2263,7 @@ PetscErrorCode TDyCreateJacobian(TDy tdy) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
-  ierr = PetscPrintf(PETSC_COMM_WORLD,"Creating Jacobian matrix\n");
+  ierr = PetscPrintf(PETSC_COMM_WORLD,"Creating Jacobian matrix\n"); CHKERRQ(ierr);
   if (tdy->J == NULL) {
     ierr = TDyDiscretizationCreateJacobianMatrix(tdy->discretization,&tdy->J); CHKERRQ(ierr);
     ierr = TDyDiscretizationCreateJacobianMatrix(tdy->discretization,&tdy->Jpre); CHKERRQ(ierr);
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 04d9c6d..0f0950e 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -194,7 +194,7 @@ PetscErrorCode TDyDiscretizationGlobalToNatural(TDyDiscretizationType *discretiz
   TDyDM *tdydm = discretization->tdydm;
   DM dm = tdydm->dm;
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   switch (tdydm->dmtype) {
     case PLEX_TYPE:
@@ -254,7 +254,7 @@ PetscErrorCode TDyDiscretizationNaturalToGlobal(TDyDiscretizationType *discretiz
   TDyDM *tdydm = discretization->tdydm;
   DM dm = tdydm->dm;
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   switch (tdydm->dmtype) {
     case PLEX_TYPE:
diff --git a/src/tdyio.c b/src/tdyio.c
index d2d0147..c6b5d5d 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -545,9 +545,9 @@ PetscErrorCode TDyIOInitializeExodus(char *ofilename, char *zonalVarNames[], DM
 
   ierr = PetscViewerExodusIIOpen(PETSC_COMM_WORLD,ofilename,FILE_MODE_WRITE,&viewer);CHKERRQ(ierr);
   ierr = PetscViewerExodusIISetOrder(viewer,1);CHKERRQ(ierr);
-  ierr = PetscViewerView(viewer,PETSC_VIEWER_STDOUT_WORLD);
+  ierr = PetscViewerView(viewer,PETSC_VIEWER_STDOUT_WORLD); CHKERRQ(ierr);
   ierr = DMView(dm,viewer);CHKERRQ(ierr);
-  ierr = PetscViewerView(viewer,PETSC_VIEWER_STDOUT_WORLD);
+  ierr = PetscViewerView(viewer,PETSC_VIEWER_STDOUT_WORLD); CHKERRQ(ierr);
 
   ierr = PetscViewerExodusIIGetId(viewer,&exoid);CHKERRQ(ierr);
   ierr = ex_put_variable_param(exoid, EX_ELEM_BLOCK, num_vars);CHKERRQ(ierr);
diff --git a/src/tdyregression.c b/src/tdyregression.c
index 0fceb10..6a01583 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -38,7 +38,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   ierr = PetscOptionsInt ("-tdy_regression_test_num_cells_per_process",
 			  "Number of cells per MPI process","",
 			  regression->num_cells_per_process,
-			  &(regression->num_cells_per_process),NULL);
+			  &(regression->num_cells_per_process),NULL); CHKERRQ(ierr);
 
   ierr = PetscOptionsGetString(NULL,NULL,"-tdy_regression_test_filename",
 			       regression->filename,sizeof(regression->filename),
diff --git a/src/tdyrichards.c b/src/tdyrichards.c
index ed21f75..a910325 100644
--- a/src/tdyrichards.c
+++ b/src/tdyrichards.c
@@ -60,10 +60,10 @@ PetscErrorCode TDyRichardsSNESPostCheck(SNESLineSearch linesearch,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_update.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(Y,viewer);
+  ierr = VecView(Y,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_solution.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(W,viewer);
+  ierr = VecView(W,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -82,7 +82,7 @@ PetscErrorCode TDyRichardsConvergenceTest(SNES snes, PetscInt it,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"residual.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(r,viewer);
+  ierr = VecView(r,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
   PetscPrintf(PETSC_COMM_WORLD,"%3d: 2r:%9.2e 2x:%9.2e 2u:%9.2e\n",it,fnorm,xnorm,unorm);
diff --git a/src/tdysalinity.c b/src/tdysalinity.c
index c7a3578..5c97b28 100644
--- a/src/tdysalinity.c
+++ b/src/tdysalinity.c
@@ -79,10 +79,10 @@ PetscErrorCode TDySalinitySNESPostCheck(SNESLineSearch linesearch,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_update.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(Y,viewer);
+  ierr = VecView(Y,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_solution.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(W,viewer);
+  ierr = VecView(W,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -106,7 +106,7 @@ PetscErrorCode TDySalinityConvergenceTest(SNES snes, PetscInt it,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"residual.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(r,viewer);
+  ierr = VecView(r,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
   if (!rank)
diff --git a/src/tdyth.c b/src/tdyth.c
index fae1769..2d5126a 100644
--- a/src/tdyth.c
+++ b/src/tdyth.c
@@ -82,10 +82,10 @@ PetscErrorCode TDyTHSNESPostCheck(SNESLineSearch linesearch,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_update.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(Y,viewer);
+  ierr = VecView(Y,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"post_solution.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(W,viewer);
+  ierr = VecView(W,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
@@ -105,7 +105,7 @@ PetscErrorCode TDyTHConvergenceTest(SNES snes, PetscInt it,
 #if defined(DEBUG)
   PetscViewer viewer;
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,"residual.vec",&viewer); CHKERRQ(ierr);
-  ierr = VecView(r,viewer);
+  ierr = VecView(r,viewer); CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
   PetscPrintf(PETSC_COMM_WORLD,"%3d: %9.2e %9.2e %9.2e\n",it,fnorm,xnorm,unorm);
diff --git a/src/tdyti.c b/src/tdyti.c
index ba60dd7..4bf1651 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -144,7 +144,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-            ierr = PetscPrintf(PETSC_COMM_WORLD,message);
+            ierr = PetscPrintf(PETSC_COMM_WORLD,message); CHKERRQ(ierr);
             ierr = TDyTimeCut(tdy); CHKERRQ(ierr);
             if (icut == max_time_step_cuts) {
               SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"TDyTimeIntegratorRunToTime failed to converge after maximum time step cuts");
-- 
2.43.0


From 99db1e090f7731c300c4d53ffd5150378f295685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 30/85] fix: ASCII output lists pressure and saturation in the
 same order

---
 src/tdyio.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index c6b5d5d..eca6a7a 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -440,8 +440,18 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   CHKERRQ(ierr);
 
   if (tdy->io->format == PetscViewerASCIIFormat) {
-    ierr = TDyIOWriteAsciiViewer(p,time,zonalVarNames[0]);CHKERRQ(ierr);
+    // The saturation is in natural order, so the pressure has to be as well.
+    Vec p_natural;
+    ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
+    ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
+    if (useNatural) {
+      ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
+    } else {
+      ierr = VecCopy(p, p_natural);CHKERRQ(ierr);
+    }
+    ierr = TDyIOWriteAsciiViewer(p_natural,time,zonalVarNames[0]);CHKERRQ(ierr);
     ierr = TDyIOWriteAsciiViewer(s,time,zonalVarNames[1]);CHKERRQ(ierr);
+    ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
   }
   else if (tdy->io->format == ExodusFormat) {
     char *ofilename = tdy->io->filename;
-- 
2.43.0


From efe0e0407521f4e334bb66efcb880db52c0e0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 31/85] fix: processes that own no cells can set up the finite
 element methods

---
 src/fe/tdyfe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index dcee4e5..b101949 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -79,7 +79,8 @@ PetscErrorCode CreateCellVertexDirFaceMap(DM dm, PetscInt nv, PetscReal *X,
   PetscFunctionBegin;
   PetscInt d,dim,i,f,fStart,fEnd,v,q,c,cStart,cEnd,closureSize,*closure,
            fclosureSize,*fclosure,local_dirs[24];
-  if(!vmap) {
+  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+  if(!vmap && cEnd > cStart) { // the map of a process without cells is empty
     SETERRQ(((PetscObject)dm)->comm,PETSC_ERR_USER,
             "Must first create TDyCreateCellVertexMap to set vmap");
   }
-- 
2.43.0


From f6f4415a82d78bea0817546b7e63cc84297591c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 32/85] fix: processes that own no cells assemble their
 temperature and salinity matrices

---
 src/fv/mpfao/tdympfao.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 238f4ca..d6a5166 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1836,12 +1836,12 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
   ierr = MatAssemblyBegin(mpfao->Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   ierr = MatAssemblyEnd(mpfao->Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
 
-  if (mpfao->Temp_subc_Gmatrix) { // TH
+  if (mpfao->Temp_Trans_mat) { // TH
     ierr = MatAssemblyBegin(mpfao->Temp_Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
     ierr = MatAssemblyEnd(mpfao->Temp_Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
 
-  if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+  if (mpfao->Psi_Trans_mat) { // SALINITY
     ierr = MatAssemblyBegin(mpfao->Psi_Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
     ierr = MatAssemblyEnd(mpfao->Psi_Trans_mat,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
-- 
2.43.0


From bfc50eb70763eee390ee46c76ab9b865eb99c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 33/85] fix: saline diffusion acts between all cells and not
 only at corner vertices

---
 src/fv/mpfao/tdympfao.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index d6a5166..43e195d 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1817,6 +1817,8 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
       ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 0); CHKERRQ(ierr);
       if (mpfao->Temp_subc_Gmatrix) { // TH
         ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 1); CHKERRQ(ierr);
+      } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+        ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 2); CHKERRQ(ierr);
       }
     } else {
       // It is assumed that neumann boundary condition is a zero-flux boundary condition.
-- 
2.43.0


From d4249c73edd4f4b134a408a54cfb7465142fdf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 34/85] fix: the initial time step respects the maximum time
 step

---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index 4bf1651..443622c 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -83,6 +83,7 @@ PetscErrorCode TDyTimeIntegratorUpdateDT(TDyTimeIntegrator ti, PetscReal sync_ti
 PetscErrorCode TDyTimeIntegratorSetTargetTime(TDyTimeIntegrator ti, PetscReal sync_time) {
   PetscFunctionBegin;
   PetscReal dt_for_sync = sync_time-ti->time;
+  if (ti->dt > ti->dt_max) ti->dt = ti->dt_max;
   if (ti->dt > dt_for_sync) {
     ti->dt_save = ti->dt;
     ti->dt = dt_for_sync; 
-- 
2.43.0


From 27ebb329c2af7a87a895a512fdd88c7427100414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 35/85] fix: the step counter counts the steps of TS

---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index 443622c..5afbd52 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -188,6 +188,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
+      ierr = TSGetStepNumber(ti->ts,&ti->istep); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
       break;
   }
-- 
2.43.0


From e318ab8246d6cba8c3449022826141842e3da660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 36/85] fix: read per-cell data from files into a vector laid
 out like the mesh

The vectors for values in natural order had the default layout of PETSc. Where
that is not the layout of the mesh, the mapping to global order took the wrong
entries and cells received the values of other cells.
---
 src/tdyio.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index eca6a7a..0f0dbfd 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -255,6 +255,26 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   PetscFunctionReturn(0);
 }
 
+// Creates a vector that holds values in natural order. It has to be distributed
+// like the vectors of the DM, or the mapping from natural to global order gets
+// the wrong entries.
+static PetscErrorCode CreateNaturalVector(TDy tdy, const char *name, Vec *u) {
+  PetscFunctionBegin;
+  PetscErrorCode ierr;
+  Vec global;
+  PetscInt n;
+
+  ierr = TDyCreateGlobalVector(tdy,&global); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(global,&n); CHKERRQ(ierr);
+  ierr = VecDestroy(&global); CHKERRQ(ierr);
+
+  ierr = VecCreate(PETSC_COMM_WORLD,u); CHKERRQ(ierr);
+  ierr = VecSetSizes(*u,n,PETSC_DECIDE); CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) *u, name); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /* -------------------------------------------------------------------------- */
 /// Reads in and sets initial condition for the TDy solver
 ///
@@ -275,9 +295,7 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
-
-  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
+  ierr = CreateNaturalVector(tdy,VariableName,&u); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
@@ -308,8 +326,7 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscReal *ptr;
   int i,n;
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
-  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
+  ierr = CreateNaturalVector(tdy,VariableName,&u); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
-- 
2.43.0


From 462c57887f5c1b945ecfea076163aa4ce302bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 37/85] fix: write a checkpoint to a new file that replaces an
 older one when complete

An existing file of the same name was opened for appending: data of another
size remained in it or made the run fail, and a crash while overwriting it
destroyed the earlier checkpoint.
---
 src/tdyio.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 0f0dbfd..78b757e 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -363,10 +363,15 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   Vec p = tdy->soln_prev;
   Vec p_natural;
   PetscReal time = tdy->ti->time;
-  char filename[PETSC_MAX_PATH_LEN];
+  char filename[PETSC_MAX_PATH_LEN], tmp_filename[PETSC_MAX_PATH_LEN];
+  PetscMPIInt rank;
+  int failed = 0;
 
+  // The checkpoint is written to a new file that replaces an older one of the
+  // same name when it is complete.
   sprintf(filename,"%11.5e_%s.h5",time,"chk");
-  ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
+  sprintf(tmp_filename,"%11.5e_%s.h5.tmp",time,"chk");
+  ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tmp_filename,FILE_MODE_WRITE,&viewer);CHKERRQ(ierr);
 
   ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
   ierr = TDyGlobalToNatural(tdy,p,p_natural);CHKERRQ(ierr);
@@ -374,6 +379,12 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+
+  ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+  if (rank == 0) failed = rename(tmp_filename,filename);
+  ierr = MPI_Bcast(&failed,1,MPI_INT,0,PETSC_COMM_WORLD); CHKERRQ(ierr);
+  if (failed) SETERRQ1(PETSC_COMM_WORLD,PETSC_ERR_FILE_WRITE,"Can't write checkpoint %s",filename);
+
   ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 22fdb4df7ca2bf389f453dc17d94ec7d629798b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 38/85] fix: report errors of writing text output and
 regression summaries

---
 src/tdyio.c         | 8 ++++++++
 src/tdyregression.c | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 78b757e..f06a810 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -646,6 +646,14 @@ PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer);
          CHKERRQ(ierr);
   ierr = VecView(U,viewer); CHKERRQ(ierr);
+
+  // PETSc does not look at the result of what it prints.
+  FILE *fid;
+  PetscMPIInt rank;
+  ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+  ierr = PetscViewerASCIIGetPointer(viewer,&fid); CHKERRQ(ierr);
+  if (rank == 0 && ferror(fid)) SETERRQ1(PETSC_COMM_SELF,PETSC_ERR_FILE_WRITE,"Unable to write %s",word);
+
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
diff --git a/src/tdyregression.c b/src/tdyregression.c
index 6a01583..e753457 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -266,7 +266,8 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
     ierr = VecRestoreArray(reg->cells_per_process_vec,&vec_ptr); CHKERRQ(ierr);
 
-    fclose(fp);
+    PetscBool failed = (ferror(fp) != 0);
+    if (fclose(fp) != 0 || failed) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_FILE_WRITE,"Unable to write regression file");
   }
 
   ierr = VecDestroy(&U_pres); CHKERRQ(ierr);
-- 
2.43.0


From 7b2056c0b94f6070e85b00b05464e335f9a9e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 39/85] fix: do not search beyond the end of the profiling
 metadata

---
 src/tdytimers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..4e155ec 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -129,7 +129,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
-- 
2.43.0


From 257929e7720dec5f7e4d7adb0852d8a4eb816d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 40/85] fix: report errors of writing the timing profile, and
 honour its file name

---
 src/tdytimers.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 4e155ec..fdf42df 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -27,7 +27,8 @@ static PetscBool timersEnabled_ = PETSC_FALSE;
 // This function is called at finalization time.
 static void ShutDownTimers() {
   // Dump timing information before we leave.
-  TDyWriteTimingProfile("tdycore_profile.csv");
+  PetscErrorCode ierr = TDyWriteTimingProfile("tdycore_profile.csv");
+  CHKERRABORT(PETSC_COMM_WORLD, ierr);
 
   TDyDestroyTimers();
 }
@@ -114,12 +115,20 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 
 PetscErrorCode TDyWriteTimingProfile(const char* filename) {
   if (timersEnabled_) {
+    PetscErrorCode ierr;
     PetscViewer log;
-    PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log);
+    int rank;
+    MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
+    ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD, filename, &log); CHKERRQ(ierr);
     PetscViewerFormat format = PETSC_VIEWER_ASCII_CSV;
-    PetscViewerPushFormat(log, format);
-    PetscLogView(log);
-    PetscViewerDestroy(&log);
+    ierr = PetscViewerPushFormat(log, format); CHKERRQ(ierr);
+    ierr = PetscLogView(log); CHKERRQ(ierr);
+
+    // PETSc does not look at the result of what it prints.
+    FILE *fid;
+    ierr = PetscViewerASCIIGetPointer(log, &fid); CHKERRQ(ierr);
+    if (rank == 0 && ferror(fid)) SETERRQ1(PETSC_COMM_SELF, PETSC_ERR_FILE_WRITE, "Unable to write %s", filename);
+    ierr = PetscViewerDestroy(&log); CHKERRQ(ierr);
 
     // Add a footer to the profile CSV that contains metadata.
     // TODO: For now, we only support profiling for one TDy instance. It's not
@@ -139,8 +148,6 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
     TimingMetadata* md = kh_val(TDY_PROFILING_METADATA, md_iter);
 
     // Now write the footer.
-    int rank;
-    MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
     if (rank == 0) {
       // Count up the total number of cells in the simulation.
       int num_cells;
@@ -148,11 +155,13 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
                  0, PETSC_COMM_WORLD);
       const char* mode_name = TDyModes[md->mode];
       const char* disc_name = TDyDiscretizations[md->discretization];
-      FILE* f = fopen("tdycore_profile.csv", "a");
+      FILE* f = fopen(filename, "a");
+      if (!f) SETERRQ1(PETSC_COMM_SELF, PETSC_ERR_FILE_OPEN, "Unable to open %s", filename);
       fprintf(f, "METADATA\n");
       fprintf(f, "Mode,Discretization,NumProc,NumCells\n");
       fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, num_cells);
-      fclose(f);
+      PetscBool failed = (ferror(f) != 0);
+      if (fclose(f) != 0 || failed) SETERRQ1(PETSC_COMM_SELF, PETSC_ERR_FILE_WRITE, "Unable to write %s", filename);
     } else { // rank > 0
       MPI_Reduce(&md->num_cells, NULL, 1, MPI_INT, MPI_SUM,
                  0, PETSC_COMM_WORLD);
-- 
2.43.0


From 43be84b2d8adec09e45c733e43754e10ab0bf27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 41/85] fix: list the cells of the HDF5 topology in the order
 of the values

---
 src/tdyio.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/tdyio.c b/src/tdyio.c
index f06a810..c402bc0 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -390,6 +390,54 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   PetscFunctionReturn(0);
 }
 
+// Values of cells are written in natural order, so the cells in the output file
+// have to be listed in the same order instead of that of the distributed mesh.
+static PetscErrorCode WriteCellsInNaturalOrder(TDy tdy, char *ofilename, PetscInt numLocalCell, PetscInt numCell, PetscInt numCorner) {
+  PetscFunctionBegin;
+  PetscErrorCode ierr;
+  PetscViewer viewer;
+  Vec cells, global, natural;
+  PetscInt numDof;
+  PetscScalar *c, *g;
+
+  ierr = TDyCreateGlobalVector(tdy,&global); CHKERRQ(ierr);
+  ierr = TDyCreateGlobalVector(tdy,&natural); CHKERRQ(ierr);
+  ierr = VecGetSize(global,&numDof); CHKERRQ(ierr);
+  numDof = numDof/numCell;
+
+  ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
+  ierr = PetscViewerHDF5PushGroup(viewer,"/viz/topology");CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&cells); CHKERRQ(ierr);
+  ierr = VecSetSizes(cells,numLocalCell*numCorner,numCell*numCorner); CHKERRQ(ierr);
+  ierr = VecSetBlockSize(cells,numCorner); CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) cells,"cells");CHKERRQ(ierr);
+  ierr = VecLoad(cells,viewer); CHKERRQ(ierr);
+
+  for (PetscInt j=0;j<numCorner;++j) {
+    ierr = VecGetArray(cells,&c); CHKERRQ(ierr);
+    ierr = VecGetArray(global,&g); CHKERRQ(ierr);
+    for (PetscInt i=0;i<numLocalCell;++i) g[i*numDof] = c[i*numCorner+j];
+    ierr = VecRestoreArray(global,&g); CHKERRQ(ierr);
+    ierr = VecRestoreArray(cells,&c); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy,global,natural); CHKERRQ(ierr);
+    ierr = VecGetArray(cells,&c); CHKERRQ(ierr);
+    ierr = VecGetArray(natural,&g); CHKERRQ(ierr);
+    for (PetscInt i=0;i<numLocalCell;++i) c[i*numCorner+j] = g[i*numDof];
+    ierr = VecRestoreArray(natural,&g); CHKERRQ(ierr);
+    ierr = VecRestoreArray(cells,&c); CHKERRQ(ierr);
+  }
+
+  ierr = VecView(cells,viewer); CHKERRQ(ierr);
+  ierr = PetscViewerHDF5PopGroup(viewer);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+
+  ierr = VecDestroy(&cells); CHKERRQ(ierr);
+  ierr = VecDestroy(&natural); CHKERRQ(ierr);
+  ierr = VecDestroy(&global); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   PetscFunctionBegin;
   PetscErrorCode ierr;
@@ -437,6 +485,11 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     ierr = MPI_Allreduce(&numLocalCell,&numCell,1,MPIU_INT,MPI_SUM,PETSC_COMM_WORLD);CHKERRQ(ierr);
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
+    PetscBool useNatural;
+    ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
+    if (useNatural) {
+      ierr = WriteCellsInNaturalOrder(tdy,ofilename,numLocalCell,numCell,numCorner);CHKERRQ(ierr);
+    }
     ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
   }
 
-- 
2.43.0


From 1083e62a4d6ab1a7d97ecc8f639745f73940fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 42/85] fix: limit the cells of a regression summary by the
 number of cells, not unknowns

---
 src/tdyregression.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index e753457..43a8c0b 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -56,8 +56,9 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
   ierr = MPI_Allreduce(&vecsize_local,&min_vecsize_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
 
-  if (min_vecsize_local<regression->num_cells_per_process) {
-    regression->num_cells_per_process = min_vecsize_local;
+  // a cell has ndof_per_cell entries
+  if (min_vecsize_local/ndof_per_cell<regression->num_cells_per_process) {
+    regression->num_cells_per_process = min_vecsize_local/ndof_per_cell;
   }
 
   if (myrank == 0) {
-- 
2.43.0


From ba31a836dfdcbb8e38a6702183b7a8c7eafc1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 43/85] fix: regression summaries of SALINITY runs keep
 pressure and concentration apart

---
 src/tdyregression.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 43a8c0b..c2836d9 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -27,7 +27,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
 
   ndof_per_cell = 1;
-  if (tdy->options.mode == TH) ndof_per_cell = 2;
+  if (tdy->options.mode != RICHARDS) ndof_per_cell = 2;
 
   ierr = TDyAlloc(sizeof(TDyRegression), &regression); CHKERRQ(ierr);
 
@@ -68,11 +68,8 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   if (regression->num_cells_per_process == 0) {
     increment = 0; // some process owns no cells
   }
-  else if (tdy->options.mode == TH) {
-    increment = floor(vecsize_local/regression->num_cells_per_process/2);
-  }
   else {
-    increment = floor(vecsize_local/regression->num_cells_per_process);
+    increment = floor(vecsize_local/regression->num_cells_per_process/ndof_per_cell);
   }
 
 
@@ -170,22 +167,20 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscInt pres_vec_size, temp_vec_size, vec_local_size;
 
 
-  PetscSection sec;
-  PetscInt num_fields;
-  ierr = DMGetLocalSection(dm,&sec); CHKERRQ(ierr);
-  ierr = PetscSectionGetNumFields(sec,&num_fields); CHKERRQ(ierr);
+  // TH and SALINITY have a second unknown per cell.
+  PetscBool two_unknowns = (tdy->options.mode != RICHARDS);
 
   PetscReal *temp_p, *pres_p, *u_p;
   ierr = VecGetLocalSize(U,&vec_local_size); CHKERRQ(ierr);
   ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {
+  if (two_unknowns) {
     vec_local_size = vec_local_size/2;
   }
   ierr = VecSetSizes(U_pres,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetFromOptions(U_pres); CHKERRQ(ierr);
   ierr = VecGetArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_unknowns) {
     ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_temp); CHKERRQ(ierr);
     ierr = VecSetSizes(U_temp,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
     ierr = VecSetFromOptions(U_temp); CHKERRQ(ierr);
@@ -195,7 +190,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
   ierr = VecGetArray(U,&u_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH && num_fields == 2) {
+  if (two_unknowns) {
     for (c=0;c<vec_local_size;c++) {
       pres_p[c] = u_p[c*2];
       temp_p[c] = u_p[c*2+1];
@@ -209,7 +204,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecRestoreArray(U,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_unknowns) {
     ierr = VecRestoreArray(U_temp,&temp_p); CHKERRQ(ierr);
   }
 
@@ -219,7 +214,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecGetSize(U_pres,&pres_vec_size); CHKERRQ(ierr);
   mean_pres_val = mean_pres_val/pres_vec_size;
 
-  if (tdy->options.mode == TH) {
+  if (two_unknowns) {
     ierr = VecMax(U_temp,NULL,&max_temp_val); CHKERRQ(ierr);
     ierr = VecMin(U_temp,NULL,&min_temp_val); CHKERRQ(ierr);
     ierr = VecSum(U_temp,&mean_temp_val); CHKERRQ(ierr);
@@ -245,7 +240,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
     fprintf(fp,"      Min: %21.13e\n",min_pres_val);
     fprintf(fp,"     Mean: %21.13e\n",mean_pres_val);
 
-    if (tdy->options.mode == TH) {
+    if (two_unknowns) {
       for (i=0; i<count/2; i++) {
         fprintf(fp,"%9d: %21.13e\n",reg->cells_per_process_natural_ids[2*i]/2,vec_ptr[2*i]);
       }
@@ -255,8 +250,8 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
       }
     }
 
-    if (tdy->options.mode == TH) {
-      fprintf(fp,"-- GENERIC: Temperature --\n");
+    if (two_unknowns) {
+      fprintf(fp,"-- GENERIC: %s --\n",tdy->options.mode == TH ? "Temperature" : "Saline Concentration");
       fprintf(fp,"      Max: %21.13e\n",max_temp_val);
       fprintf(fp,"      Min: %21.13e\n",min_temp_val);
       fprintf(fp,"     Mean: %21.13e\n",mean_temp_val);
@@ -272,7 +267,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   }
 
   ierr = VecDestroy(&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
+  if (two_unknowns) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 9974cd5621147623acd3af99ade64ccec7619855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 44/85] fix: count the cells of the timing profile for every
 discretization

---
 src/tdytimers.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index fdf42df..c78b9cf 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -1,6 +1,7 @@
 #include <tdytimers.h>
 #include <private/tdycoreimpl.h>
 #include <private/tdympfaoimpl.h>
+#include <private/tdyfvtpfimpl.h>
 #include <private/tdymeshimpl.h>
 
 // Timers registry (maps timer names to PetscLogEvents).
@@ -89,24 +90,37 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
-    if (iter == kh_end(TDY_PROFILING_METADATA)) {
+    if (iter != kh_end(TDY_PROFILING_METADATA)) {
+      md = kh_val(TDY_PROFILING_METADATA, iter);
+    } else {
+      ierr = PetscNew(&md); CHKERRQ(ierr);
       int retval;
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
-    DM dm;
-    ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-    if (dm != NULL) {
-      PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
-      md->num_cells = mesh->num_cells_local;
+    md->num_cells = 0;
+    if (tdy->options.discretization == WY || tdy->options.discretization == BDM) {
+      // The finite element methods have no TDyMesh: count the cells of the DM
+      // that belong to this process.
+      DM dm;
+      ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
+      PetscInt cStart, cEnd, num_leaves;
+      const PetscInt *leaves;
+      PetscSF sf;
+      ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+      ierr = DMGetPointSF(dm, &sf); CHKERRQ(ierr);
+      ierr = PetscSFGetGraph(sf, NULL, &num_leaves, &leaves, NULL); CHKERRQ(ierr);
+      md->num_cells = cEnd - cStart;
+      for (PetscInt l = 0; l < num_leaves; ++l) {
+        PetscInt point = leaves ? leaves[l] : l;
+        if (point >= cStart && point < cEnd) --(md->num_cells);
+      }
     } else {
-      md->num_cells = 0;
+      TDyMesh *mesh = (tdy->options.discretization == FV_TPF) ?
+        ((TDyFVTPF*)tdy->context)->mesh : ((TDyMPFAO*)tdy->context)->mesh;
+      if (mesh != NULL) md->num_cells = mesh->num_cells_local;
     }
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
-- 
2.43.0


From 85427f2de8475c2bfc7068a0c641f5e08f681eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 45/85] fix: stop the function timers on every path

---
 src/fe/tdybdm.c                       | 1 +
 src/fe/tdywy.c                        | 1 +
 src/fv/fvtpf/tdyfvtpf_snes.c          | 2 ++
 src/fv/mpfao/tdympfao_th_ts.c         | 1 +
 src/materials/tdymaterialproperties.c | 2 +-
 5 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 4d89b5f..c58fa62 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -144,6 +144,7 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
     }
   }
   ierr = VecRestoreArray(coordinates,&coords); CHKERRQ(ierr);
+  TDyStopTimer(t1);
 
   /* Get plex limits */
   ierr = DMPlexGetChart        (dm,  &pStart,&pEnd); CHKERRQ(ierr);
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..be57035 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -374,6 +374,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
     }
   }
   ierr = VecRestoreArray(coordinates,&coords); CHKERRQ(ierr);
+  TDyStopTimer(t1);
 
   /* Check that the number of vertices per cell are constant. Soft
      limitation, method is flexible but my data structures are not. */
diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index a767db8..0d376d0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -113,6 +113,7 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
@@ -741,5 +742,6 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 68853d9..72a6272 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -839,6 +839,7 @@ PetscErrorCode TDyMPFAOIJacobian_Accumulation_TH(Vec Ul,Vec Udotl,PetscReal shif
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..89d9578 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -806,8 +806,8 @@ PetscErrorCode TDySetPorosityValuesLocal(TDy tdy, PetscInt ni, const PetscInt ix
   PetscInt i;
 
   PetscFunctionBegin;
-  TDY_START_FUNCTION_TIMER()
   if (!ni) PetscFunctionReturn(0);
+  TDY_START_FUNCTION_TIMER()
 
   MaterialProp *matprop = tdy->matprop;
 
-- 
2.43.0


From 20490cd33f3da18f4ad5607799d42e5d879baeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 46/85] fix: forget the registries that finalization destroys

---
 src/tdycore.c   | 3 +++
 src/tdytimers.c | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6853f96..f446489 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -195,6 +195,9 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     TDyFree(shutdown_funcs_);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
   // Finalize PETSc.
diff --git a/src/tdytimers.c b/src/tdytimers.c
index c78b9cf..91aabc0 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -189,13 +189,17 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
+  timersEnabled_ = PETSC_FALSE;
 }
-- 
2.43.0


From 6583fa6f136479e6b26935ff54fe6e45c0f9b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 47/85] fix: keep a copy of the name of a registered function

---
 src/tdycore.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index f446489..bcb4571 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -214,7 +214,14 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
+  const char *name;
+  TDySpatialFunction f;
+  kh_foreach(funcs_, name, f, {
+    PetscFree(name);
+  });
+  (void)f;
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
@@ -230,8 +237,15 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
     TDyOnFinalize(DestroyFunctionRegistry);
   }
 
-  int retval;
-  khiter_t iter = kh_put(TDY_FUNC_MAP, funcs_, name, &retval);
+  khiter_t iter = kh_get(TDY_FUNC_MAP, funcs_, name);
+  if (iter == kh_end(funcs_)) { // new name
+    // The registry keeps its own copy of the name.
+    PetscErrorCode ierr;
+    char *key;
+    int retval;
+    ierr = PetscStrallocpy(name, &key); CHKERRQ(ierr);
+    iter = kh_put(TDY_FUNC_MAP, funcs_, key, &retval);
+  }
   kh_val(funcs_, iter) = f;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 990c152c834890d31ec9337db081861fe4486e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 48/85] fix: reject settings and initialization before
 TDySetFromOptions

---
 src/tdycore.c   | 40 ++++++++++++++++++++++++++++++++++++++++
 src/tdydriver.c |  4 ++++
 2 files changed, 44 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index bcb4571..a0401a1 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1020,6 +1020,11 @@ PetscErrorCode TDySetWaterEnthalpyType(TDy tdy, TDyWaterEnthalpyType enthtype) {
   PetscFunctionReturn(0);
 }
 
+// Reports an error if the given part of a dycore (created by TDySetFromOptions)
+// isn't available yet.
+#define TDyCheckAvailable(part) \
+  if (!(part)) SETERRQ1(PETSC_COMM_SELF,PETSC_ERR_ORDER,"You must call TDySetFromOptions before %s()",__func__)
+
 /// Sets the porosity used by the dycore to the given constant. May be called
 /// anytime after TDySetFromOptions.
 /// @param [in] tdy the dycore instance
@@ -1027,6 +1032,7 @@ PetscErrorCode TDySetWaterEnthalpyType(TDy tdy, TDyWaterEnthalpyType enthtype) {
 PetscErrorCode TDySetConstantPorosity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantPorosity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1039,6 +1045,7 @@ PetscErrorCode TDySetPorosityFunction(TDy tdy,
                                       TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousPorosity(tdy->matprop, f); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1050,6 +1057,7 @@ PetscErrorCode TDySetPorosityFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicPermeability(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1062,6 +1070,7 @@ PetscErrorCode TDySetIsotropicPermeabilityFunction(TDy tdy,
                                                    TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1074,6 +1083,7 @@ PetscErrorCode TDySetIsotropicPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalPermeability(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1086,6 +1096,7 @@ PetscErrorCode TDySetDiagonalPermeabilityFunction(TDy tdy,
                                                   TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1098,6 +1109,7 @@ PetscErrorCode TDySetDiagonalPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorPermeability(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantTensorPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1110,6 +1122,7 @@ PetscErrorCode TDySetTensorPermeabilityFunction(TDy tdy,
                                                 TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1122,6 +1135,7 @@ PetscErrorCode TDySetTensorPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicThermalConductivity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1134,6 +1148,7 @@ PetscErrorCode TDySetIsotropicThermalConductivityFunction(TDy tdy,
                                                           TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1146,6 +1161,7 @@ PetscErrorCode TDySetIsotropicThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalThermalConductivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1158,6 +1174,7 @@ PetscErrorCode TDySetDiagonalThermalConductivityFunction(TDy tdy,
                                                          TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1170,6 +1187,7 @@ PetscErrorCode TDySetDiagonalThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorThermalConductivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantTensorThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1182,6 +1200,7 @@ PetscErrorCode TDySetTensorThermalConductivityFunction(TDy tdy,
                                                        TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1194,6 +1213,7 @@ PetscErrorCode TDySetTensorThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantResidualSaturation(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantResidualSaturation(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1206,6 +1226,7 @@ PetscErrorCode TDySetResidualSaturationFunction(TDy tdy,
                                                 TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousResidualSaturation(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1218,6 +1239,7 @@ PetscErrorCode TDySetResidualSaturationFunction(TDy tdy,
 PetscErrorCode TDySetConstantSoilDensity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantSoilDensity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1230,6 +1252,7 @@ PetscErrorCode TDySetSoilDensityFunction(TDy tdy,
                                          TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSoilDensity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1242,6 +1265,7 @@ PetscErrorCode TDySetSoilDensityFunction(TDy tdy,
 PetscErrorCode TDySetConstantSoilSpecificHeat(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantSoilSpecificHeat(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1252,6 +1276,7 @@ PetscErrorCode TDySetSoilSpecificHeatFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSoilSpecificHeat(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1264,6 +1289,7 @@ PetscErrorCode TDySetSoilSpecificHeatFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicSalineDiffusivity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1276,6 +1302,7 @@ PetscErrorCode TDySetIsotropicSalineDiffusivityFunction(TDy tdy,
                                                         TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1288,6 +1315,7 @@ PetscErrorCode TDySetIsotropicSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalSalineDiffusivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1300,6 +1328,7 @@ PetscErrorCode TDySetDiagonalSalineDiffusivityFunction(TDy tdy,
                                                        TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1312,6 +1341,7 @@ PetscErrorCode TDySetDiagonalSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorSalineDiffusivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantTensorSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1324,6 +1354,7 @@ PetscErrorCode TDySetTensorSalineDiffusivityFunction(TDy tdy,
                                                      TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1336,6 +1367,7 @@ PetscErrorCode TDySetTensorSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantSalineMolecularWeight(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetConstantSalineMolecularWeight(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1346,6 +1378,7 @@ PetscErrorCode TDySetSalineMolecularWeightFunction(TDy tdy,
                                                    TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSalineMolecularWeight(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1379,6 +1412,7 @@ PetscErrorCode TDySetForcingFunction(TDy tdy,
                                      TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1391,6 +1425,7 @@ PetscErrorCode TDySetEnergyForcingFunction(TDy tdy,
                                            TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1403,6 +1438,7 @@ PetscErrorCode TDySetBoundaryPressureFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1415,6 +1451,7 @@ PetscErrorCode TDySetBoundaryPressureTypeFunction(TDy tdy,
                                               TDyScalarSpatialIntegerFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperIntegerStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1427,6 +1464,7 @@ PetscErrorCode TDySetBoundaryVelocityFunction(TDy tdy,
                                               TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1439,6 +1477,7 @@ PetscErrorCode TDySetBoundaryTemperatureFunction(TDy tdy,
                                                  TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1451,6 +1490,7 @@ PetscErrorCode TDySetBoundarySalineConcentrationFunction(TDy tdy,
                                                          TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  TDyCheckAvailable(tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
diff --git a/src/tdydriver.c b/src/tdydriver.c
index ed3bc96..500bf2c 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -19,6 +19,10 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
   MPI_Comm comm;
   ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
 
+  if ((tdy->setup_flags & TDyOptionsSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_USER,"You must call TDySetFromOptions before TDyDriverInitializeTDy()");
+  }
+
   switch(tdy->options.discretization) {
     case MPFA_O:
       break;
-- 
2.43.0


From d8f96a74c594974b0839872d6312ae67fa323fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 49/85] fix: require a discretization and report errors of the
 mode options

---
 src/tdycore.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index a0401a1..fef71d9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -651,11 +651,14 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   PetscOptionsEnd();
 
   // Override the mode and/or discretization if needed.
-  if (options->mode != mode) {
-    TDySetMode(tdy, mode);
+  PetscBool new_mode = (options->mode != mode);
+  if (new_mode) {
+    options->mode = mode;
+    tdy->setup_flags |= TDyModeSet;
   }
-  if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+  if (new_mode || (options->discretization != discretization) ||
+      ((tdy->setup_flags & TDyDiscretizationSet) == 0)) {
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
@@ -694,6 +697,15 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     SETERRQ(comm,PETSC_ERR_USER,"You must call TDySetFromOptions before TDySetup()");
   }
 
+  if ((tdy->setup_flags & TDyDiscretizationSet) == 0) {
+    PetscBool has_option;
+    ierr = PetscOptionsHasName(NULL, NULL, "-tdy_discretization", &has_option); CHKERRQ(ierr);
+    if (!has_option) {
+      SETERRQ(comm,PETSC_ERR_USER,
+        "You must call TDySetDiscretization before TDySetFromOptions()");
+    }
+  }
+
   //------------------------------------------
   // Set options using command line parameters
   //------------------------------------------
-- 
2.43.0


From d36c818368036fc362e15245f4367060a8aee745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 50/85] fix: define
 TDySelectBoundarySalineConcentrationFunction

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index fef71d9..4c3d7a4 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1561,7 +1561,7 @@ PetscErrorCode TDySelectBoundaryTemperatureFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
-PetscErrorCode TDySelectBoundarySalineConcenctrationFunction(TDy tdy,
+PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
                                                              const char *func_name) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-- 
2.43.0


From 7527961ac4a9262e27db960e9b0f403fa2248ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 51/85] fix: -tdy_thermal_conductivity sets the thermal
 conductivity

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 4c3d7a4..07c6077 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -588,7 +588,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
-- 
2.43.0


From 0b16cd0dfffc1405e17dff76907edb54a888e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 52/85] fix: keep the saline molecular weight that the user set

---
 src/tdydriver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index 500bf2c..6ff0c1b 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -84,8 +84,10 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
           tdy->options.soil_specific_heat); CHKERRQ(ierr);
     }
   } else if (tdy->options.mode == SALINITY) {
-    ierr = TDySetConstantSalineMolecularWeight(tdy,
-      tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    if (!MaterialPropHasSalineMolecularWeight(tdy->matprop)) {
+      ierr = TDySetConstantSalineMolecularWeight(tdy,
+        tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    }
     if (!MaterialPropHasSalineDiffusivity(tdy->matprop)) {
       ierr = TDySetConstantIsotropicSalineDiffusivity(tdy,
         tdy->options.saline_diffusivity);CHKERRQ(ierr);
-- 
2.43.0


From d9d08b41c3a4d88aac9c1db49a8bedbbd6a16a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 53/85] fix: material tensors have the dimension of the mesh

---
 src/materials/tdymaterialproperties.c | 2 +-
 src/tdycore.c                         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 89d9578..243dfe8 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -498,7 +498,7 @@ static PetscErrorCode DiagonalTensorWrapperFunction(void *context, PetscInt n,
   wrapper->func(n, x, values);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
-      f[dim2*i+j*dim+j] = values[3*i+j];
+      f[dim2*i+j*dim+j] = values[dim*i+j];
     }
   }
   PetscFunctionReturn(0);
diff --git a/src/tdycore.c b/src/tdycore.c
index 07c6077..fca4011 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -781,6 +781,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   }
 
   PetscInt dim = 3;
+  if (!tdy->options.read_pflotran_mesh) {
+    ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr);
+  }
 
   // Create an empty material properties object. Each function must be set
   // explicitly by the driver program.
-- 
2.43.0


From 2f92dff8a39cc89b5b8817c1bfbee35617fcd318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 54/85] fix: free the discretization of a dycore

---
 include/private/tdydiscretizationimpl.h |  1 +
 include/private/tdyugridimpl.h          |  1 +
 src/fv/share/tdyugrid.c                 | 16 ++++++++++++++++
 src/tdycore.c                           |  4 +---
 src/tdydiscretization.c                 |  3 ++-
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/private/tdydiscretizationimpl.h b/include/private/tdydiscretizationimpl.h
index ccbbda1..31e4ad9 100644
--- a/include/private/tdydiscretizationimpl.h
+++ b/include/private/tdydiscretizationimpl.h
@@ -17,6 +17,7 @@ typedef struct {
 
 
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreate(TDyDiscretizationType**);
+PETSC_INTERN PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateFromPFLOTRANMesh(const char*,PetscInt,TDyDiscretizationType*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateGlobalVector(TDyDiscretizationType*,Vec*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateLocalVector(TDyDiscretizationType*,Vec*);
diff --git a/include/private/tdyugridimpl.h b/include/private/tdyugridimpl.h
index 130a51f..8536984 100644
--- a/include/private/tdyugridimpl.h
+++ b/include/private/tdyugridimpl.h
@@ -51,6 +51,7 @@ typedef struct {
 } TDyUGrid;
 
 PETSC_INTERN PetscErrorCode TDyUGridCreate(TDyUGrid**);
+PETSC_INTERN PetscErrorCode TDyUGridDestroy(TDyUGrid*);
 PETSC_INTERN PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char*,TDyUGrid*);
 
 #endif
\ No newline at end of file
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 37ea13e..42320b8 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -58,6 +58,22 @@ PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
   PetscFunctionReturn(0);
 }
 
+/// Deallocates a TDyUGrid struct
+///
+/// @param [inout] ugrid A TDyUGrid struct
+///
+/// @returns 0 on success, or a non-zero error code on failure
+PetscErrorCode TDyUGridDestroy(TDyUGrid *ugrid) {
+
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  ierr = AODestroy(&ugrid->ao_natural_to_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Read in a PFLOTRAN-formatted HDF5 mesh file
 ///
 /// @param [in] mesh_file Name of the mesh file
diff --git a/src/tdycore.c b/src/tdycore.c
index fca4011..176f621 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -428,9 +428,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
     ierr = MaterialPropDestroy(tdy->matprop); CHKERRQ(ierr);
   }
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMDestroy(&dm); CHKERRQ(ierr);
+  ierr = TDyDiscretizationDestroy(tdy->discretization); CHKERRQ(ierr);
   ierr = TDyFree(tdy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 0f0950e..f9152e4 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -36,7 +36,8 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
   PetscErrorCode ierr;
 
   ierr = TDyDMDestroy (discretization->tdydm); CHKERRQ(ierr);
-  TDyFree(discretization);
+  ierr = TDyUGridDestroy(discretization->ugrid); CHKERRQ(ierr);
+  ierr = TDyFree(discretization); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
-- 
2.43.0


From cdeac42adb1b3067adf9ff81d3414caa10467fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 55/85] fix: free all arrays of a mesh

---
 src/fv/share/tdymesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 87c275d..b6ca1db 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -883,6 +883,12 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->edges.normal); CHKERRQ(ierr);
   ierr = TDyFree(mesh->edges.length); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.dist_up_dn, mesh->num_faces); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.unit_vec_up_dn, mesh->num_faces); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.bc_type); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.projected_area); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist_wt_up); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.id); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.num_vertices); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.num_edges); CHKERRQ(ierr);
@@ -899,6 +905,8 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
+  ierr = TDyRegionDestroy(&mesh->region_connected); CHKERRQ(ierr);
+
   ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
             mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
-- 
2.43.0


From 592697c2c5006063fab614351172de909b076f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 56/85] fix: free the material data of MPFA-O

---
 src/fv/mpfao/tdympfao.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 43e195d..ac6118c 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -551,6 +551,11 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
   if (mpfao->Psi_vec      ) { ierr = VecDestroy(&mpfao->Psi_vec      ); CHKERRQ(ierr); }
   if (mpfao->TtimesPsi_vec) { ierr = VecDestroy(&mpfao->TtimesPsi_vec); CHKERRQ(ierr); }
 
+  ierr = TDyFree(mpfao->K); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->K0); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa0); CHKERRQ(ierr);
   if (mpfao->c_soil) {
     ierr = TDyFree(mpfao->c_soil); CHKERRQ(ierr);
   }
-- 
2.43.0


From 0d06517f095c22d7a58c93253e72b2213d097c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 57/85] fix: free the data of FV_TPF

---
 src/fv/fvtpf/tdyfvtpf.c | 42 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 89c564a..d9446df 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -34,12 +34,40 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   PetscFunctionBegin;
   TDyFVTPF* fvtpf = context;
 
-  if (fvtpf->vel   ) { ierr = TDyFree(fvtpf->vel); CHKERRQ(ierr); }
-
   ierr = TDyFree(fvtpf->V); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->X); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->N); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->pressure); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vel); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vel_count); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->c_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Sr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->P_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->T_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vis_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->h_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->source_sink); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->energy_source_sink); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->rho); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dP); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->d2rho_dP2); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->vis); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dvis_dP); CHKERRQ(ierr);
@@ -47,8 +75,18 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   ierr = TDyFree(fvtpf->h); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dh_dP); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dh_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->u); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dT); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dvis_dT); CHKERRQ(ierr);
 
+  if (fvtpf->mesh) {
+    ierr = TDyMeshDestroy(fvtpf->mesh); CHKERRQ(ierr);
+  }
+
+  ierr = TDyFree(fvtpf); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From d75a87176eecde724c2a1c891990c229277ca8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 58/85] fix: free the work array of boundary concentrations

---
 src/fv/mpfao/tdympfao_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 16be1d3..c91ce69 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -905,6 +905,7 @@ PetscErrorCode TDyMPFAO_SetBoundarySalineConcentration(TDy tdy, Vec Ul) {
     psi_vec_ptr[psi_bnd_idx + ncells] = mpfao->Psi_bnd[psi_bnd_idx];
   }
 
+  ierr = PetscFree(psi); CHKERRQ(ierr);
   ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->Psi_vec,&psi_vec_ptr); CHKERRQ(ierr);
 
-- 
2.43.0


From efcc44a6ce490565546caf8797c8684bd19f7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 59/85] fix: free the contexts of the finite element methods

---
 src/fe/tdybdm.c | 3 +++
 src/fe/tdywy.c  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index c58fa62..6c106f1 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -50,6 +50,9 @@ PetscErrorCode TDyDestroy_BDM(void *context) {
   ierr = TDyFree(bdm->V); CHKERRQ(ierr);
   ierr = TDyFree(bdm->X); CHKERRQ(ierr);
   ierr = TDyFree(bdm->N); CHKERRQ(ierr);
+  ierr = TDyFree(bdm->K); CHKERRQ(ierr);
+
+  ierr = TDyFree(bdm); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index be57035..9be4e2e 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -267,6 +267,8 @@ PetscErrorCode TDyDestroy_WY(void *context) {
   ierr = TDyFree(wy->X); CHKERRQ(ierr);
   ierr = TDyFree(wy->N); CHKERRQ(ierr);
 
+  ierr = TDyFree(wy); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From d6060a244d930c28b22d67dd9adddae1f7af5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 60/85] fix: free the contexts of all conditions

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 78ac691ac16460da558e7581ba313a5966572213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 61/85] fix: ASCII output wrote past the end of the buffer for
 its file name

---
 src/tdyio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index c402bc0..f17173c 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -690,12 +690,12 @@ PetscErrorCode TDyIOWriteExodusVar(char *ofilename, Vec U, char *VariableName, T
 }
 
 PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
-  char word[32];
+  char word[PETSC_MAX_PATH_LEN];
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscFunctionBegin;
 
-  sprintf(word,"%11.5e_%s.txt",time,VariableName);
+  snprintf(word,sizeof(word),"%11.5e_%s.txt",time,VariableName);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer);
          CHKERRQ(ierr);
   ierr = VecView(U,viewer); CHKERRQ(ierr);
-- 
2.43.0


From 4d337338b46d16e5a7c61db9d7b602d2ea2fd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 62/85] fix: natural cell ids were neither consecutive nor
 unique with two unknowns per cell

---
 src/fv/share/tdymeshplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 6d28517..d0447c5 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -628,7 +628,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
     ierr = VecGetArray(natural, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < natural_size; ++i) {
       if (i % num_fields == 0) {
-        entries[i] = i + cum_natural_size/num_fields - natural_size/num_fields;
+        entries[i] = (i + cum_natural_size - natural_size)/num_fields;
       }
       else {
         entries[i] = 0;
-- 
2.43.0


From 1e9cda247a259574b5587b7394c5d1448438bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 63/85] fix: an error inverting the permeability of a cell was
 ignored by BDM

---
 src/fe/tdybdm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 6c106f1..5dcb8f9 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -474,7 +474,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
     /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    ierr = Inverse(&(bdm->K[dim2*(c-cStart)]),dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
-- 
2.43.0


From f8e3b1bee37913a328a3d5b5d628b72a8b9d06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 64/85] fix: errors while setting up timers and shutdown
 functions were ignored

---
 src/tdycore.c   | 11 ++++++-----
 src/tdytimers.c |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 176f621..5b5a7b1 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -92,7 +92,7 @@ static PetscErrorCode TDyInitSubsystems() {
   // Register a class ID for logging.
   PetscErrorCode ierr = PetscClassIdRegister("TDy",&TDY_CLASSID); CHKERRQ(ierr);
 
-  TDyInitTimers();
+  ierr = TDyInitTimers(); CHKERRQ(ierr);
 
   // Process info exclusions.
   ierr = PetscOptionsGetString(NULL,NULL,"-info_exclude",logList,sizeof(logList),
@@ -117,8 +117,9 @@ static PetscErrorCode TDyInitSubsystems() {
   PetscBool timersEnabled = PETSC_FALSE;
   ierr = PetscOptionsGetBool(NULL,NULL,"-tdy_timers", &timersEnabled, &opt);
   CHKERRQ(ierr);
-  if (timersEnabled)
-    TDyEnableTimers();
+  if (timersEnabled) {
+    ierr = TDyEnableTimers(); CHKERRQ(ierr);
+  }
 
   TDyPackageInitialized = PETSC_TRUE;
 
@@ -234,7 +235,7 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
   PetscFunctionBegin;
   if (funcs_ == NULL) {
     funcs_ = kh_init(TDY_FUNC_MAP);
-    TDyOnFinalize(DestroyFunctionRegistry);
+    PetscErrorCode ierr = TDyOnFinalize(DestroyFunctionRegistry); CHKERRQ(ierr);
   }
 
   khiter_t iter = kh_get(TDY_FUNC_MAP, funcs_, name);
@@ -865,7 +866,7 @@ PetscErrorCode TDySetup(TDy tdy) {
   }
 
   // Record metadata for scaling studies.
-  TDySetTimingMetadata(tdy);
+  ierr = TDySetTimingMetadata(tdy); CHKERRQ(ierr);
 
   if (tdy->options.regression_testing) {
     /* must come after Sections are set up in
diff --git a/src/tdytimers.c b/src/tdytimers.c
index 91aabc0..0e86004 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -57,14 +57,14 @@ PetscErrorCode TDyInitTimers() {
   ierr = TDyAddProfilingStage("TDycore I/O"); CHKERRQ(ierr);
 
   // Register our shutdown function.
-  TDyOnFinalize(ShutDownTimers);
+  ierr = TDyOnFinalize(ShutDownTimers); CHKERRQ(ierr);
 
   return ierr;
 }
 
 PetscErrorCode TDyEnableTimers() {
   timersEnabled_ = PETSC_TRUE;
-  PetscLogDefaultBegin();
+  PetscErrorCode ierr = PetscLogDefaultBegin(); CHKERRQ(ierr);
   return 0;
 }
 
@@ -72,7 +72,7 @@ PetscErrorCode TDyAddProfilingStage(const char* name) {
   khiter_t iter = kh_get(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, name);
   PetscLogStage stage;
   if (iter == kh_end(TDY_PROFILING_STAGES)) {
-    PetscLogStageRegister(name, &stage);
+    PetscErrorCode ierr = PetscLogStageRegister(name, &stage); CHKERRQ(ierr);
     int retval;
     iter = kh_put(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, name, &retval);
     kh_val(TDY_PROFILING_STAGES, iter) = stage;
-- 
2.43.0


From d3b663c9466fe4a2b0bad8b82dbe514337aeeb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 65/85] fix: a failed registration of a timer was ignored and
 an uninitialised timer used

---
 include/tdytimers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdytimers.h b/include/tdytimers.h
index 11e7859..502e0cc 100644
--- a/include/tdytimers.h
+++ b/include/tdytimers.h
@@ -28,7 +28,8 @@ static inline PetscLogEvent TDyGetTimer(const char* name) {
   khiter_t iter = kh_get(TDY_TIMER_MAP, TDY_TIMERS, name);
   PetscLogEvent timer;
   if (iter == kh_end(TDY_TIMERS)) {
-    PetscLogEventRegister(name, TDY_CLASSID, &timer);
+    PetscErrorCode ierr = PetscLogEventRegister(name, TDY_CLASSID, &timer);
+    CHKERRABORT(PETSC_COMM_SELF, ierr); // many timed functions cannot return an error
     int retval;
     iter = kh_put(TDY_TIMER_MAP, TDY_TIMERS, name, &retval);
     kh_val(TDY_TIMERS, iter) = timer;
-- 
2.43.0


From 85f2eb2bcf9bfe32a5a45d741fc37c60974b8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 66/85] fix: the salt flux of SALINITY runs contained neither
 the concentration nor gravity

The advective flux of salt was the flux of mass of a fluid without gravity,
not that flux times the concentration of the cell (or boundary) it comes
from. A hydrostatic column of uniform concentration therefore moved.
---
 src/fv/mpfao/tdympfao_snes_salinity.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index e012b09..1647658 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -103,7 +103,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   PetscInt cell_id_up, cell_id_dn;
   PetscInt npitf_bc, nflux_in;
   PetscReal den,fluxm,ukvr,fluxt,flow_rate;
-  PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr;
+  PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr, *Psi_vec_ptr;
   PetscErrorCode ierr;
   PetscScalar *GravDis_ptr;
 
@@ -117,6 +117,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
+  ierr = VecGetArray(mpfao->Psi_vec,&Psi_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
 
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
@@ -190,11 +191,18 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-      fluxt = den_aveg*flow_rate;  //Advection term
+      fluxm += - pow(den_aveg,2.0) * ukvr * G;
+
+      // Advection term: the flux of mass carries the concentration from where it comes
+      PetscInt cell_id_from = (fluxm > 0.0) ? cell_id_up : cell_id_dn;
+      if (cell_id_from >= 0) {
+        fluxt = fluxm*Psi_vec_ptr[cell_id_from];
+      } else {
+        fluxt = fluxm*mpfao->Psi_bnd[-cell_id_from-1];
+      }
 
       // Diffusion term in transport equation?
       fluxt += -den_aveg*TtimesPsi[irow];
-      fluxm += - pow(den_aveg,2.0) * ukvr * G;
 
       // fluxm > 0 implies flow is from 'up' to 'dn'
       if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -211,6 +219,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
+  ierr = VecRestoreArray(mpfao->Psi_vec,&Psi_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
-- 
2.43.0


From d37dda6eea58321e614644b4391440e5dab2de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 67/85] fix: SALINITY fluxes took the mobility of the cell
 downstream where gravity decides the direction

The side that provides the relative permeability was chosen by the pressures
alone, unlike in RICHARDS runs, where gravity is part of the decision.
---
 src/fv/mpfao/tdympfao_snes_salinity.c | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 1647658..c1b0bb7 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -152,7 +152,24 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       cell_id_up = cell_ids[0];
       cell_id_dn = cell_ids[1];
 
-      if (TtimesP[irow] < 0.0) { // up ---> dn
+      PetscReal den_aveg = 0.0;
+      if (cell_id_up>=0) {
+        den_aveg += mpfao->rho[cell_id_up];
+      } else {
+        den_aveg += mpfao->rho_bnd[-cell_id_up-1];
+      }
+
+      if (cell_id_dn>=0) {
+        den_aveg += mpfao->rho[cell_id_dn];
+      } else {
+        den_aveg += mpfao->rho_bnd[-cell_id_dn-1];
+      }
+
+      den_aveg *= 0.5;
+
+      PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
+
+      if (TtimesP[irow] + den_aveg * G < 0.0) { // up ---> dn
                                  // Is the cell_id_up an internal or boundary cell?
         if (cell_id_up >= 0) {
           ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
@@ -171,23 +188,6 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
         }
       }
 
-      PetscReal den_aveg = 0.0;
-      if (cell_id_up>=0) {
-        den_aveg += mpfao->rho[cell_id_up];
-      } else {
-        den_aveg += mpfao->rho_bnd[-cell_id_up-1];
-      }
-
-      if (cell_id_dn>=0) {
-        den_aveg += mpfao->rho[cell_id_dn];
-      } else {
-        den_aveg += mpfao->rho_bnd[-cell_id_dn-1];
-      }
-
-      den_aveg *= 0.5;
-
-      PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
-
       flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-- 
2.43.0


From a63c51133f0a0c82d6551da6b795bda8cbc5874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 68/85] fix: destroying a mesh without closures read past a
 null pointer

---
 src/fv/share/tdymesh.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index b6ca1db..50a3587 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -907,10 +907,13 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
 
   ierr = TDyRegionDestroy(&mesh->region_connected); CHKERRQ(ierr);
 
-  ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
-  ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
-            mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
-  CHKERRQ(ierr);
+  // Only meshes created from a DMPlex have closures.
+  if (mesh->closure) {
+    ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
+    ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
+              mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
+    CHKERRQ(ierr);
+  }
 
   ierr = TDyFree(mesh); CHKERRQ(ierr);
   PetscFunctionReturn(0);
-- 
2.43.0


From 470de3a78b6c41684191909131d93764393a388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 69/85] fix: FV_TPF left the cell centroids unset on meshes
 that do not come from a DMPlex

---
 src/fv/fvtpf/tdyfvtpf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index d9446df..b881f45 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -519,6 +519,13 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n"); CHKERRQ(ierr);
     ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
+    // Material properties are evaluated at the cell centroids.
+    ierr = TDyAlloc(3*fvtpf->mesh->num_cells*sizeof(PetscReal), &fvtpf->X); CHKERRQ(ierr);
+    for (PetscInt c = 0; c < fvtpf->mesh->num_cells; c++) {
+      for (PetscInt d = 0; d < 3; d++) {
+        fvtpf->X[3*c+d] = fvtpf->mesh->cells.centroid[c].X[d];
+      }
+    }
     break;
 
     default:
-- 
2.43.0


From 36151b59fed534cc5f5540e95c3e8c2711f314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 70/85] fix: the face-to-cell map of meshes read from PFLOTRAN
 files was used after it was freed

---
 src/fv/share/tdymeshcustom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index b8de36b..ae6b84f 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -695,12 +695,13 @@ static PetscErrorCode RemoveDuplicateFaces(TDyUGrid *ugrid, PetscInt **face_to_v
 /// @param [inout] face_to_vertex A map to get face vertex IDs forming a face
 ///
 /// @returns 0 on success, or a non-zero error code on failure
-static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt **face_to_cell, PetscInt **face_to_vertex) {
+static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt ***face_to_cell_ptr, PetscInt **face_to_vertex) {
 
   PetscErrorCode ierr;
   PetscInt max_vert_per_face = ugrid->max_vert_per_face;
   PetscInt max_face_per_cell = ugrid->max_face_per_cell;
   PetscInt ngmax = ugrid->num_cells_global;
+  PetscInt **face_to_cell = *face_to_cell_ptr;
 
   // Determine number of unique faces
   PetscInt face_count = 0;
@@ -743,6 +744,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
   }
   ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  *face_to_cell_ptr = face_to_cell;
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
@@ -1262,7 +1264,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = RemoveDuplicateFaces(ugrid, face_to_vertex, face_to_cell, cell_to_face); CHKERRQ(ierr);
 
   // Update the maps after removing duplicate faces
-  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex); CHKERRQ(ierr);
+  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, &face_to_cell, face_to_vertex); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face); CHKERRQ(ierr);
 
   // Set up vertex-to-cell mapping
-- 
2.43.0


From d816d7989058b58c0b135bd5857dc88210696cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 71/85] fix: the number of cells sharing a vertex was checked
 after the write and for another vertex

---
 src/fv/share/tdymeshcustom.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index ae6b84f..58d0666 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -814,12 +814,12 @@ static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell
       if (vertex_id < 0) continue;
 
       PetscInt idx=num_vertex_to_cell[vertex_id];
+      if (idx >= max_cells_sharing_a_vertex) {
+        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
+      }
       vertex_to_cell[idx][vertex_id] = icell;
 
       num_vertex_to_cell[vertex_id]++;
-      if (num_vertex_to_cell[ivertex] > max_cells_sharing_a_vertex) {
-        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
-      }
     }
   }
 
-- 
2.43.0


From e7c9727b08c32e69930384de505345b809b7e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 72/85] fix: vertex 0 was left out of the count of the vertices
 of a cell

---
 src/fv/share/tdyugrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 42320b8..53627be 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -188,7 +188,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
   for (PetscInt icell=0; icell<ugrid->num_cells_local; icell++) {
     PetscInt tmp=0;
     for (PetscInt ivertex=0; ivertex<ugrid->max_verts_per_cell; ivertex++) {
-      if (ugrid->cell_vertices[icell][ivertex] > 0) {
+      if (ugrid->cell_vertices[icell][ivertex] >= 0) {
         tmp++;
       }
     }
-- 
2.43.0


From 25fe57974234edd5301f437a46f90bdb576ead82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 73/85] fix: a rank without cells of a PFLOTRAN mesh wrote
 outside its vertex arrays

---
 src/fv/share/tdyugrid.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 53627be..68d6b62 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -992,10 +992,13 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
 
   ierr = PetscSortIntWithPermutation(numVertices, IntArray1, IntArray2); CHKERRQ(ierr);
 
+  // A rank may own no cells, and then it has no vertices.
   PetscInt count=0;
-  PetscInt idx=IntArray2[count];
-  IntArray3[0] = IntArray1[idx];
-  IntArray4[idx] = count;
+  if (numVertices > 0) {
+    PetscInt idx=IntArray2[count];
+    IntArray3[0] = IntArray1[idx];
+    IntArray4[idx] = count;
+  }
 
   for (PetscInt ivertex=0; ivertex<numVertices; ivertex++) {
     PetscInt idx=IntArray2[ivertex];
@@ -1007,7 +1010,7 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
     IntArray4[IntArray2[ivertex]] = count;
   }
 
-  numVertices = count+1;
+  if (numVertices > 0) numVertices = count+1;
   *NewNumVertices = numVertices;
 
   // Save vertex ids in natural-order
-- 
2.43.0


From 5be9813bcee2a98b6f5e8479ff9cff31b46556d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 74/85] fix: no natural vector was created for meshes read from
 PFLOTRAN files

---
 src/tdydiscretization.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index f9152e4..b5224ad 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -137,7 +137,8 @@ PetscErrorCode TDyDiscretizationCreateNaturalVector(TDyDiscretizationType *discr
       ierr = TDyDiscretizationCreateGlobalVector(discretization, vector); CHKERRQ(ierr);
       break;
     case TDYCORE_DM_TYPE:
-      //ierr = TDyUGDMCreateNaturalVec(tdydm->ugdm, vector); CHKERRQ(ierr);
+      ierr = TDyUGDMCreateNaturalVec((tdydm->ugdm)->ndof, (discretization->ugrid)->num_cells_local,
+                                     tdydm->ugdm, vector); CHKERRQ(ierr);
       break;
     default:
       break;
-- 
2.43.0


From 463465775a8286b25d8f3c2dc5a212d244361c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 75/85] fix: meshes with tetrahedra or pyramids reported an
 error for their subcell type

---
 src/fv/share/tdymesh.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 50a3587..a6b9478 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -25,9 +25,8 @@ PetscErrorCode AllocateCells(
   PetscInt num_neighbors = GetNumNeighborsForCellType(cell_type);
   PetscInt num_faces     = GetNumFacesForCellType(cell_type);
 
-  TDySubcellType subcell_type = GetSubcellTypeForCellType(cell_type);
-  PetscInt num_subcells = GetNumSubcellsForSubcellType(subcell_type);
-  num_subcells = num_vertices;
+  // There is a subcell for each vertex.
+  PetscInt num_subcells = num_vertices;
 
   PetscErrorCode ierr;
   ierr = TDyAllocate_IntegerArray_1D(&cells->id,num_cells); CHKERRQ(ierr);
-- 
2.43.0


From 4b2aaa13cd36086e1448f185f05b7b68bebd698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 76/85] fix: the storage term of WY was not multiplied by the
 volume of the cell

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 9be4e2e..6b4bfbf 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1065,7 +1065,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
       }
     }
 
-    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c] + div - wy->Flocal[c-cStart];
+    r[c] = wy->V[c]*wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c] + div - wy->Flocal[c-cStart];
     //PetscPrintf(PETSC_COMM_WORLD,"R[%2d] = %+e %+e %+e = %+e\n",
     // 	c,wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c],
     // 		div,wy->Flocal[c-cStart],r[c]);
-- 
2.43.0


From 37e41a4e98f8268e09a5099cb91cfac1a7e41ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 77/85] fix: WY ignored the residual saturation

---
 src/fe/tdywy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 6b4bfbf..fb352b1 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -514,7 +514,8 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   // Compute material properties.
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
-  MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  ierr = MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity); CHKERRQ(ierr);
+  ierr = MaterialPropComputeResidualSaturation(matprop, nc, wy->X, wy->Sr); CHKERRQ(ierr);
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From a2a0064d3114fbaf1b5accc7654d920179c8e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 78/85] fix: Fortran: functions passed through procedure
 pointers could not be called

TDyRegisterFunction and the setters of the forcing, energy forcing and
boundary velocity declared their function as a procedure pointer and passed
it on as a procedure. What was stored for the function was the address of
the caller's pointer, so that the first evaluation jumped to data. Declare
the functions like those of the other setters.
---
 src/f90-mod/tdycoremod.F90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d2637a7..fb5c98a 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -424,7 +424,7 @@ end subroutine
 
   subroutine RegisterSpatialFunction(name, func)
     character(len=*), intent(in)           :: name
-    procedure(TDySpatialFunction), pointer :: func
+    procedure(TDySpatialFunction)          :: func
 
     integer :: id
 
@@ -462,7 +462,7 @@ end subroutine
     use, intrinsic :: iso_c_binding
     implicit none
     character(len=*), intent(in)            :: name
-    procedure(TDySpatialFunction), pointer  :: func
+    procedure(TDySpatialFunction)           :: func
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
@@ -564,7 +564,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction)          :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -590,7 +590,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction)          :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -668,7 +668,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction)          :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
-- 
2.43.0


From 7ddeda3db0fe1aa76d848e699740611262dc02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 79/85] fix: Fortran: spatial functions were given a third of
 the coordinates

The array of coordinates passed to a Fortran function had as many elements as
there are points, although the points have dim coordinates each: every access
past the first n elements was outside its bounds.
---
 src/f90-mod/tdycoref.c     | 12 ++++++------
 src/f90-mod/tdycoremod.F90 | 10 ++++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index 5ac77a9..f4d8c3c 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -273,10 +273,10 @@ typedef struct F90IntegerSpatialFunctionWrapper {
 
 // This subroutine is defined on the Fortran side and calls the Fortran-defined
 // spatial function with the given ID.
-extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscReal*,
+extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscInt, PetscReal*,
                                       PetscReal*, PetscErrorCode*);
 
-extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscReal*,
+extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscInt, PetscReal*,
                                       PetscInt*, PetscErrorCode*);
 
 // This creates a wrapped F90 function context.
@@ -313,7 +313,7 @@ static PetscErrorCode WrappedF90SpatialFunction(void *context, PetscInt n,
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90SpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, wrapper->dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -322,7 +322,7 @@ static PetscErrorCode WrappedF90IntegerSpatialFunction(void *context, PetscInt n
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90IntegerSpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90IntegerSpatialFunction(wrapper->id, wrapper->dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -337,7 +337,7 @@ static PetscErrorCode WrappedF90IsotropicTensorFunction(void *context, PetscInt
   PetscInt dim2 = dim*dim;
   PetscReal values[n];
   memset(f, 0, n * dim2 * sizeof(PetscReal));
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, wrapper->dim, n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[i];
@@ -356,7 +356,7 @@ static PetscErrorCode WrappedF90DiagonalTensorFunction(void *context, PetscInt n
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   PetscReal values[dim*n];
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, wrapper->dim, n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[dim*i+j];
diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index fb5c98a..1531e17 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -303,11 +303,12 @@ module tdycore
 
   ! This subroutine calls the TDySpatialFunction with the given id, supplying
   ! it with the given parameters.
-  subroutine TDyCallF90SpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90SpatialFunction(id, dim, n, c_x, c_f, ierr) &
       bind(c, name="TDyCallF90SpatialFunction")
     use, intrinsic :: iso_c_binding
     implicit none
     integer(c_int), value, intent(in) :: id
+    integer(c_int), value, intent(in) :: dim
     integer(c_int), value, intent(in) :: n
     type(c_ptr),    value, intent(in) :: c_x, c_f
     integer(c_int),       intent(out) :: ierr
@@ -316,16 +317,17 @@ module tdycore
     real(c_double), dimension(:), pointer  :: f_x, f_f
 
     f_func => spatial_funcs_(id)%f
-    call c_f_pointer(c_x, f_x, [n])
+    call c_f_pointer(c_x, f_x, [dim*n])
     call c_f_pointer(c_f, f_f, [n])
     call f_func(n, f_x, f_f, ierr)
   end subroutine
 
-  subroutine TDyCallF90IntegerSpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90IntegerSpatialFunction(id, dim, n, c_x, c_f, ierr) &
     bind(c, name="TDyCallF90IntegerSpatialFunction")
   use, intrinsic :: iso_c_binding
   implicit none
   integer(c_int), value, intent(in) :: id
+  integer(c_int), value, intent(in) :: dim
   integer(c_int), value, intent(in) :: n
   type(c_ptr),    value, intent(in) :: c_x, c_f
   integer(c_int),       intent(out) :: ierr
@@ -335,7 +337,7 @@ module tdycore
   integer(c_int), dimension(:), pointer ::  f_f
 
   f_func => integer_spatial_funcs_(id)%f
-  call c_f_pointer(c_x, f_x, [n])
+  call c_f_pointer(c_x, f_x, [dim*n])
   call c_f_pointer(c_f, f_f, [n])
   call f_func(n, f_x, f_f, ierr)
 end subroutine
-- 
2.43.0


From 2a3b9a39c6f532acabc467590f30f283affc766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 80/85] fix: Fortran: the first integer function made later
 functions replace earlier ones

Functions with real and with integer values are kept in different arrays but
shared the counter of the entries in use, which the first integer function
set back to 1: the functions set afterwards overwrote those of the first
entries, so that, say, a forcing function set after the boundary pressure type
took the place of the porosity.
---
 src/f90-mod/tdycoremod.F90 | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 1531e17..469a06a 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -14,7 +14,8 @@ module tdycore
   public
 
   private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
-             SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
+             integer_spatial_funcs_, integer_spatial_func_names_, &
+             last_integer_spatial_func_id_, SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
   !> A TDySpatialFunction is a function that computes values f on n points x,
@@ -55,8 +56,9 @@ module tdycore
   character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
-  ! The ID of the most recently added spatial function
+  ! The IDs of the next spatial function and of the next integer function
   integer(c_int) :: last_spatial_func_id_
+  integer(c_int) :: last_integer_spatial_func_id_
 
   interface
      subroutine TDyFinalize(ierr)
@@ -396,10 +398,10 @@ end subroutine
     if (.not. allocated(integer_spatial_funcs_)) then
       allocate(integer_spatial_funcs_(32))
       allocate(integer_spatial_func_names_(32))
-      last_spatial_func_id_ = 1
+      last_integer_spatial_func_id_ = 1
       id = 1
     else
-      do id = 1, last_spatial_func_id_
+      do id = 1, last_integer_spatial_func_id_
         if (associated(integer_spatial_funcs_(id)%f, func)) then
           exit
         end if
@@ -408,7 +410,7 @@ end subroutine
 
     if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
       ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
+      if (last_integer_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
         old_size = size(integer_spatial_funcs_)
         allocate(new_funcs_array(2*old_size))
         allocate(new_names_array(2*old_size))
@@ -418,9 +420,9 @@ end subroutine
         call move_alloc(new_names_array, integer_spatial_func_names_)
       end if
       elem%f => func
-      integer_spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+      integer_spatial_funcs_(last_integer_spatial_func_id_) = elem
+      id = last_integer_spatial_func_id_
+      last_integer_spatial_func_id_ = last_integer_spatial_func_id_ + 1
     end if
   end function
 
-- 
2.43.0


From a6b214e82015b59d6e89e47434e21442f070e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 81/85] fix: Fortran: the search for a function read past the
 end of the list

The loop looked at the entry that is still to be filled, and the test that
follows it at the one after that: beyond the allocated entries once 31
functions had been set.
---
 src/f90-mod/tdycoremod.F90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 469a06a..b7ff9ca 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -361,14 +361,14 @@ end subroutine
       last_spatial_func_id_ = 1
       id = 1
     else
-      do id = 1, last_spatial_func_id_
+      do id = 1, last_spatial_func_id_ - 1
         if (associated(spatial_funcs_(id)%f, func)) then
           exit
         end if
       end do
     end if
 
-    if (.not. associated(spatial_funcs_(id)%f, func)) then
+    if (id == last_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
       if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
         old_size = size(spatial_funcs_)
@@ -401,14 +401,14 @@ end subroutine
       last_integer_spatial_func_id_ = 1
       id = 1
     else
-      do id = 1, last_integer_spatial_func_id_
+      do id = 1, last_integer_spatial_func_id_ - 1
         if (associated(integer_spatial_funcs_(id)%f, func)) then
           exit
         end if
       end do
     end if
 
-    if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
+    if (id == last_integer_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
       if (last_integer_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
         old_size = size(integer_spatial_funcs_)
-- 
2.43.0


From bfa65acdf173daef540df0cfa1573a5701157ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:54 +0000
Subject: [PATCH 82/85] fix: Fortran: registered functions were not found, or
 another one was

The lookup compared name(1:32), which reads past the end of every shorter
name, with entries that had never been set, dereferenced a list that does not
exist before the first registration, and passed a null procedure on for an
unknown name. A second name for a function replaced its first one. The error
code of TDyRegisterFunction was not set.
---
 src/f90-mod/tdycoremod.F90 | 99 ++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index b7ff9ca..d10f43a 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -16,6 +16,7 @@ module tdycore
   private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
              integer_spatial_funcs_, integer_spatial_func_names_, &
              last_integer_spatial_func_id_, SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
+             AppendSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
   !> A TDySpatialFunction is a function that computes values f on n points x,
@@ -53,7 +54,7 @@ module tdycore
   ! An array of Fortran TDySpatialFunctions and any associated names
   type(SpatialFunctionWrapper), dimension(:), allocatable :: spatial_funcs_
   type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: integer_spatial_funcs_
-  character(len=32), dimension(:), allocatable :: spatial_func_names_
+  character(len=256), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
   ! The IDs of the next spatial function and of the next integer function
@@ -347,43 +348,51 @@ end subroutine
 ! This function finds the ID of the given spatial function, or appends it to
   ! the list if it's not found. In either case, the resulting ID is returned.
   function FindOrAppendSpatialFunction(func) result(id)
+    implicit none
+    procedure(TDySpatialFunction) :: func
+    integer :: id
+
+    if (allocated(spatial_funcs_)) then
+      do id = 1, last_spatial_func_id_ - 1
+        if (associated(spatial_funcs_(id)%f, func)) return
+      end do
+    end if
+    ! We didn't find the function, so we must append it.
+    id = AppendSpatialFunction(func)
+  end function
+
+  ! This function appends the given spatial function to the list and returns
+  ! its ID.
+  function AppendSpatialFunction(func) result(id)
     implicit none
     procedure(TDySpatialFunction) :: func
     type(SpatialFunctionWrapper)  :: elem
     integer :: id
     type(SpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
-    character(len=32), dimension(:), allocatable :: new_names_array
+    character(len=256), dimension(:), allocatable :: new_names_array
     integer :: old_size
 
     if (.not. allocated(spatial_funcs_)) then
       allocate(spatial_funcs_(32))
       allocate(spatial_func_names_(32))
+      spatial_func_names_ = ""
       last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_ - 1
-        if (associated(spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
     end if
 
-    if (id == last_spatial_func_id_) then
-      ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
-        old_size = size(spatial_funcs_)
-        allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
-        new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = spatial_func_names_(1:old_size)
-        call move_alloc(new_funcs_array, spatial_funcs_)
-        call move_alloc(new_names_array, spatial_func_names_)
-      end if
-      elem%f => func
-      spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+    if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
+      old_size = size(spatial_funcs_)
+      allocate(new_funcs_array(2*old_size))
+      allocate(new_names_array(2*old_size))
+      new_names_array = ""
+      new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
+      new_names_array(1:old_size) = spatial_func_names_(1:old_size)
+      call move_alloc(new_funcs_array, spatial_funcs_)
+      call move_alloc(new_names_array, spatial_func_names_)
     end if
+    elem%f => func
+    spatial_funcs_(last_spatial_func_id_) = elem
+    id = last_spatial_func_id_
+    last_spatial_func_id_ = last_spatial_func_id_ + 1
   end function
 
   function FindOrAppendIntegerSpatialFunction(func) result(id)
@@ -432,8 +441,13 @@ end subroutine
 
     integer :: id
 
-    ! Assign an ID to the function and set its name.
-    id = FindOrAppendSpatialFunction(func)
+    ! A name registered before now means this function.
+    if (allocated(spatial_funcs_)) then
+      where (spatial_func_names_ == name) spatial_func_names_ = ""
+    end if
+
+    ! Add an entry for the function, which may have other names as well.
+    id = AppendSpatialFunction(func)
     spatial_func_names_(id) = name
   end subroutine
 
@@ -444,11 +458,13 @@ end subroutine
     integer :: i
 
     func => null()
-    do i = 1, size(spatial_funcs_)
-      if (spatial_func_names_(i) == name(1:32)) then
-        func => spatial_funcs_(i)%f
-      end if
-    end do
+    if (allocated(spatial_funcs_)) then
+      do i = 1, last_spatial_func_id_ - 1
+        if (spatial_func_names_(i) == name .and. name /= "") then
+          func => spatial_funcs_(i)%f
+        end if
+      end do
+    end if
   end function
 
   subroutine TDyInit(ierr)
@@ -470,6 +486,7 @@ end subroutine
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
+    ierr = 0
   end subroutine
 
   subroutine TDySetDMConstructor(tdy, dm_ctor, ierr)
@@ -504,6 +521,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! not found, as in TDyGetFunction
+      return
+    end if
     call TDySetPorosityFunction(tdy, func, ierr)
   end subroutine
 
@@ -518,6 +539,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! not found, as in TDyGetFunction
+      return
+    end if
     call TDySetForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -532,6 +557,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! not found, as in TDyGetFunction
+      return
+    end if
     call TDySetEnergyForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -546,6 +575,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! not found, as in TDyGetFunction
+      return
+    end if
     call TDySetBoundaryPressureFunction(tdy, func, ierr)
   end subroutine
 
@@ -560,6 +593,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! not found, as in TDyGetFunction
+      return
+    end if
     call TDySetBoundaryVelocityFunction(tdy, func, ierr)
   end subroutine
 
-- 
2.43.0


From bac6edddbab21304b679f3d9d097689b01e314f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:54 +0000
Subject: [PATCH 83/85] fix: Fortran: TDyUpdateState took the address of the
 number of cells for the number

Fortran passes its arguments by reference.
---
 src/f90-mod/tdycoref.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index f4d8c3c..bdb6b8f 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -245,9 +245,9 @@ PETSC_EXTERN void  tdydestroy_(TDy *_tdy, int *__ierr){
 *__ierr = TDyDestroy(_tdy);
 }
 
-PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], int ncells, int *ierr )
+PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], PetscInt *ncells, int *ierr )
 {
-  *ierr = TDyUpdateState(*tdy,y,ncells);
+  *ierr = TDyUpdateState(*tdy,y,*ncells);
 }
 
 PETSC_EXTERN void  tdyglobaltonatural_(TDy tdy, Vec global, Vec natural, int *__ierr){
-- 
2.43.0


From 4cda2f307e60d20f8ea3a04727ea43e7806abde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 84/85] fix: Fortran: functions set before TDySetFromOptions
 crashed the program

The C interface reports this; the Fortran one dereferenced the mesh and the
material properties, which do not exist yet.
---
 src/f90-mod/tdycoref.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index bdb6b8f..b753de1 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -376,6 +376,7 @@ PETSC_EXTERN PetscErrorCode f90_fn(TDy tdy, PetscInt id) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
   PetscInt dim; \
+  if (!tdy->matprop || !tdy->discretization) SETERRQ1(PETSC_COMM_SELF,PETSC_ERR_ORDER,"You must call TDySetFromOptions before %s()",__func__); \
   ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr); \
   void *context; \
   ierr = CreateF90SpatialFunctionContext(dim, id, &context); CHKERRQ(ierr); \
@@ -405,6 +406,7 @@ PETSC_EXTERN PetscErrorCode f90_fn(TDy tdy, PetscInt id) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
   PetscInt dim; \
+  if (!tdy->conditions || !tdy->discretization) SETERRQ1(PETSC_COMM_SELF,PETSC_ERR_ORDER,"You must call TDySetFromOptions before %s()",__func__); \
   ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr); \
   void *context; \
   ierr = CreateF90SpatialFunctionContext(dim, id, &context); CHKERRQ(ierr); \
@@ -418,6 +420,7 @@ PETSC_EXTERN PetscErrorCode f90_fn(TDy tdy, PetscInt id) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
   PetscInt dim; \
+  if (!tdy->conditions || !tdy->discretization) SETERRQ1(PETSC_COMM_SELF,PETSC_ERR_ORDER,"You must call TDySetFromOptions before %s()",__func__); \
   ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr); \
   void *context; \
   ierr = CreateF90IntegerSpatialFunctionContext(dim, id, &context); CHKERRQ(ierr); \
-- 
2.43.0


From 1eee5e245833590ad6784b942858008e0847cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 85/85] fix: Fortran: the mesh of one dycore instance was used
 for every later one

The subroutine that creates the mesh was kept in a variable of the library
instead of the instance, so it also made the meshes of all instances without
a constructor of their own, its error code was ignored, and it could be set
after the mesh had been created, without effect. Keep it as the constructor
of the instance, as in C.
---
 src/f90-mod/tdycoremod.F90 |  7 +++++--
 src/tdycore.c              | 22 ++++++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d10f43a..0201edd 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -493,10 +493,12 @@ end subroutine
     use, intrinsic :: iso_c_binding
     use tdycoredef
     implicit none
-    TDy, target                 :: tdy
+    TDy                         :: tdy
     procedure(TDyDMConstructor) :: dm_ctor
     PetscErrorCode              :: ierr
 
+    type(c_ptr)                 :: p_tdy
+
     interface
       function SetDMConstructor(tdy, dm_ctor) bind(c, name="TDySetDMConstructorF90") result(ierr)
         use, intrinsic :: iso_c_binding
@@ -507,7 +509,8 @@ end subroutine
       end function
     end interface
 
-    ierr = SetDMConstructor(c_loc(tdy), c_funloc(dm_ctor))
+    p_tdy = transfer(tdy%v, p_tdy)
+    ierr = SetDMConstructor(p_tdy, c_funloc(dm_ctor))
   end subroutine
 
   subroutine TDySelectPorosityFunction(tdy, name, ierr)
diff --git a/src/tdycore.c b/src/tdycore.c
index 5b5a7b1..f7e786b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -373,13 +373,23 @@ PetscErrorCode TDySetDMConstructor(TDy tdy, void* context,
   PetscFunctionReturn(0);
 }
 
-// This function is a wrapper used to eliminate the context pointer argument
-// from TDySetDMConstructor so the function can be called from Fortran.
-static void (*create_dm_f90_)(MPI_Fint*, DM*, PetscErrorCode*) = NULL;
+// These functions let a Fortran subroutine create the DM of a dycore: the
+// subroutine is the context of a constructor that calls it.
+static PetscErrorCode CreateDMF90(MPI_Comm comm, void *context, DM *dm) {
+  void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*) =
+    (void (*)(MPI_Fint*, DM*, PetscErrorCode*))context;
+  PetscErrorCode ierr = 0;
+  PetscFunctionBegin;
+  MPI_Fint comm_f = MPI_Comm_c2f(comm);
+  dm_func(&comm_f, dm, &ierr); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 PetscErrorCode TDySetDMConstructorF90(TDy tdy,
                                       void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  create_dm_f90_ = dm_func;
+  ierr = TDySetDMConstructor(tdy, (void*)dm_func, CreateDMF90); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -735,10 +745,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
         ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
-      } else if (create_dm_f90_) {
-        // Create a DM all-Fortran-like.
-        MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-- 
2.43.0

