From f46d27ec23ee333e3f78612db632b8044d4d8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 01/63] fix: position the Jacobian on the current cell in
 dw_convect_v_grad_s()

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..98f3a81 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -653,6 +653,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
 
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
+    FMF_SetCell( vvg->det, ii );
     FMF_SetCellX1( svg->bf, ii );
 
     if (isDiff == 0) {
-- 
2.43.0


From 85e963c04df731c2bfbd76fa02e5faa40294d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/63] fix: use the basis of the current cell in actBfT()

---
 sfepy/terms/extmods/terms_op.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..d932e39 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -69,6 +69,7 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
   fmf_fillC(out, 0.0);
   for (iel = 0; iel < out->nCell; iel++) {
     FMF_SetCell(out, iel);
+    FMF_SetCellX1(bf, iel);
     FMF_SetCellX1(A, iel);
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
-- 
2.43.0


From 13bb60a5f4de07c56ddfbff85269a1825d171109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 03/63] fix: release the tensor traction temporary in
 dw_surface_ltr()

---
 sfepy/terms/extmods/terms_surface.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/extmods/terms_surface.c b/sfepy/terms/extmods/terms_surface.c
index 98f815d..d034ace 100644
--- a/sfepy/terms/extmods/terms_surface.c
+++ b/sfepy/terms/extmods/terms_surface.c
@@ -87,11 +87,8 @@ int32 dw_surface_ltr( FMField *out, FMField *traction, Mapping *sg )
 
  end_label:
   fmf_freeDestroy( &outQP );
-  if (traction->nCol == 1) {
-    fmf_freeDestroy( &pn );
-  } else if (traction->nCol == sym) {
-    fmf_freeDestroy( &stn );
-  }
+  fmf_freeDestroy( &pn );
+  fmf_freeDestroy( &stn );
 
   return( ret );
 }
-- 
2.43.0


From 7aa191022e35802781fa480da00a6ccf35a9b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 04/63] fix: release the work array of d_sd_div_grad()

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 88e2813..c9bad91 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -630,6 +630,7 @@ int32 d_sd_div_grad( FMField *out, FMField *gradU, FMField *gradW,
   }
 
  end_label:
+  fmf_freeDestroy( &uvel );
   if (mode == 1) {
     fmf_freeDestroy( &aux );
     fmf_freeDestroy( &aux1 );
-- 
2.43.0


From 96a9081eb83724a949ee5e41b1f097bda5451ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 05/63] fix: do not free connectivity arrays again after
 CMesh.free_connectivity()

---
 sfepy/discrete/common/extmods/mesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..36a5e47 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -265,6 +265,8 @@ int32 conn_free(MeshConnectivity *conn)
 {
    free_mem(conn->indices);
    free_mem(conn->offsets);
+   conn->indices = 0;
+   conn->offsets = 0;
    conn->num = 0;
    conn->n_incident = 0;
 
-- 
2.43.0


From 719b0538b4da3a991ac4ef37caa0d1d43495b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 06/63] fix: release memory also after an error was reported

---
 sfepy/discrete/common/extmods/common_python.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/common/extmods/common_python.c b/sfepy/discrete/common/extmods/common_python.c
index 1592937..68233f2 100644
--- a/sfepy/discrete/common/extmods/common_python.c
+++ b/sfepy/discrete/common/extmods/common_python.c
@@ -217,8 +217,7 @@ void *mem_realloc_mem(void *pp, size_t size, int lineNo, char *funName,
   }
 
   // 1. almost as mem_free_mem().
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
@@ -280,8 +279,7 @@ void mem_free_mem(void *pp, int lineNo, char *funName,
 
   if (p == 0) return;
 
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
-- 
2.43.0


From b22b270c4001769fb29b1322ec8663d75a71512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 07/63] fix: initialize local connectivities before an early
 exit of mesh_build()

---
 sfepy/discrete/common/extmods/mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 36a5e47..9186d33 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -421,6 +421,10 @@ int32 mesh_build(Mesh *mesh, int32 dim)
   MeshConnectivity sloc[1]; // Local connectivity with sorted global vertices.
   MeshConnectivity gloc[1]; // Local connectivity with global vertices.
 
+  // Allow conn_free() in case of an early error exit.
+  memset(sloc, 0, sizeof(sloc));
+  memset(gloc, 0, sizeof(gloc));
+
   debprintf("build %d\n", dim);
 
   if (!mesh->topology->conn[IJ(D, D, D)]->num) {
-- 
2.43.0


From 2cdccca24f1163fdf305513fea3cc677c6e4e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 08/63] fix: free temporary basis arrays in
 eval_variable_in_qp(), eval_in_tp_coors()

---
 sfepy/discrete/iga/extmods/igac.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sfepy/discrete/iga/extmods/igac.pyx b/sfepy/discrete/iga/extmods/igac.pyx
index 6aba0b0..54be305 100644
--- a/sfepy/discrete/iga/extmods/igac.pyx
+++ b/sfepy/discrete/iga/extmods/igac.pyx
@@ -686,6 +686,12 @@ def eval_variable_in_qp(float64[:, ::1] variable not None,
                     (_B + ii).val += nf
                     (_dB_dxi + ii).val += nf
 
+    for ii in range(0, <uint32>dim):
+        fmf_free(_B + ii)
+        fmf_free(_dB_dxi + ii)
+        fmf_free(_N + ii)
+        fmf_free(_dN_dxi + ii)
+
     return coors, vals, dets
 
 def eval_in_tp_coors(float64[:, ::1] variable,
@@ -863,4 +869,10 @@ def eval_in_tp_coors(float64[:, ::1] variable,
 
             _out.val += nc
 
+    for ii in range(0, <uint32>dim):
+        fmf_free(_B + ii)
+        fmf_free(_dB_dxi + ii)
+        fmf_free(_N + ii)
+        fmf_free(_dN_dxi + ii)
+
     return out
-- 
2.43.0


From 56fbceebb43f4106c249eba204c8aab8d44469ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 09/63] fix: clear the C error flag also when a C error
 surfaces as SystemError

---
 sfepy/terms/terms.py         | 4 ++--
 sfepy/terms/terms_contact.py | 4 ++--
 sfepy/terms/terms_dg.py      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..cbe1374 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1337,7 +1337,7 @@ class Term(Struct):
         try:
             fargs = self.get_fargs(*args, **kwargs)
 
-        except (RuntimeError, ValueError):
+        except (RuntimeError, SystemError, ValueError):
             terms.errclear()
             raise
 
@@ -1361,7 +1361,7 @@ class Term(Struct):
         try:
             status = self.function(out, *fargs)
 
-        except (RuntimeError, ValueError):
+        except (RuntimeError, SystemError, ValueError):
             terms.errclear()
             raise
 
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..06a14f6 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -114,7 +114,7 @@ class ContactTerm(Term):
         try:
             out, status = self.function(out, *fargs)
 
-        except (RuntimeError, ValueError):
+        except (RuntimeError, SystemError, ValueError):
             terms.errclear()
             raise
 
@@ -276,7 +276,7 @@ class ContactIPCTerm(Term):
         try:
             out, status = self.function(out, *fargs)
 
-        except (RuntimeError, ValueError):
+        except (RuntimeError, SystemError, ValueError):
             terms.errclear()
             raise
 
diff --git a/sfepy/terms/terms_dg.py b/sfepy/terms/terms_dg.py
index f132a53..b843863 100644
--- a/sfepy/terms/terms_dg.py
+++ b/sfepy/terms/terms_dg.py
@@ -41,7 +41,7 @@ class DGTerm(Term):
         try:
             out, status = self.function(out, *fargs)
 
-        except (RuntimeError, ValueError):
+        except (RuntimeError, SystemError, ValueError):
             terms.errclear()
             raise
 
-- 
2.43.0


From 33aebdc99dd231f33e6620cc3bb422823dc99373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 10/63] fix: report a failure of either step in
 VectorDotScalarTerm

---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..9f31f19 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -417,7 +417,7 @@ class VectorDotScalarTerm(Term):
         if fmode == 3:
             status2 = terms.mulAB_integrate(out, bfsc, aux, geo.cmap, 'ATBT')
 
-        return status1 and status2
+        return status1 or status2
 
     @staticmethod
     def d_dot(out, mat, val1_qp, val2_qp, geo):
-- 
2.43.0


From 2fbd49cce03cfbeb211f780e5e076dbf65fceb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 11/63] fix: propagate C errors from mesh and basis functions
 and clear the C error flag

---
 sfepy/discrete/common/extmods/_fmfield.pxd   | 17 +++++++++++++++++
 sfepy/discrete/common/extmods/cmesh.pyx      | 11 +++++++++++
 sfepy/discrete/common/extmods/crefcoors.pyx  |  2 ++
 sfepy/discrete/fem/extmods/bases.pyx         |  1 +
 sfepy/discrete/fem/extmods/lobatto_bases.pyx |  2 ++
 sfepy/discrete/iga/extmods/igac.pyx          |  4 +++-
 6 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/_fmfield.pxd b/sfepy/discrete/common/extmods/_fmfield.pxd
index 87c555a..00fd375 100644
--- a/sfepy/discrete/common/extmods/_fmfield.pxd
+++ b/sfepy/discrete/common/extmods/_fmfield.pxd
@@ -7,6 +7,23 @@ import numpy as np
 
 from sfepy.discrete.common.extmods.types cimport int32, uint32, float64
 
+cdef extern from 'common.h':
+    int32 g_error
+
+cdef inline int check_ccore_error() except -1:
+    """
+    If an error occurred in C code, clear the C error flag, so that subsequent
+    calls are not influenced, and propagate the exception set by errput() or
+    errset().
+    """
+    global g_error
+
+    if g_error:
+        g_error = 0
+        return -1
+
+    return 0
+
 cdef extern from "fmfield.h":
     ctypedef struct FMField:
         int32 nCell
diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..c7fb432 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -7,6 +7,8 @@ cimport cython
 
 import numpy as np
 
+from sfepy.discrete.common.extmods._fmfield cimport check_ccore_error
+
 np.import_array()
 
 cdef class CConnectivity:
@@ -238,6 +240,7 @@ cdef class CMesh:
             cmesh.mesh.topology.num[cmesh.tdim] = cmesh.n_el
 
             num = mesh_count_incident(self.mesh, 0, _entities, dent)
+            check_ccore_error()
 
             indices = np.empty(num, dtype=np.uint32)
             offsets = np.empty(_entities.num + 1, dtype=np.uint32)
@@ -246,6 +249,7 @@ cdef class CMesh:
             _incident.indices = &indices[0]
             _incident.offsets = &offsets[0]
             mesh_get_incident(self.mesh, _incident, 0, _entities, dent)
+            check_ccore_error()
 
             ii0 = (cmesh.tdim + 1) * cmesh.tdim + 0
             cconn = _create_cconn(cmesh.mesh.topology.conn[ii0],
@@ -411,6 +415,7 @@ cdef class CMesh:
 
         # This call can create several (intermediate) connectivities.
         mesh_setup_connectivity(self.mesh, d1, d2)
+        check_ccore_error()
 
         self._update_pointers()
         self._update_num()
@@ -534,6 +539,7 @@ cdef class CMesh:
         _entities.indices = &entities[0]
 
         num = mesh_count_incident(self.mesh, dim, _entities, dent)
+        check_ccore_error()
 
         indices = np.empty(num, dtype=np.uint32)
         offsets = np.empty(_entities.num + 1, dtype=np.uint32)
@@ -544,6 +550,7 @@ cdef class CMesh:
             _incident.indices = &indices[0]
             _incident.offsets = &offsets[0]
             mesh_get_incident(self.mesh, _incident, dim, _entities, dent)
+            check_ccore_error()
 
         else:
             offsets[:] = 0
@@ -587,6 +594,7 @@ cdef class CMesh:
         _local_ids.num = _incident.n_incident
         _local_ids.indices = &out[0]
         mesh_get_local_ids(self.mesh, _local_ids, _entities, dent, _incident, dim)
+        check_ccore_error()
 
         return out
 
@@ -610,6 +618,7 @@ cdef class CMesh:
         _entities.indices = &entities[0]
 
         mesh_select_complete(self.mesh, mask, dim, _entities, dent)
+        check_ccore_error()
 
         out = np.empty(mask.n_true, dtype=np.uint32)
 
@@ -674,6 +683,7 @@ cdef class CMesh:
             out = np.empty((self.mesh.topology.num[dim],),
                            dtype=np.float64)
             mesh_get_volumes(self.mesh, &out[0], dim)
+            check_ccore_error()
 
         return out
 
@@ -700,6 +710,7 @@ cdef class CMesh:
                           ccf.n_incident//2)[:, None]
         else:
             mesh_get_facet_normals(self.mesh, &out[0, 0], which)
+            check_ccore_error()
 
         return out
 
diff --git a/sfepy/discrete/common/extmods/crefcoors.pyx b/sfepy/discrete/common/extmods/crefcoors.pyx
index 90fa552..3556177 100644
--- a/sfepy/discrete/common/extmods/crefcoors.pyx
+++ b/sfepy/discrete/common/extmods/crefcoors.pyx
@@ -107,6 +107,7 @@ def find_ref_coors_convex(
                                 _ics, n_ics,
                                 allow_extrapolation, qp_eps, close_limit,
                                 ctx.ctx)
+    _f.check_ccore_error()
 
 @cython.boundscheck(False)
 def find_ref_coors(
@@ -144,6 +145,7 @@ def find_ref_coors(
                          _offsets, n_offsets,
                          allow_extrapolation, qp_eps, close_limit,
                          ctx.ctx)
+    _f.check_ccore_error()
 
 @cython.boundscheck(False)
 cpdef evaluate_in_rc(float64[:, :, ::1] out,
diff --git a/sfepy/discrete/fem/extmods/bases.pyx b/sfepy/discrete/fem/extmods/bases.pyx
index 2b157e2..45e1ac8 100644
--- a/sfepy/discrete/fem/extmods/bases.pyx
+++ b/sfepy/discrete/fem/extmods/bases.pyx
@@ -236,5 +236,6 @@ cdef class CLagrangeContext:
         _f.array2fmfield2(_coors, coors)
 
         self.ctx.eval_basis(_out, _coors, diff, ctx)
+        _f.check_ccore_error()
 
         return out
diff --git a/sfepy/discrete/fem/extmods/lobatto_bases.pyx b/sfepy/discrete/fem/extmods/lobatto_bases.pyx
index 0ce511e..8186197 100644
--- a/sfepy/discrete/fem/extmods/lobatto_bases.pyx
+++ b/sfepy/discrete/fem/extmods/lobatto_bases.pyx
@@ -39,6 +39,7 @@ def eval_lobatto1d(float64[::1] coors not None,
     _f.array2fmfield1(_out, out)
 
     _eval_lobatto1d(_out, _coors, order)
+    _f.check_ccore_error()
 
     return out
 
@@ -76,5 +77,6 @@ def eval_lobatto_tensor_product(float64[:, ::1]
     _f.array2fmfield3(_out, out)
 
     _eval_lobatto_tensor_product(_out, _coors, _nodes, cmin, cmax, diff)
+    _f.check_ccore_error()
 
     return out
diff --git a/sfepy/discrete/iga/extmods/igac.pyx b/sfepy/discrete/iga/extmods/igac.pyx
index 54be305..72e7f64 100644
--- a/sfepy/discrete/iga/extmods/igac.pyx
+++ b/sfepy/discrete/iga/extmods/igac.pyx
@@ -17,7 +17,8 @@ from sfepy.discrete.common.extmods._fmfield cimport (FMField,
                                                      array2puint1,
                                                      fmf_pretend_nc,
                                                      fmf_alloc,
-                                                     fmf_free)
+                                                     fmf_free,
+                                                     check_ccore_error)
 
 cdef extern from 'common.h':
     void *pyalloc(size_t size)
@@ -249,6 +250,7 @@ cdef class CNURBSContext:
         array2fmfield2(_coors, coors)
 
         self.ctx.eval_basis(_out, _coors, diff, ctx)
+        check_ccore_error()
 
         return out
 
-- 
2.43.0


From 7890af4550b2e8ff8d5feb167e9e03cfdd3bd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 12/63] fix: do not multiply cached variable values in place in
 IntegrateTerm

---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..cb295ea 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From 4dc198d48299662cb3625fda8dacbbd3e12c68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 13/63] fix: do not modify material data in
 SaintVenantKirchhoffTLTerm

---
 sfepy/terms/terms_hyperelastic_tl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..f7f6d8f 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -504,14 +504,14 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
 
     def stress_function(self, out, mat, *fargs, **kwargs):
         sym_e = fargs[0]
-        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
+        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0]).copy()
         dim = self.region.dim
         mat[:, :, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
-        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
+        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0]).copy()
         dim = self.region.dim
         mat[:, :, dim:, :] *= 2 # fix shear components
         out[:] = mat
-- 
2.43.0


From c0d36b31d4150667c3e970a9e9435f89c9d86e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 14/63] fix: do not normalize or scale argument arrays in place

get_perpendiculars() modified the normal vector of its caller,
match_plane_by_dir() its direction, animate_1D_DG_sol() the coordinates.
---
 sfepy/discrete/dg/dg_1D_vizualizer.py | 2 +-
 sfepy/discrete/fem/periodic.py        | 2 +-
 sfepy/linalg/geometry.py              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/dg/dg_1D_vizualizer.py b/sfepy/discrete/dg/dg_1D_vizualizer.py
index 6190bb4..6b067d2 100644
--- a/sfepy/discrete/dg/dg_1D_vizualizer.py
+++ b/sfepy/discrete/dg/dg_1D_vizualizer.py
@@ -503,7 +503,7 @@ def animate_1D_DG_sol(coors, t0, t1, u,
     XS = nm.linspace(X1, XN, 500)[:, None]
 
     if polar: # setup polar coorinates
-        coors *= 2*nm.pi
+        coors = coors * 2*nm.pi
         X *= 2*nm.pi
         XS *= 2*nm.pi
 
diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..c011650 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -67,7 +67,7 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
         if direction is not None:
             direction = nm.asarray(direction, dtype=nm.float64).reshape((3, 1))
             direction = direction[:coors1.shape[1]]
-            direction /= nm.linalg.norm(direction)
+            direction = direction / nm.linalg.norm(direction)
             x0p = coors1[0] - coors2
             dist = nm.linalg.norm(x0p - nm.dot(x0p, direction) * direction.T,
                                   axis=1)
diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index 55c4e63..27cf9c6 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -257,7 +257,7 @@ def get_perpendiculars(vec):
     mutually perpendicular unit vectors perpendicular to it in 3D.
     """
     nvec = nm.linalg.norm(vec)
-    vec /= nvec
+    vec = vec / nvec
 
     if vec.shape[0] == 2:
         out = nm.array([vec[1], -vec[0]], dtype=nm.float64)
-- 
2.43.0


From b51455117efff1d356cb069fe0169d499bb8ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 15/63] fix: do not modify lists and dictionaries passed as
 arguments

Coefficients, region names, solver configurations, time histories, plot
options and var_dict of Problem.create_evaluable() were changed for the
caller.
---
 sfepy/discrete/common/domain.py      | 4 ++--
 sfepy/discrete/problem.py            | 2 +-
 sfepy/homogenization/coefficients.py | 5 ++---
 sfepy/postprocess/plot_cmesh.py      | 1 +
 sfepy/postprocess/time_history.py    | 2 +-
 sfepy/solvers/auto_fallback.py       | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..4297d6e 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -385,8 +385,8 @@ class Domain(Struct):
         n_nod = self.shape.n_nod
 
         # The whole domain region should go first.
-        names = (region_names if region_names is not None
-                 else self.regions.get_names())
+        names = list(region_names if region_names is not None
+                     else self.regions.get_names())
         for name in names:
             region = self.regions[name]
             if region.vertices.shape[0] == n_nod:
diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index d80fe11..e25c085 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1790,7 +1790,7 @@ class Problem(Struct):
         from sfepy.discrete.equations import get_expression_arg_names
 
         variables = Variables(get_default(var_dict, {}).values())
-        var_context = get_default(var_dict, {})
+        var_context = dict(get_default(var_dict, {}))
 
         if try_equations and self.equations is not None:
             # Make a copy, so that possible variable caches are preserved.
diff --git a/sfepy/homogenization/coefficients.py b/sfepy/homogenization/coefficients.py
index 67bb920..30e348d 100644
--- a/sfepy/homogenization/coefficients.py
+++ b/sfepy/homogenization/coefficients.py
@@ -164,9 +164,8 @@ class Coefficients(Struct):
                 adict_complex[key + '_real'] = val.real
                 adict_complex[key + '_imag'] = val.imag
                 toremove.append(key)
-        for key in toremove:
-            del(adict[key])
-
+        adict = {key : val for key, val in adict.items()
+                 if key not in toremove}
         adict.update(adict_complex)
 
         for key, val in ordered_iteritems(adict):
diff --git a/sfepy/postprocess/plot_cmesh.py b/sfepy/postprocess/plot_cmesh.py
index 8711bf0..17a752a 100644
--- a/sfepy/postprocess/plot_cmesh.py
+++ b/sfepy/postprocess/plot_cmesh.py
@@ -112,6 +112,7 @@ def plot_cmesh(ax, cmesh, wireframe_opts=None, entities_opts=None):
     if entities_opts is None: entities_opts = [{}] * dim
     for ii, entity_opts in enumerate(entities_opts):
         if entity_opts.get('color') is not None:
+            entity_opts = entity_opts.copy()
             fsg = entity_opts.pop('label_global', 0)
             fsl = entity_opts.pop('label_local', 0)
             size = entity_opts.pop('size', 10)
diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 26ac181..5491b46 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -213,7 +213,7 @@ def average_vertex_var_in_cells(ths_in):
 
 def save_time_history(ths, ts, filename_out):
     """Save time history and time-stepping information in a HDF5 file."""
-    ths.update({'times' : ts.times, 'dt' : ts.dt})
+    ths = dict(ths, times=ts.times, dt=ts.dt)
     write_dict_hdf5(filename_out, ths)
 
 def guess_time_units(times):
diff --git a/sfepy/solvers/auto_fallback.py b/sfepy/solvers/auto_fallback.py
index f8407a4..b8c93e6 100644
--- a/sfepy/solvers/auto_fallback.py
+++ b/sfepy/solvers/auto_fallback.py
@@ -23,7 +23,7 @@ class AutoFallbackSolver(Solver):
             dconf = conf.to_dict()
 
         else:
-            dconf = conf
+            dconf = conf.copy()
 
         dconf.pop('kind', None)
         ls_solvers = [(ls, Struct(**_conf) + Struct(kind=ls) + Struct(**dconf))
-- 
2.43.0


From 7bd49295d6064256e66a441102652075f067902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 16/63] fix: use of undefined names in rare and error paths

---
 sfepy/base/reader.py            | 3 ++-
 sfepy/discrete/iga/fields.py    | 4 ++--
 sfepy/linalg/sparse.py          | 4 ++--
 sfepy/solvers/ts_controllers.py | 2 +-
 sfepy/terms/terms.py            | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/reader.py b/sfepy/base/reader.py
index c267770..49c1cdb 100644
--- a/sfepy/base/reader.py
+++ b/sfepy/base/reader.py
@@ -38,7 +38,8 @@ class Reader( Struct ):
         filename = op.join( self.directory, name + '.py' )
 
         aux = {}
-        execfile( filename, {}, aux )
+        with open(filename, 'r') as fd:
+            exec(compile(fd.read(), filename, 'exec'), {}, aux)
 
         obj = obj_class()
         for key, val in aux.items():
diff --git a/sfepy/discrete/iga/fields.py b/sfepy/discrete/iga/fields.py
index 7e602f4..6f0abf6 100644
--- a/sfepy/discrete/iga/fields.py
+++ b/sfepy/discrete/iga/fields.py
@@ -245,8 +245,8 @@ class IGField(Field):
     def setup_extra_data(self, info):
         dcts = set([k for k, _ in info.dof_conn_types.values()])
 
-        if (len(dcts) != 1) or (dcts.pop() != 'cell'):
-            raise ValueError('unknown dof connectivity type! (%s)' % dct)
+        if dcts != set(['cell']):
+            raise ValueError('unknown dof connectivity type! (%s)' % dcts)
 
     def create_mapping(self, region, integral, integration):
         """
diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 5da7fa6..a23c267 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -19,8 +19,8 @@ def save_sparse_txt(filename, mtx, fmt='%d %d %f\n'):
 
     elif mtx.format == 'csc':
         indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
-        for ic in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
+        for ic in range(mtx.shape[1]):
+            for ii in range(indptr[ic], indptr[ic+1]):
                 fd.write(fmt % (indices[ii], ic, data[ii]))
 
     else:
diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index cbe1374..c84a407 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -348,7 +348,7 @@ class Term(Struct):
             name, arg_str = arg_str.groups()
 
         else:
-            raise ValueError('bad term syntax! (%s)' % name)
+            raise ValueError('bad term syntax! (%s)' % name_args)
 
         if name in term_table:
             constructor = term_table[name]
-- 
2.43.0


From 34af4f3da2d87214f9d7463ad7a7e6e389f9ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 17/63] fix: unbound names in solvers on early exits

---
 sfepy/solvers/nls.py      | 3 +++
 sfepy/solvers/optimize.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..cd4a00f 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -141,6 +141,7 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
     """
     ls = 1.0
     vec_dx = vec_dx0
+    vec_r, err = vec_r0, err_last
 
     while 1:
         vec_x = vec_x0 - vec_dx
@@ -283,6 +284,7 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
 
     ls = 1.0
     vec_dx = vec_dx0
+    vec_r, err = vec_r0, err_last
 
     variables = pb.get_variables()
 
@@ -539,6 +541,7 @@ class Newton(NonlinearSolver):
             svec_dx = lin_solver(svec_r, x0=svec_x,
                                  eps_a=eps_a, eps_r=eps_r,
                                  status=ls_status)
+            smtx_a = lin_solver.mtx
 
         vec_dx = scale_solution(svec_dx, self.context)
         timers.solve.stop()
diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index e299c72..1f2e118 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -174,6 +174,7 @@ class FMinSteepestDescent(OptimizationSolver):
         time_stats = {'of' : tt_of, 'ofg': tt_ofg, 'check' : []}
 
         ofg = None
+        alpha = conf.ls0
 
         it = 0
         xit = x0.copy()
-- 
2.43.0


From 4190bf34ef8ed26de273f31a472ff71b5c043492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 18/63] fix: unbound names and endless loop in mesh file
 readers and writers

---
 sfepy/discrete/fem/meshio.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..1d97fab 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1577,18 +1577,17 @@ class NEUMeshIO(MeshIO):
 
         fd = open(self.filename, 'r')
 
-        row = fd.readline().split()
-        while 1:
-            if not row:
-                break
-            if len(row) == 0:
-                continue
-
-            if (row[0] == 'NUMNP'):
+        for line in iter(fd.readline, ''):
+            row = line.split()
+            if len(row) and (row[0] == 'NUMNP'):
                 row = fd.readline().split()
-                n_nod, n_el, dim = row[0], row[1], int(row[4])
+                dim = int(row[4])
                 break
 
+        else:
+            fd.close()
+            raise ValueError('no NUMNP section in %s!' % self.filename)
+
         if ret_fd:
             return dim, fd
         else:
@@ -1718,6 +1717,7 @@ class ANSYSCDBMeshIO(MeshIO):
 
     @staticmethod
     def guess(filename):
+        ok = False
         fd = open(filename, 'r')
 
         for ii in range(1000):
@@ -1732,9 +1732,6 @@ class ANSYSCDBMeshIO(MeshIO):
                 ok = True
                 break
 
-        else:
-            ok = False
-
         fd.close()
 
         return ok
@@ -2146,6 +2143,7 @@ class GmshIO(MeshioLibIO):
             elif ls == "$ElementNodeData":
                 n_str_tags = int(skip_read_line(fd))
                 data_name = skip_read_line(fd).strip('"\'')
+                scheme_name = None
                 if n_str_tags == 2:
                     scheme_name = skip_read_line(fd).strip('"\'')
                 n_float_tags =  int(skip_read_line(fd))
@@ -2174,7 +2172,7 @@ class GmshIO(MeshioLibIO):
 
         # add schemes read later than data
         for key, val in out.items():
-            if val.scheme is None:
+            if (val.scheme is None) and (val.scheme_name is not None):
                 val.scheme = schemes[val.scheme_name]
 
         return out
@@ -2219,6 +2217,7 @@ class GmshIO(MeshioLibIO):
         for key, value in out.items():
             if not value.mode == "cell_nodes":
                 continue
+            scheme_name = None
             if value.scheme is not None:
                 self._write_interpolation_scheme(fd, value.scheme)
                 scheme_name = value.scheme.name
-- 
2.43.0


From 5af6631a65209f61454690c6d89cc8a1c68fe01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 19/63] fix: undefined function and unbound names in scripts

---
 sfepy/scripts/convert_mesh.py | 2 +-
 sfepy/scripts/probe.py        | 2 +-
 sfepy/scripts/resview.py      | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/scripts/convert_mesh.py b/sfepy/scripts/convert_mesh.py
index 2402d4e..583849c 100644
--- a/sfepy/scripts/convert_mesh.py
+++ b/sfepy/scripts/convert_mesh.py
@@ -396,7 +396,7 @@ def main():
         if isinstance(cgroup, str):
             cgroup = literal_eval(cgroup)
 
-        mesh = mt.get_mesh_by(mesh, cgroup)
+        mesh = mt.get_mesh_by_cgroup(mesh, cgroup)
 
     if options.extract_by_nodegroup is not None:
         ngroup = options.extract_by_nodegroup
diff --git a/sfepy/scripts/probe.py b/sfepy/scripts/probe.py
index 2340986..48e9f54 100755
--- a/sfepy/scripts/probe.py
+++ b/sfepy/scripts/probe.py
@@ -144,7 +144,7 @@ def generate_probes(filename_input, filename_results, options,
             if isinstance(out, tuple):
                 fig, results = out
             else:
-                fig = out
+                fig, results = out, None
 
             if key is not None:
                 filename = filename_template % (key, ip)
diff --git a/sfepy/scripts/resview.py b/sfepy/scripts/resview.py
index 47faea1..ec3a982 100755
--- a/sfepy/scripts/resview.py
+++ b/sfepy/scripts/resview.py
@@ -194,8 +194,7 @@ def read_mesh(filenames, step=None, print_info=True, ret_n_steps=False,
 
             if not reader.num_steps:
                 grid = pv.UnstructuredGrid(offset, cells, cell_type, points)
-                add_mat_id_to_grid(grid, mesh.cmesh.cell_groups)
-                cache[(fname, 0)] = (0.0, grid)
+                cache[(fname, 0)] = ((0, 0.0), grid)
 
             grids = {}
             time = []
-- 
2.43.0


From d3b2309ba45b0bbe1b2139f206565de96114efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 20/63] fix: unbound names with rare arguments of fields,
 probes, quadratures, meshes

---
 sfepy/discrete/dg/fields.py         | 10 ++++++++++
 sfepy/discrete/fem/fields_nodal.py  |  3 ++-
 sfepy/discrete/probes.py            |  7 ++++++-
 sfepy/discrete/quadratures.py       |  5 ++++-
 sfepy/discrete/variables.py         | 16 +++-------------
 sfepy/homogenization/homogen_app.py |  1 +
 sfepy/mesh/geom_tools.py            | 13 +++++++------
 sfepy/mesh/mesh_generators.py       |  5 ++++-
 8 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index 26701c9..1cbbe91 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -1142,6 +1142,9 @@ class DGField(FEField):
             nods, vals = self.set_cell_dofs(fun, region, dpn, warn)
         elif region.kind_tdim == self.dim - 1:
             nods, vals = self.set_facet_dofs(fun, region, dpn, warn)
+        else:
+            raise ValueError('region "%s" has neither cells nor facets!'
+                             % region.name)
 
         if not nm.isfinite(vals).all():
             raise ValueError(f'infs or nans in DOF values set with {fun}!')
@@ -1185,6 +1188,10 @@ class DGField(FEField):
             if nm.shape(fun) == nm.shape(nods):
                 vals = fun
 
+            else:
+                raise ValueError('bad shape of DOF values! (%s == %s)'
+                                 % (nm.shape(fun), nm.shape(nods)))
+
         elif callable(fun):
 
             qp, weights = self.integral.get_qp(self.gel.name)
@@ -1214,6 +1221,9 @@ class DGField(FEField):
             # plt.plot(xx, ww[:, 0], label="reconstructed dofs")
             # plt.show()
 
+        else:
+            raise ValueError('unknown type of DOF values! (%s)' % type(fun))
+
         return nods, vals
 
     def set_facet_dofs(self, fun, region, dpn, warn):
diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..b6b5a36 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -194,12 +194,13 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
 
                 return key
 
+            gedges = self.gel.edges
+
             if subs[0] is not None:
                 ef = self.efaces
                 epf = self.gel.get_edges_per_face()
                 nde = self.node_desc.edge
                 ndf = self.node_desc.face
-                gedges = self.gel.edges
                 gfaces = self.gel.faces
 
                 for ii, sub in enumerate(subs[0]):
diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..7c7db01 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -377,7 +377,12 @@ class Probe(Struct):
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
+                if self.options.size_hint is None:
+                    pd1 = 0.5 * (ed[0] + ed[-1])
+
+                else:
+                    pd1 = pd
+
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..0cf250b 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,11 +152,14 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
+            dim = int(geometry[0])
             if not full_order:
                 order1d = order
-                dim = int(geometry[0])
                 order = dim * order1d
 
+            else:
+                order1d = -(-order // dim)
+
             if order <= max_orders[geometry]:
                 order = get_actual_order(geometry, order)
                 qp = table[order]
diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..7ed756c 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -16,7 +16,6 @@ from sfepy.discrete.common.dof_info import (DofInfo, EquationMap,
                                             expand_nodes_to_equations,
                                             is_active_bc)
 from sfepy.discrete.fem.lcbc_operators import LCBCOperators
-from sfepy.discrete.common.mappings import get_physical_qps
 from sfepy.discrete.evaluate_variable import eval_real, eval_complex
 
 is_state = 0
@@ -2042,9 +2041,7 @@ class FieldVariable(Variable):
             coors = self.field.get_coor()
 
         elif strategy == 'projection':
-            region = self.field.region
-            integral = Integral(term=interp_term)
-            coors = get_physical_qps(region, integral)
+            raise NotImplementedError('unsupported strategy! (%s)' % strategy)
 
         else:
             raise ValueError('unknown interpolation strategy! (%s)' % strategy)
@@ -2104,7 +2101,7 @@ class FieldVariable(Variable):
         elif strategy == 'projection':
             ## interp_term = Term() # TODO
             ## coors = self.get_interp_coors(strategy, interp_term)
-            pass
+            raise NotImplementedError('unsupported strategy! (%s)' % strategy)
 
         else:
             raise ValueError('unknown interpolation strategy! (%s)' % strategy)
@@ -2112,14 +2109,7 @@ class FieldVariable(Variable):
         vals = other.evaluate_at(coors, strategy='general',
                                  close_limit=close_limit)
 
-        if strategy == 'interpolation':
-            self.set_data(vals)
-
-        elif strategy == 'projection':
-            raise NotImplementedError('unsupported strategy! (%s)' % strategy)
-
-        else:
-            raise ValueError('unknown interpolation strategy! (%s)' % strategy)
+        self.set_data(vals)
 
 
 class DGFieldVariable(FieldVariable):
diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index d044def..4be89bb 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -164,6 +164,7 @@ class HomogenizationApp(PDESolverApp):
                                 vname, macro_data, mul)
                         else:
                             state += macro_data[..., 0]
+                            state0 = state
 
                         if state0 is not state:
                             self.micro_states[key] = state0
diff --git a/sfepy/mesh/geom_tools.py b/sfepy/mesh/geom_tools.py
index 9916731..a12c68a 100644
--- a/sfepy/mesh/geom_tools.py
+++ b/sfepy/mesh/geom_tools.py
@@ -238,12 +238,13 @@ class geometry:
                 for hole in x2.getholepoints():
                     hole_pts.append(hole.getxyz())
 
-        # regions
-        for x in self.phys2.values():
-            assert isinstance(x, physicalsurface)
-            for x2 in x.getsurfaces():
-                if not x2.is_hole:
-                    regions.append(x2.getinsidepoint().getxyz() + [x.getn()])
+            # regions
+            for x in self.phys2.values():
+                assert isinstance(x, physicalsurface)
+                for x2 in x.getsurfaces():
+                    if not x2.is_hole:
+                        regions.append(x2.getinsidepoint().getxyz()
+                                       + [x.getn()])
 
             # number of facets, boundary markers=yes
             s += "# segments\n%d 1\n" % len(facets)
diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..2ce0f6f 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -468,9 +468,12 @@ def tiled_mesh1d(conn, coors, ngrps, idim, n_rep, bb, eps=1e-6, ndmap=False):
 
     if type(ndmap) is bool:
         ret_ndmap = ndmap
+        ndmap = None
 
     else:
-        ret_ndmap= True
+        ret_ndmap = True
+
+    if ret_ndmap:
         ndmap_out = nm.zeros((nnod,), dtype=nm.int32)
 
     el_off = 0
-- 
2.43.0


From dcf4ca40486896fb3716279022860ba379c8e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 21/63] fix: detect C errors reported across extension modules

Each extension module has its own copy of the C error flag. An error that
occurred in a basis function called through a context pointer was not detected
by evaluate_in_rc(), and left the flag set, so that the basis was silently not
evaluated in subsequent calls of evaluate_in_rc() and find_ref_coors().
---
 sfepy/discrete/common/extmods/_fmfield.pxd  | 6 ++++--
 sfepy/discrete/common/extmods/crefcoors.pyx | 2 ++
 sfepy/discrete/fem/extmods/lagrange.c       | 8 ++++++++
 sfepy/discrete/iga/extmods/nurbs.c          | 3 +++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/_fmfield.pxd b/sfepy/discrete/common/extmods/_fmfield.pxd
index 00fd375..10c60e5 100644
--- a/sfepy/discrete/common/extmods/_fmfield.pxd
+++ b/sfepy/discrete/common/extmods/_fmfield.pxd
@@ -1,6 +1,7 @@
 # -*- Mode: Python -*-
 # cython: language_level=3
 from libc.stdio cimport FILE, stdout
+from cpython.exc cimport PyErr_Occurred
 
 cimport numpy as np
 import numpy as np
@@ -14,11 +15,12 @@ cdef inline int check_ccore_error() except -1:
     """
     If an error occurred in C code, clear the C error flag, so that subsequent
     calls are not influenced, and propagate the exception set by errput() or
-    errset().
+    errset(). The error could be reported also by a function of another
+    extension module, that has its own C error flag.
     """
     global g_error
 
-    if g_error:
+    if g_error or (PyErr_Occurred() is not NULL):
         g_error = 0
         return -1
 
diff --git a/sfepy/discrete/common/extmods/crefcoors.pyx b/sfepy/discrete/common/extmods/crefcoors.pyx
index 3556177..49e3a7e 100644
--- a/sfepy/discrete/common/extmods/crefcoors.pyx
+++ b/sfepy/discrete/common/extmods/crefcoors.pyx
@@ -240,3 +240,5 @@ cpdef evaluate_in_rc(float64[:, :, ::1] out,
             _f.fmf_fillC(_out, 0.0)
 
     pyfree(buf)
+
+    _f.check_ccore_error()
diff --git a/sfepy/discrete/fem/extmods/lagrange.c b/sfepy/discrete/fem/extmods/lagrange.c
index 0fa5949..c0b78c4 100644
--- a/sfepy/discrete/fem/extmods/lagrange.c
+++ b/sfepy/discrete/fem/extmods/lagrange.c
@@ -151,6 +151,9 @@ int32 get_xi_dist(float64 *pdist, FMField *xi,
   int32 ii, ok;
   float64 dist = 0.0, val, aux;
 
+  // Can be called from other extension modules having their own error flag.
+  ERR_Clear;
+
   if (n_v == (dim + 1)) {
     get_xi_simplex(xi, point, e_coors, ctx);
 
@@ -337,6 +340,9 @@ int32 eval_basis_lagrange(FMField *out, FMField *coors, int32 diff,
   FMField cell_coors[1], mtxMR[1], mtxMRI[1];
   FMField bf1[1], gbfg1[1], bfg1[1];
 
+  // Can be called from other extension modules having their own error flag.
+  ERR_Clear;
+
   fmf_pretend_nc(_coors, 1, coors->nRow, 1, coors->nCol, coors->val);
   fmf_pretend_nc(coor, 1, 1, 1, dim, 0);
   fmf_pretend_nc(bf1, 1, 1, out->nRow, out->nCol, 0);
@@ -414,6 +420,8 @@ int32 eval_basis_lagrange(FMField *out, FMField *coors, int32 diff,
     }
   }
 
+  ERR_CheckGo(ret);
+
   if (diff && is_dx) {
     ele_extractNodalValuesNBN(cell_coors, geo_ctx->mesh_coors,
                               geo_ctx->mesh_conn + n_cp * ctx->iel);
diff --git a/sfepy/discrete/iga/extmods/nurbs.c b/sfepy/discrete/iga/extmods/nurbs.c
index 313d878..0036645 100644
--- a/sfepy/discrete/iga/extmods/nurbs.c
+++ b/sfepy/discrete/iga/extmods/nurbs.c
@@ -211,6 +211,9 @@ int32 eval_basis_nurbs(FMField *out, FMField *coors, int32 diff,
   FMField bf[1], _coors[1], qp[1], _det[1], _dx_dxi[1], _dxi_dx[1];
   float64 buf1[1], buf9_1[9], buf9_2[9];
 
+  // Can be called from other extension modules having their own error flag.
+  ERR_Clear;
+
   fmf_pretend_nc(_coors, 1, coors->nRow, 1, coors->nCol, coors->val);
   fmf_pretend_nc(qp, 1, 1, 1, dim, 0);
   fmf_pretend_nc(bf, 1, 1, out->nRow, out->nCol, 0);
-- 
2.43.0


From 6f2bc96f4307a7627b341c70cfc88b924b212b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 22/63] fix: index history data of variables by -step

The data of the step -n are stored in self.data[n], but set_data(),
set_from_qp() and get_state_in_region() indexed by the step itself, so that with
a history of two or more steps a wrong step was accessed. set_from_qp() did not
invalidate the evaluation cache.
---
 sfepy/discrete/variables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 7ed756c..565bc2c 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1305,7 +1305,7 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
+            self.data[-step] = data
             self.indx = indx
 
         if not preserve_caches:
@@ -1516,7 +1516,8 @@ class FieldVariable(Variable):
         data = data.ravel()
         self.indx = slice(0, len(data))
 
-        self.data[step] = data
+        self.data[-step] = data
+        self.invalidate_evaluate_cache(step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1793,7 +1794,7 @@ class FieldVariable(Variable):
             eq[idof::self.n_components] = self.n_components * nods \
                                           + idof + self.indx.start
 
-        out = self.data[step][eq]
+        out = self.data[-step][eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From 5b16e290dc59364c7fdfdbb25549a3a56f157834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 23/63] fix: stale cached evaluations of variables

- time derivatives depend on the data of two steps and on dt,
- the cached values of the steps shifted out in advance() were kept,
- init_history() did not reset the cache,
- values evaluated with a given basis were stored under the key of the field basis.
---
 sfepy/discrete/variables.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 565bc2c..4936154 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1203,6 +1203,7 @@ class Variable(Struct):
 
         self.data = (self.history + 1) * [None]
         self.step = 0
+        self.evaluate_cache = {}
 
     def time_update(self, ts, functions):
         """Implemented in subclasses."""
@@ -1239,11 +1240,10 @@ class Variable(Struct):
                             if hasattr(val, '__advance__'):
                                 val.__advance__(ts, val)
 
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                    else:
+                        cache = step_cache.pop(step)
+                        if -step < self.history:
+                            step_cache[step-1] = cache
 
     def init_data(self, step=0):
         """
@@ -1664,9 +1664,15 @@ class FieldVariable(Variable):
         This should be done, for example, prior to every nonlinear
         solver iteration.
         """
+        # The time derivatives in the next step depend on this step data, too.
+        steps = [step, step + 1]
+        if (self.step == 0) and (step == 0):
+            # Current step data stand for the previous step, see __call__().
+            steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
             for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
+                if key in steps: # Time steps to clear.
                     step_cache.pop(key)
 
     def evaluate(self, mode='val',
@@ -1744,6 +1750,11 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            key += (get_default(dt, self.dt),)
+
+        if bf is not None: # Values depend on the given basis, do not cache.
+            cache = {}
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
-- 
2.43.0


From e669f466187390f21ff1e5d65cd90fa9a045d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 24/63] fix: do not reuse matched boundary nodes of another
 mesh in tiled_mesh1d()

The cached matches are identified only by the number of nodes and the
direction.
---
 sfepy/mesh/mesh_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index 2ce0f6f..6bd35f5 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -460,7 +460,7 @@ def tiled_mesh1d(conn, coors, ngrps, idim, n_rep, bb, eps=1e-6, ndmap=False):
     dd = nm.zeros((dim,), dtype=nm.float64)
     dd[idim] = bb[1] - bb[0]
 
-    m1, m2 = match_grid_plane(coors[s1], coors[s2], idim)
+    m1, m2 = match_grid_plane(coors[s1], coors[s2], idim, get_saved=False)
 
     oconn = nm.zeros((nel, nnel), dtype=nm.int32)
     ocoors = nm.zeros((nnod, dim), dtype=nm.float64)
-- 
2.43.0


From c814924bc411ffce8cf57a87a75fbc305c3501b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 25/63] fix: stale stress in tangents of hyperelastic terms

The stress cached by the last residual evaluation was used in the tangent matrix
even when the state or material data changed in between.
---
 sfepy/terms/terms_hyperelastic_base.py | 9 +++++----
 sfepy/terms/terms_hyperelastic_tl.py   | 7 ++++---
 sfepy/terms/terms_hyperelastic_ul.py   | 7 ++++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..62c18f9 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -156,7 +156,7 @@ class HyperElasticBase(Term):
     def __init__(self, *args, **kwargs):
         Term.__init__(self, *args, **kwargs)
 
-        self.stress_cache = None
+        self.stress_cache = (None, None, None)
 
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
@@ -195,14 +195,15 @@ class HyperElasticBase(Term):
         if mode == 'weak':
             if diff_var is None:
                 stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
+                self.stress_cache = (fd, mat, stress)
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
+                # Reuse the residual stress only for the same data.
+                fd0, mat0, stress = self.stress_cache
+                if (fd0 is not fd) or (mat0 is not mat):
                     stress = self.compute_stress(mat, fd, **kwargs)
 
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index f7f6d8f..dae6e2b 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -646,14 +646,15 @@ class BulkPressureTLTerm(HyperElasticTLBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
+                    self.stress_cache = (fd, fd.p_qp, stress)
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
+                    # Reuse the residual stress only for the same data.
+                    fd0, p_qp0, stress = self.stress_cache
+                    if (fd0 is not fd) or (p_qp0 is not fd.p_qp):
                         stress = self.compute_data(fd, 0, **kwargs)
 
                     tan_mod = self.compute_data(fd, 1, **kwargs)
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..81ac354 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -153,14 +153,15 @@ class BulkPressureULTerm(HyperElasticULBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
+                    self.stress_cache = (fd, fd.p_qp, stress)
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
+                    # Reuse the residual stress only for the same data.
+                    fd0, p_qp0, stress = self.stress_cache
+                    if (fd0 is not fd) or (p_qp0 is not fd.p_qp):
                         stress = self.compute_data(fd, 0, **kwargs)
 
                     tan_mod = self.compute_data(fd, 1, **kwargs)
-- 
2.43.0


From b822759e4e3b057a9c50858d09f07c7b1b3c6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 26/63] fix: stale fibre data in fibre terms

The fibre directions, strains and stresses cached by the stress evaluation of
one term were used for other states, materials and terms.
---
 sfepy/terms/terms_fibres.py | 90 ++++++++++++-------------------------
 1 file changed, 29 insertions(+), 61 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e02b6c2..347f471 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -1,6 +1,5 @@
 import numpy as nm
 
-from sfepy.base.base import Struct
 from sfepy.terms.terms_hyperelastic_tl import HyperElasticTLBase
 from sfepy.mechanics.tensors import dim2sym
 from sfepy.homogenization.utils import iter_sym
@@ -27,25 +26,6 @@ def compute_fibre_strain(green_strain, omega):
 
     return eps
 
-def _setdefault_fibre_data(self, state):
-    """
-    Returns `fibre_data` :class:``Struct`` for storing/caching fibre-related
-    data.
-    """
-    cache = self.set_default('fibre_cache', {})
-
-    _, _, key = self.get_mapping(state, return_key=True)
-
-    data_key = key + ('fibre_data',)
-    if data_key in cache:
-        fibre_data = cache[data_key]
-
-    else:
-        fibre_data = Struct()
-        cache[data_key] = fibre_data
-
-    return fibre_data
-
 class FibresActiveTLTerm(HyperElasticTLBase):
     r"""
     Hyperelastic active fibres term. Effective stress
@@ -79,8 +59,6 @@ class FibresActiveTLTerm(HyperElasticTLBase):
 
     def get_fargs(self, mat1, mat2, mat3, mat4, mat5, virtual, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        fibre_data = _setdefault_fibre_data(self, state)
-
         n_el, _, _, _, _ = self.get_data_shape(state)
         mat1 = HyperElasticTLBase.tile_mat(mat1, n_el)
         mat2 = HyperElasticTLBase.tile_mat(mat2, n_el)
@@ -92,31 +70,28 @@ class FibresActiveTLTerm(HyperElasticTLBase):
                                              (mat1, mat2, mat3, mat4, mat5),
                                              virtual, state,
                                              mode, term_mode, diff_var,
-                                             fibre_data=fibre_data,
                                              **kwargs)
         return fargs
 
     @staticmethod
-    def stress_function(out, pars, green_strain,
-                        fibre_data=None):
+    def stress_function(out, pars, green_strain):
         fmax, eps_opt, s, fdir, act = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
-
-        eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
+        omega = create_omega(fdir)
+        eps = compute_fibre_strain(green_strain, omega)
 
-        tau = fibre_data.tau = act * fmax * nm.exp(-((eps - eps_opt) / s)**2.0)
+        tau = act * fmax * nm.exp(-((eps - eps_opt) / s)**2.0)
 
         out[:] = omega * tau
 
     @staticmethod
-    def tan_mod_function(out, pars, green_strain,
-                         fibre_data=None):
+    def tan_mod_function(out, pars, green_strain):
         fmax, eps_opt, s, fdir, act = pars
 
-        omega, eps, tau = fibre_data.omega, fibre_data.eps, fibre_data.tau
+        omega = create_omega(fdir)
+        eps = compute_fibre_strain(green_strain, omega)
+
+        tau = act * fmax * nm.exp(-((eps - eps_opt) / s)**2.0)
 
         for ir in range(omega.shape[2]):
             for ic in range(omega.shape[2]):
@@ -165,8 +140,6 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
 
     def get_fargs(self, mat1, mat2, mat3, mat4, virtual, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        fibre_data = _setdefault_fibre_data(self, state)
-
         n_el, _, _, _, _ = self.get_data_shape(state)
         mat1 = HyperElasticTLBase.tile_mat(mat1, n_el)
         mat2 = HyperElasticTLBase.tile_mat(mat2, n_el)
@@ -177,22 +150,17 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
                                              (mat1, mat2, mat3, mat4),
                                              virtual, state,
                                              mode, term_mode, diff_var,
-                                             fibre_data=fibre_data,
                                              **kwargs)
         return fargs
 
     @staticmethod
-    def stress_function(out, pars, green_strain,
-                        fibre_data=None):
+    def stress_function(out, pars, green_strain):
         sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
-
-        eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
+        omega = create_omega(fdir)
+        eps = compute_fibre_strain(green_strain, omega)
 
-        tau = fibre_data.tau = nm.maximum(
+        tau = nm.maximum(
             0,
             sigma * (nm.exp(k * (eps - eps0)) - 1.0),
         )
@@ -200,11 +168,16 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
         out[:] = omega * tau
 
     @staticmethod
-    def tan_mod_function(out, pars, green_strain,
-                         fibre_data=None):
+    def tan_mod_function(out, pars, green_strain):
         sigma, k, eps0, fdir = pars
 
-        omega, eps, tau = fibre_data.omega, fibre_data.eps, fibre_data.tau
+        omega = create_omega(fdir)
+        eps = compute_fibre_strain(green_strain, omega)
+
+        tau = nm.maximum(
+            0,
+            sigma * (nm.exp(k * (eps - eps0)) - 1.0),
+        )
 
         for ir in range(omega.shape[2]):
             for ic in range(omega.shape[2]):
@@ -263,8 +236,6 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
     def get_fargs(self, mat0, mat1, mat2, mat3, mat4, virtual, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        fibre_data = _setdefault_fibre_data(self, state)
-
         mat0 = 50.0 if mat0 is None else mat0
 
         n_el, _, _, _, _ = self.get_data_shape(state)
@@ -277,22 +248,17 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
                                              (mat0, mat1, mat2, mat3, mat4),
                                              virtual, state,
                                              mode, term_mode, diff_var,
-                                             fibre_data=fibre_data,
                                              **kwargs)
         return fargs
 
     @staticmethod
-    def stress_function(out, pars, green_strain,
-                        fibre_data=None):
+    def stress_function(out, pars, green_strain):
         alpha, sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
-
+        omega = create_omega(fdir)
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = fibre_data.tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
@@ -300,11 +266,13 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
         out[:] = omega * tau
 
     @staticmethod
-    def tan_mod_function(out, pars, green_strain,
-                         fibre_data=None):
+    def tan_mod_function(out, pars, green_strain):
         alpha, sigma, k, eps0, fdir = pars
 
-        omega, tau0 = fibre_data.omega, fibre_data.tau0
+        omega = create_omega(fdir)
+        eps = compute_fibre_strain(green_strain, omega)
+
+        tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
 
         for ir in range(omega.shape[2]):
             for ic in range(omega.shape[2]):
-- 
2.43.0


From fe5ed476afe73ce4f47e65c3f98d91a50b44c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 27/63] fix: SoftPlus fibre stress in dw_tl_fib_spe

The effective stress is sigma * (exp(k * (eps - eps0)) - 1), as documented, and
as its derivative in the tangent modulus assumes.
---
 sfepy/terms/terms_fibres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 347f471..1370252 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -258,7 +258,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
         omega = create_omega(fdir)
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
@@ -272,7 +272,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
         omega = create_omega(fdir)
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
 
         for ir in range(omega.shape[2]):
             for ic in range(omega.shape[2]):
-- 
2.43.0


From d3ec21dacb99e920e571590885aceb72ad6e1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 28/63] fix: moving planes and spheres in contact terms

The contact plane and sphere were created only once, so that the changes of
their material parameters in time were ignored.
---
 sfepy/terms/terms_surface.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_surface.py b/sfepy/terms/terms_surface.py
index 1135a14..271e184 100644
--- a/sfepy/terms/terms_surface.py
+++ b/sfepy/terms/terms_surface.py
@@ -299,8 +299,7 @@ class ContactPlaneTerm(Term):
 
         force_pars = Term.tile_mat(force_pars, sg.n_el)
 
-        if self.cp is None:
-            self.cp = ContactPlane(anchor, normal, bounds)
+        self.cp = ContactPlane(anchor, normal, bounds)
 
         qps = self.get_physical_qps()
         qp_coors = qps.values
@@ -433,8 +432,7 @@ class ContactSphereTerm(ContactPlaneTerm):
 
         force_pars = Term.tile_mat(force_pars, sg.n_el)
 
-        if self.cs is None:
-            self.cs = ContactSphere(centre, radius)
+        self.cs = ContactSphere(centre, radius)
 
         qps = self.get_physical_qps()
         qp_coors = qps.values
-- 
2.43.0


From f4bee8772da3bba32a8df9248c6244883c03a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 29/63] fix: caches of multi-linear terms

- the prepared expression was reused in another evaluation mode,
- the DOFs cached for one DOF connectivity were used for another,
- arrays identified only by id() were replaced by others having the same id.
---
 sfepy/terms/terms_multilinear.py | 56 ++++++++++++++------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..23b3176 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -212,7 +212,8 @@ class ExpressionArg(Struct):
     def get_dofs(self, cache, expr_cache, oname):
         if self.kind != 'state': return
 
-        key = (self.name, self.term.region.name,
+        dct = self.term.get_dof_conn_type(self.name)
+        key = (self.name, self.term.region.name, dct,
                self.term.arg_derivatives[self.name])
         dofs = cache.get(key)
         if dofs is None:
@@ -222,8 +223,7 @@ class ExpressionArg(Struct):
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
             # axis 0: cells, axis 1: component, axis 2: node
-            conn = arg.field.get_econn(self.term.get_dof_conn_type(arg.name),
-                                       self.term.region)
+            conn = arg.field.get_econn(dct, self.term.region)
             dofs = dofs_vec[conn].transpose((0, 2, 1))
             if arg.n_components == 1:
                 dofs.shape = (dofs.shape[0], -1)
@@ -250,18 +250,11 @@ class ExpressionArg(Struct):
         else:
             bf = ag.bf
 
-        key = 'bf{}'.format(id(bf))
-        _bf  = expr_cache.get(key)
-
-        if cell_dependent:
-            if _bf is None:
-                _bf = bf[:, :, 0]
-                expr_cache[key] = _bf
-
-        else:
-            if _bf is None:
-                _bf = bf[0, :, 0]
-                expr_cache[key] = _bf
+        key = ('bf', self.name, cell_dependent)
+        bf0, _bf = expr_cache.get(key, (None, None))
+        if bf0 is not bf:
+            _bf = bf[:, :, 0] if cell_dependent else bf[0, :, 0]
+            expr_cache[key] = (bf, _bf)
 
         return _bf
 
@@ -612,17 +605,12 @@ class ExpressionBuilder(Struct):
 
                 else:
                     new_subs = ''.join([subs[ii] for ii in inew])
-                    if val_name == 'dofs':
-                        key = (oname,) + tuple(inew)
-
-                    else:
-                        # id is unique only during object lifetime!
-                        key = (id(op),) + tuple(inew)
-
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    # The copy is valid only for the same operand array.
+                    key = (oname, ia, io) + tuple(inew)
+                    op0, new_op = self.cache.get(key, (None, None))
+                    if op0 is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
@@ -829,13 +817,17 @@ class ETermBase(Term):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        key = (texpr, mode, diff_var)
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.key != key):
+            einfo = self.einfos[diff_var] = Struct(
+                key=key,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
-- 
2.43.0


From b06c76bd6f1b3ed7ace14da30f5ec7a8b774adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 30/63] fix: history and derivative arguments of terms

Some terms used the current step values of their variable arguments even if
another time step or the time derivative was requested.
---
 sfepy/terms/terms_adj_navier_stokes.py |  6 +++---
 sfepy/terms/terms_basic.py             |  3 ++-
 sfepy/terms/terms_contact.py           |  4 ++--
 sfepy/terms/terms_elastic.py           | 12 ++++++------
 sfepy/terms/terms_hyperelastic_tl.py   |  2 +-
 sfepy/terms/terms_mass.py              |  2 +-
 sfepy/terms/terms_membrane.py          |  3 ++-
 sfepy/terms/terms_multilinear.py       |  3 ++-
 sfepy/terms/terms_navier_stokes.py     |  8 ++++----
 sfepy/terms/terms_point.py             |  3 ++-
 10 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..b16eb73 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -143,7 +143,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return state(), val_u, grad_u, mat, vg, conn, fmode
+        return self.get_vector(state), val_u, grad_u, mat, vg, conn, fmode
 
 class SUPGPAdj1StabilizationTerm(Term):
     r"""
@@ -177,7 +177,7 @@ class SUPGPAdj1StabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return state(), grad_p, mat, vg_w, conn_w, fmode
+        return self.get_vector(state), grad_p, mat, vg_w, conn_w, fmode
 
 class SUPGPAdj2StabilizationTerm(Term):
     r"""
@@ -213,7 +213,7 @@ class SUPGPAdj2StabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return grad_u, state(), mat, vg_u, vg_r, conn_r, fmode
+        return grad_u, self.get_vector(state), mat, vg_u, vg_r, conn_r, fmode
 
 class SDDotTerm(Term):
     r"""
diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index cb295ea..94f764f 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -329,7 +329,8 @@ class SumNodalValuesTerm(Term):
 
     def get_fargs(self, parameter,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        vec = parameter.get_state_in_region(self.region)
+        vec = parameter.get_state_in_region(self.region,
+                                            step=self.arg_steps[parameter.name])
 
         return vec,
 
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 06a14f6..15f4b3b 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -161,7 +161,7 @@ class ContactTerm(Term):
         ci = self.get_contact_info(geo, state)
 
         X = nm.asfortranarray(state.field.coors)
-        Um = nm.asfortranarray(state().reshape((-1, ci.nsd)))
+        Um = nm.asfortranarray(self.get_vector(state).reshape((-1, ci.nsd)))
         xx = nm.asfortranarray(X + Um)
 
         GPs = ci.update(xx)
@@ -379,7 +379,7 @@ class ContactIPCTerm(Term):
 
         collision_mesh = ci.collision_mesh
 
-        uvec = state().reshape((-1, ci.dim))[ci.nods]
+        uvec = self.get_vector(state).reshape((-1, ci.dim))[ci.nods]
 
         vertices = collision_mesh.rest_positions + uvec
         try:
diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4640aeb..5520530 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -756,7 +756,7 @@ class ElasticWaveTerm(Term):
             econn = state.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = state()[adc]
+            vals = self.get_vector(state)[adc]
             # Same as nm.einsum('qij,cj->cqi', gmat[0], vals)[..., None]
             aux = dot_sequences(gmat, vals[:, None, :, None])
             out_qp = dot_sequences(gmat, dot_sequences(mat, aux), 'ATB')
@@ -828,7 +828,7 @@ class ElasticWaveCauchyTerm(Term):
             econn = avar.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(avar.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = avar()[adc]
+            vals = self.get_vector(avar)[adc]
 
             if self.mode == 'ge':
                 # Same as aux = self.get(avar, 'cauchy_strain'),
@@ -904,7 +904,7 @@ class LinearSpringTerm(Term):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], diff_var
+            return mat, self.get_vector(state)[adc], diff_var
         else:
             return mat, None, diff_var
 
@@ -1021,7 +1021,7 @@ class LinearTrussTerm(Term):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], mtx_t, length, diff_var
+            return mat, self.get_vector(state)[adc], mtx_t, length, diff_var
         else:
             return mat, None, mtx_t, length, diff_var
 
@@ -1083,7 +1083,7 @@ class LinearTrussInternalForceTerm(Term):
         adc = create_adof_conn(nm.arange(parameter.n_dof, dtype=nm.int32),
                                econn, n_c, 0)
 
-        return mat, parameter()[adc], mtx_t
+        return mat, self.get_vector(parameter)[adc], mtx_t
 
     def get_eval_shape(self, mat, parameter,
                        mode=None, term_mode=None, diff_var=None, **kwargs):
@@ -1181,7 +1181,7 @@ class LinearDSpringTerm(LinearTrussTerm):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], mtx_t, diff_var
+            return mat, self.get_vector(state)[adc], mtx_t, diff_var
         else:
             return mat, None, mtx_t, diff_var
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index dae6e2b..3d0afec 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -1012,7 +1012,7 @@ class VolumeSurfaceTLTerm(HyperElasticSurfaceTLBase):
         asc = nm.ascontiguousarray
 
         coors0 = parameter.field.get_coor()
-        coors = asc(coors0 + parameter().reshape(coors0.shape))
+        coors = asc(coors0 + self.get_vector(parameter).reshape(coors0.shape))
 
         return coors, fd.det_f, fd.inv_f, bf, sg, asc(sd.econn)
 
diff --git a/sfepy/terms/terms_mass.py b/sfepy/terms/terms_mass.py
index 3a73fe3..a127907 100644
--- a/sfepy/terms/terms_mass.py
+++ b/sfepy/terms/terms_mass.py
@@ -123,7 +123,7 @@ class MassTerm(ETermBase):
             if diff_var is None:
                 earg = self.einfos[None].eargs[2]
                 step_cache = earg.arg.evaluate_cache.setdefault('dofs', {})
-                cache = step_cache.setdefault(0, {})
+                cache = step_cache.setdefault(self.arg_steps[earg.name], {})
                 dofs = earg.get_dofs(cache, step_cache, state.name + '.dofs')
                 dofs = dofs.reshape((sh[0], sh[2])) # Does a copy!
 
diff --git a/sfepy/terms/terms_membrane.py b/sfepy/terms/terms_membrane.py
index e571122..2ca9f3b 100644
--- a/sfepy/terms/terms_membrane.py
+++ b/sfepy/terms/terms_membrane.py
@@ -181,7 +181,8 @@ class TLMembraneTerm(Term):
         geo = self.membrane_geo
 
         # Displacements of element nodes.
-        vec_u = vu.get_state_in_region(self.region)
+        vec_u = vu.get_state_in_region(self.region,
+                                       step=self.arg_steps[vu.name])
         el_u = vec_u[sd.leconn]
 
         # Transform displacements to the local coordinate system.
diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 23b3176..0505b0b 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -218,7 +218,8 @@ class ExpressionArg(Struct):
         dofs = cache.get(key)
         if dofs is None:
             arg = self.arg
-            dofs_vec = self.arg(derivative=key[-1])
+            dofs_vec = self.arg(step=self.term.arg_steps[self.name],
+                                derivative=key[-1])
             dofs_vec = dofs_vec.reshape((-1, arg.n_components))
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
diff --git a/sfepy/terms/terms_navier_stokes.py b/sfepy/terms/terms_navier_stokes.py
index 1e47dc7..05136f3 100644
--- a/sfepy/terms/terms_navier_stokes.py
+++ b/sfepy/terms/terms_navier_stokes.py
@@ -500,7 +500,7 @@ class StokesWaveTerm(Term):
             econn = state.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = state()[adc]
+            vals = self.get_vector(state)[adc]
             aux = dot_sequences(kebf, vals[:, None, :, None])
             out_qp = dot_sequences(kebf, aux, 'ATB')
             fmode = 0
@@ -568,7 +568,7 @@ class StokesWaveDivTerm(Term):
             econn = avar.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(avar.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = avar()[adc]
+            vals = self.get_vector(avar)[adc]
 
             if self.mode == 'kd':
                 aux = dot_sequences(div_bf, vals[:, None, :, None])
@@ -683,7 +683,7 @@ class PSPGCStabilizationTerm(Term):
         else:
             fmode = 1
 
-        return val_qp, state(), tau, svg, vvg, conn, fmode
+        return val_qp, self.get_vector(state), tau, svg, vvg, conn, fmode
 
 class SUPGPStabilizationTerm(Term):
     r"""
@@ -763,4 +763,4 @@ class SUPGCStabilizationTerm(Term):
         else:
             fmode = 1
 
-        return val_qp, state(), delta, vg, conn, fmode
+        return val_qp, self.get_vector(state), delta, vg, conn, fmode
diff --git a/sfepy/terms/terms_point.py b/sfepy/terms/terms_point.py
index c9fbaff..cf85bf0 100644
--- a/sfepy/terms/terms_point.py
+++ b/sfepy/terms/terms_point.py
@@ -40,7 +40,8 @@ class LinearPointSpringTerm(Term):
 
     def get_fargs(self, mat, virtual, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        vec = state.get_state_in_region(self.region)
+        vec = state.get_state_in_region(self.region,
+                                        step=self.arg_steps[state.name])
 
         return mat, vec, diff_var
 
-- 
2.43.0


From aa609a95ec2311a32d704ce4b079ddc07b94b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 31/63] fix: data cached for another region or file in recovery
 and resview

- recover_micro_hook() reused the points of the region and microstructure size of
  its first call,
- resview showed data of the first HDF5 file read.
---
 sfepy/homogenization/recovery.py | 18 +++++++++---------
 sfepy/scripts/resview.py         |  3 ++-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/sfepy/homogenization/recovery.py b/sfepy/homogenization/recovery.py
index 4334e49..817dff0 100644
--- a/sfepy/homogenization/recovery.py
+++ b/sfepy/homogenization/recovery.py
@@ -530,12 +530,13 @@ def recover_micro_hook(micro_filename, region, macro, eps0,
     if eval_mode not in ['constant', 'continuous']:
         raise ValueError(f"Evaluation mode '{eval_mode}' not implemented!")
 
-    rkey = f'{micro_filename}|{region_mode}|{eval_mode}'
-    if rkey not in recovery_data_cache:
-        aux = get_homogen_app_form_cache(micro_filename)
-        if aux is None or aux[-1] is None:
-            raise ValueError('"recovery_hook" is not set!')
+    aux = get_homogen_app_form_cache(micro_filename)
+    if aux is None or aux[-1] is None:
+        raise ValueError('"recovery_hook" is not set!')
 
+    rkey = f'{micro_filename}|{region_mode}|{eval_mode}'
+    app0, region0, eps00, data = recovery_data_cache.get(rkey, 4 * (None,))
+    if (app0 is not aux) or (region0 is not region) or (eps00 != eps0):
         _, he, corrs, rhook = aux
 
         if isinstance(region, Region):
@@ -558,11 +559,10 @@ def recover_micro_hook(micro_filename, region, macro, eps0,
             recovery_ids = nm.arange(ccoors.shape[0])
             recovery_ids_s = [f'(point {k})' for k in recovery_ids]
 
-        recovery_data_cache[rkey] = (he, corrs, ccoors,
-                                     recovery_ids, recovery_ids_s, rhook)
+        data = (he, corrs, ccoors, recovery_ids, recovery_ids_s, rhook)
+        recovery_data_cache[rkey] = (aux, region, eps0, data)
     else:
-        he, corrs, ccoors, recovery_ids, recovery_ids_s, rhook =\
-            recovery_data_cache[rkey]
+        he, corrs, ccoors, recovery_ids, recovery_ids_s, rhook = data
 
     nrec = ccoors.shape[0]
 
diff --git a/sfepy/scripts/resview.py b/sfepy/scripts/resview.py
index ec3a982..b37094d 100755
--- a/sfepy/scripts/resview.py
+++ b/sfepy/scripts/resview.py
@@ -226,7 +226,7 @@ def read_mesh(filenames, step=None, print_info=True, ret_n_steps=False,
     elif ext in ['.h5', '.h5x']:
         # Custom sfepy format.
         fname = filenames[0]
-        if 'io' not in cache:
+        if cache.get('io_filename') != fname:
             from sfepy.discrete.fem.meshio import MeshIO
 
             io = MeshIO.any_from_filename(fname)
@@ -242,6 +242,7 @@ def read_mesh(filenames, step=None, print_info=True, ret_n_steps=False,
                 grid0 = make_grid_from_mesh(smesh, add_mat_id=False)
 
             cache['io'] = io
+            cache['io_filename'] = fname
             cache['grid0'] = grid0
             cache['n_steps'] = len(cache['steps'])
 
-- 
2.43.0


From a14c66e21a8056863bc8fa9a8234a668273730cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 32/63] fix: caches distinguish custom and full-order integrals

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 26 ++++++++++++++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  6 +++---
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..4b7f0a8 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.key, integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..6253139 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -634,7 +634,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.key, key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -745,7 +745,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.key, _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -766,7 +766,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -783,7 +783,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.key, sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1314,7 +1314,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.key, f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1349,7 +1349,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.key, esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..b4972c4 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -2,6 +2,8 @@
 Classes for accessing quadrature points and weights for various reference
 element geometries.
 """
+import hashlib
+
 import numpy as nm
 
 from sfepy.base.base import OneTypeList, Container, Struct
@@ -104,6 +106,30 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+        self.key = self._get_key()
+
+    def _get_key(self):
+        """
+        Return the hashable key identifying the quadrature points given by the
+        integral in caches. It equals the order for the usual built-in
+        quadratures.
+        """
+        if self.mode == 'builtin':
+            return (self.order, 'full') if self.full_order else self.order
+
+        sha1 = hashlib.sha1()
+        for val in (self.coors, self.weights, self.bounds, self.tp_fix,
+                    self.weight_fix, self.symmetric):
+            if val is None:
+                sha1.update(b'None')
+
+            else:
+                val = nm.asarray(val, dtype=nm.float64)
+                sha1.update(str(val.shape).encode())
+                sha1.update(val.tobytes())
+
+        return ('custom', sha1.hexdigest())
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..166f9c3 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.key, sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index c84a407..f44dcb1 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        region_name, ikey = self.region.name, self.integral.key
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -887,7 +887,7 @@ class Term(Struct):
             else:
                 mat, par_name = self.args[ii]
                 if mat is not None:
-                    mat_data = mat.get_data((region_name, iorder), par_name)
+                    mat_data = mat.get_data((region_name, ikey), par_name)
 
                 else:
                     mat_data = None
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.key)
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 15f4b3b..f98c28d 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 62c18f9..616c1a4 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.key, geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From 96c10dfb0f3108bb5fd49e1b5f53cf3d844b8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 33/63] fix: stale basis and mappings after changing the basis
 transformation

---
 sfepy/discrete/fem/fields_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 6253139..31cc2f5 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -701,7 +701,7 @@ class FEField(Field):
         self.econn = self.econn0
         self.econn0 = None
         self.unused_dofs = None
-        self.basis_transform = None
+        self.set_basis_transform(None)
 
     def set_basis_transform(self, transform):
         """
@@ -717,6 +717,9 @@ class FEField(Field):
             in the field's region, where `n_ep` is the number of element DOFs.
         """
         self.basis_transform = transform
+        # The cached basis and mappings correspond to the old transformation.
+        self.clear_qp_basis()
+        self.clear_mappings(clear_all=True)
 
     def restore_substituted(self, vec):
         """
-- 
2.43.0


From 6c4b93460e2b12542454fc4bd0cad0b4ffe0fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 34/63] fix: stale tangent matrix after setting new equations
 of a problem

---
 sfepy/discrete/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index e25c085..c26057e 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -557,6 +557,8 @@ class Problem(Struct):
                                         eterm_options=eterm_options,
                                         allow_derivatives=transform)
 
+        self.mtx_a = None
+        self.mtx_presolved = None
         self.equations = equations
         self.set_ics(self.conf.ics)
 
@@ -1254,6 +1256,8 @@ class Problem(Struct):
                     )
                     self.orig_equations = self.equations
                     self.ed_var_names = var_names
+                    self.mtx_a = None
+                    self.mtx_presolved = None
                     self.equations = equations
 
                     output('transformed equations of elastodynamics solvers:')
-- 
2.43.0


From 9eeffd1cd985a3e171fcfa4c28bed7be750dade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 35/63] fix: evaluate variables again when the geometry changes

---
 sfepy/discrete/variables.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 4936154..e78ccf6 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1759,10 +1759,9 @@ class FieldVariable(Variable):
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
 
-        if key in cache:
-            out = cache[key]
-
-        else:
+        # The geometry changes when the mesh coordinates are updated.
+        geo0, out = cache.get(key, (None, None))
+        if (out is None) or (geo0 is not geo):
             vec = self(step=step, derivative=time_derivative, dt=dt)
             conn = field.get_econn(dct, region, trace_region)
 
@@ -1774,7 +1773,7 @@ class FieldVariable(Variable):
             else:
                 out = eval_complex(vec, conn, geo, mode, shape, bf)
 
-            cache[key] = out
+            cache[key] = (geo, out)
 
         return out
 
-- 
2.43.0


From a016d1133a5f3f3ee11d04f33349beba230dbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 36/63] fix: stale reduced state vector after setting a new
 state with LCBCs

---
 sfepy/discrete/variables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index e78ccf6..d732c95 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -663,6 +663,8 @@ class Variables(Container):
             var.locked = True
 
         self.vec = vec
+        # The reduced vector of the previous state (with LCBCs) is outdated.
+        self.r_vec = None
 
     def fill_state(self, value):
         """
@@ -693,6 +695,7 @@ class Variables(Container):
         """
         if vec is None:
             vec = self.vec
+            self.r_vec = None
             self.invalidate_evaluate_caches(step=0)
 
         for var in self.iter_state():
@@ -872,6 +875,7 @@ class Variables(Container):
 
         if vec is None:
             vec = self.vec
+            self.r_vec = None
             self.invalidate_evaluate_caches(step=0)
 
         else:
-- 
2.43.0


From c817e987050bd801bc11fd4edfaaab5e901aef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 37/63] fix: restart files of variables with history, restart
 from output files

---
 sfepy/discrete/problem.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index c26057e..49194c3 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2114,7 +2114,12 @@ class Problem(Struct):
         for var in variables.iter_state():
             vgroup = fd.create_group('/', var.name, var.name)
 
-            history_length = len(var.data)
+            # The history need not be fully available in the initial steps.
+            history_length = 1
+            while ((history_length < len(var.data))
+                   and (var.data[history_length] is not None)):
+                history_length += 1
+
             fd.create_array(vgroup, 'history_length', history_length,
                             'history length')
             for ii in range(history_length):
@@ -2177,20 +2182,29 @@ class Problem(Struct):
 
             ts.set_state(**ts_state)
 
-            vec = variables.create_vec()
+            vecs = [variables.create_vec()]
+            history_lengths = {}
             for var in variables.iter_state():
                 vgroup = fd.root._f_get_child(var.name)
 
                 history_length = vgroup.history_length.read()
+                history_lengths[var.name] = history_length
                 for ii in range(0, history_length):
                     data = vgroup._f_get_child('data_%d' % ii).read()
-                    var.locked = False
-                    var.set_data(data, step=-ii)
-                    var.locked = True
-                    if ii == 0:
-                        variables.set_vec_part(vec, var.name, data)
+                    if ii == len(vecs):
+                        vecs.append(variables.create_vec())
 
-            variables.init_state(vec=vec)
+                    variables.set_vec_part(vecs[ii], var.name, data)
+
+            # This clears the history of variables.
+            variables.init_state(vec=vecs[0])
+
+            for var in variables.iter_state():
+                indx = variables.get_indx(var.name)
+                var.locked = False
+                for ii in range(1, history_lengths[var.name]):
+                    var.set_data(vecs[ii], indx, step=-ii)
+                var.locked = True
 
             if '/r_vec' in fd:
                 r_vec = fd.root.r_vec.read()
@@ -2212,7 +2226,9 @@ class Problem(Struct):
             vec = variables.create_vec()
             for var in variables.iter_state():
                 val = out[var.name]
+                var.locked = False
                 var.set_from_mesh_vertices(val.data)
+                var.locked = True
                 variables.set_vec_part(vec, var.name, var())
 
             variables.init_state(vec=vec)
-- 
2.43.0


From 2171549d6fb983a4802769b1960c7089810c2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 38/63] fix: history and derivative arguments of dw_shell10x

The term used the current step values of its state even if another time step
or the time derivative was requested.
---
 sfepy/terms/terms_shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_shells.py b/sfepy/terms/terms_shells.py
index 2d73b00..74e3eca 100644
--- a/sfepy/terms/terms_shells.py
+++ b/sfepy/terms/terms_shells.py
@@ -163,7 +163,7 @@ class Shell10XTerm(Term):
         geo, _ = self.get_mapping(vv)
 
         # Displacements of element nodes.
-        vec_u = vu()
+        vec_u = self.get_vector(vu)
         econn = vu.field.get_econn('cell', self.region)
         adc = create_adof_conn(nm.arange(vu.n_dof, dtype=nm.int32), econn, 6, 0)
         el_u = vec_u[adc]
-- 
2.43.0


From 816b4fc321c5d29fbd0634e1eb9aef1681b43b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 39/63] fix: reading sparse matrices from HDF5 files in another
 format

---
 sfepy/base/ioutils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..cc3616b 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -415,24 +415,22 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
     format = dec(info.format.read())
     dtype = dec(info.dtype.read())
 
-    if output_format is None:
-        constructor = constructors[format]
-    else:
-        constructor = constructors[output_format]
-
+    # The data have to be interpreted in the format they were stored in.
     if format in ['csc', 'csr']:
+        constructor = constructors[format]
         mtx = constructor((data.data.read(),
                            data.indices.read(), data.indptr.read()),
                           shape=info.shape.read(), dtype=dtype)
     elif format == 'coo':
-        mtx = constructor((data.data.read(),
-                           nm.c_[data.rows.read(), data.cols.read()].T),
-                          shape=info.shape.read(), dtype=dtype)
+        mtx = sp.coo_array((data.data.read(),
+                            nm.c_[data.rows.read(), data.cols.read()].T),
+                           shape=info.shape.read(), dtype=dtype)
     else:
         print(format)
         raise ValueError
 
     if output_format in ['csc', 'csr']:
+        mtx = mtx.asformat(output_format)
         mtx.sort_indices()
 
     return mtx
-- 
2.43.0


From 1aadd9321b1589e8d07bb0ecba73c8d5d98903a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 40/63] fix: keep arrays used by native basis evaluation
 contexts

---
 sfepy/discrete/fem/extmods/bases.pyx |  6 ++++++
 sfepy/discrete/iga/extmods/igac.pyx  | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/sfepy/discrete/fem/extmods/bases.pyx b/sfepy/discrete/fem/extmods/bases.pyx
index 45e1ac8..344d42f 100644
--- a/sfepy/discrete/fem/extmods/bases.pyx
+++ b/sfepy/discrete/fem/extmods/bases.pyx
@@ -75,6 +75,9 @@ cdef class CLagrangeContext:
 
     # Store arrays to prevent their deallocation in Python.
     cdef readonly CLagrangeContext _geo_ctx
+    cdef readonly np.ndarray nodes
+    cdef readonly np.ndarray ref_coors
+    cdef readonly np.ndarray mtx_i
     cdef readonly np.ndarray mesh_coors
     cdef readonly np.ndarray mesh_conn
     cdef readonly np.ndarray e_coors_max # Auxiliary buffer.
@@ -146,6 +149,7 @@ cdef class CLagrangeContext:
         _f.array2fmfield2(ctx.e_coors_max, _e_coors_max)
 
         if nodes is not None:
+            self.nodes = np.asarray(nodes)
             ctx.nodes = &nodes[0, 0]
             ctx.n_nod = nodes.shape[0]
             ctx.n_col = nodes.shape[1]
@@ -161,6 +165,7 @@ cdef class CLagrangeContext:
             raise ValueError('nodes argument is required!')
 
         if ref_coors is not None:
+            self.ref_coors = np.asarray(ref_coors)
             _f.array2fmfield2(ctx.ref_coors, ref_coors)
 
             ctx.vmin = ref_coors[0, 0]
@@ -188,6 +193,7 @@ cdef class CLagrangeContext:
             ctx.n_cell = ctx.n_cp = 0
 
         if mtx_i is not None:
+            self.mtx_i = np.asarray(mtx_i)
             _f.array2fmfield2(ctx.mtx_i, mtx_i)
 
         else:
diff --git a/sfepy/discrete/iga/extmods/igac.pyx b/sfepy/discrete/iga/extmods/igac.pyx
index 72e7f64..ccfbd3e 100644
--- a/sfepy/discrete/iga/extmods/igac.pyx
+++ b/sfepy/discrete/iga/extmods/igac.pyx
@@ -115,6 +115,11 @@ cdef class CNURBSContext:
     cdef NURBSContext *ctx
 
     # Store arrays to prevent their deallocation in Python.
+    cdef readonly np.ndarray control_points
+    cdef readonly np.ndarray weights
+    cdef readonly np.ndarray degrees
+    cdef readonly tuple cs
+    cdef readonly np.ndarray conn
     cdef readonly np.ndarray e_coors_max # Auxiliary buffer.
 
     cdef readonly np.ndarray bf # Auxiliary buffer.
@@ -164,6 +169,12 @@ cdef class CNURBSContext:
         ctx.iel = 0
         ctx.is_dx = 1
 
+        self.control_points = np.asarray(control_points)
+        self.weights = np.asarray(weights)
+        self.degrees = np.asarray(degrees)
+        self.cs = tuple(cs)
+        self.conn = np.asarray(conn)
+
         array2fmfield2(ctx.control_points, control_points)
         array2fmfield1(ctx.weights, weights)
 
-- 
2.43.0


From 1e307891a36eac5f73afc2102a8d3bcef5586291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 41/63] fix: orientation arrays of CMesh after rebuilding edges
 or faces

---
 sfepy/discrete/common/extmods/cmesh.pyx | 48 ++++++++++++++++---------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index c7fb432..56bee74 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -372,8 +372,6 @@ cdef class CMesh:
         Set up mesh edge (2D and 3D) and face connectivities (3D only) as well
         as their orientations.
         """
-        cdef np.npy_intp shape[1]
-
         if not self.entities:
             msg = 'CMesh.setup_entities() must be called after'\
                   ' CMesh.set_local_entities()!'
@@ -384,29 +382,35 @@ cdef class CMesh:
 
         else:
             self.setup_connectivity(1, 0)
-
-            ii = self._get_conn_indx(self.mesh.topology.max_dim, 1)
-            shape[0] = <np.npy_intp> self.conns[ii].n_incident
-            ptr = self.mesh.topology.edge_oris
-            self.edge_oris = np.PyArray_SimpleNewFromData(1, shape,
-                                                          np.NPY_UINT32,
-                                                          <void *> ptr)
+            self.edge_oris = self._create_oris(1)
 
             if self.tdim == 3:
                 self.setup_connectivity(2, 0)
-
-                ii = self._get_conn_indx(self.mesh.topology.max_dim, 2)
-                shape[0] = <np.npy_intp> self.conns[ii].n_incident
-                ptr = self.mesh.topology.face_oris
-                self.face_oris = np.PyArray_SimpleNewFromData(1, shape,
-                                                              np.NPY_UINT32,
-                                                              <void *> ptr)
+                self.face_oris = self._create_oris(2)
 
                 self.facet_oris = self.face_oris
 
             else:
                 self.facet_oris = self.edge_oris
 
+    def _create_oris(self, int32 dim):
+        """
+        Wrap the orientations of edges or faces allocated in C by an array.
+        """
+        cdef np.npy_intp shape[1]
+        cdef uint32 *ptr
+
+        ii = self._get_conn_indx(self.mesh.topology.max_dim, dim)
+        shape[0] = <np.npy_intp> self.conns[ii].n_incident
+        if dim == 2:
+            ptr = self.mesh.topology.face_oris
+
+        else:
+            ptr = self.mesh.topology.edge_oris
+
+        return np.PyArray_SimpleNewFromData(1, shape, np.NPY_UINT32,
+                                            <void *> ptr)
+
     def setup_connectivity(self, d1, d2):
         cdef MeshConnectivity *pconn
 
@@ -432,6 +436,18 @@ cdef class CMesh:
                 cconn._set_conn(pconn)
                 self.conns[ii] = cconn
 
+        # The orientations are reallocated when the entities are rebuilt.
+        ii = self._get_conn_indx(self.mesh.topology.max_dim, 1)
+        if (self.edge_oris is not None) and (self.conns[ii] is not None):
+            self.edge_oris = self._create_oris(1)
+            if self.tdim == 2:
+                self.facet_oris = self.edge_oris
+
+        ii = self._get_conn_indx(self.mesh.topology.max_dim, 2)
+        if (self.face_oris is not None) and (self.conns[ii] is not None):
+            self.face_oris = self._create_oris(2)
+            self.facet_oris = self.face_oris
+
     def _update_num(self):
         self.num[0] = self.n_coor
         self.num[self.mesh.topology.max_dim] = self.n_el
-- 
2.43.0


From 9edc9b632b59752e836aff71ffac9de8e6efc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 42/63] fix: sensitivity of diffusion and elasticity terms with
 non-symmetric materials

---
 sfepy/terms/terms_sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_sensitivity.py b/sfepy/terms/terms_sensitivity.py
index f2d25e5..57a0a43 100644
--- a/sfepy/terms/terms_sensitivity.py
+++ b/sfepy/terms/terms_sensitivity.py
@@ -61,8 +61,8 @@ class ESDLinearElasticTerm(ETermBase):
 
         dim = grad_mv.shape[-1]
         mat_ns = mat if mat.shape[-1] == dim**2 else sym2nonsym(mat, [2, 3])
-        aux = dot_sequences(mat_ns, grad_op, mode='AB')
-        mat_sd = mat_ns * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat_ns * div_mv - dot_sequences(mat_ns, grad_op, mode='AB')\
+               - dot_sequences(grad_op, mat_ns, mode='ATB')
 
         fun = self.make_function(
             'IK,v(i.j)->I,v(k.l)->K', (mat_sd, 'material'), vvar, svar,
@@ -164,8 +164,8 @@ class ESDDiffusionTerm(ETermBase):
         grad_mv = self.get(par_mv, 'grad')
         div_mv = nm.trace(grad_mv, axis1=2, axis2=3)[..., None, None]
 
-        aux = dot_sequences(mat, grad_mv, mode='AB')
-        mat_sd = mat * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat * div_mv - dot_sequences(mat, grad_mv, mode='AB')\
+               - dot_sequences(grad_mv, mat, mode='ATB')
 
         fun = self.make_function(
             'ij,0.i,0.j', (mat_sd, 'material'), vvar, svar,
-- 
2.43.0


From 9f2a182dd130fd49d87d1a366e54fa6c934f36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 43/63] fix: quadrature point evaluation of multi-linear terms
 with one operand

---
 sfepy/terms/terms_multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 0505b0b..1ce7a94 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -514,7 +514,7 @@ class ExpressionBuilder(Struct):
 
         for ia, subscripts in enumerate(self.subscripts):
             ifree = [ii for ii in find_free_indices(subscripts)
-                     if ii not in self.out_subscripts[ia]]
+                     if ii not in self.out_subscripts[ia] + 'q']
             if ifree:
                 # Lexicographic ordering of output indices, i.e.
                 # (n_comp, dim) or (dim, n_comp) <=> i.j or j.i
-- 
2.43.0


From 807404ad0e63267f8be085c6a9608c78e47030aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 44/63] fix: component selections of operands added to one of
 several expressions

---
 sfepy/terms/terms_multilinear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 1ce7a94..ff39915 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -347,19 +347,19 @@ class ExpressionBuilder(Struct):
     def add_eye(self, iic, ein, name, iia=None):
         append_all(self.subscripts, '{}{}'.format(ein[0], iic), ii=iia)
         append_all(self.operand_names, '{}.I'.format(name), ii=iia)
-        append_all(self.components, [])
+        append_all(self.components, [], ii=iia)
 
     def add_psg(self, iic, ein, name, iia=None):
         append_all(self.subscripts, '{}{}{}'.format(iic, ein[2], ein[0]),
                    ii=iia)
         append_all(self.operand_names, name + '.Psg', ii=iia)
-        append_all(self.components, [])
+        append_all(self.components, [], ii=iia)
 
     def add_pvg(self, iic, ein, name, iia=None):
         append_all(self.subscripts, '{}{}{}'.format(iic, ein[2], ein[0]),
                    ii=iia)
         append_all(self.operand_names, name + '.Pvg', ii=iia)
-        append_all(self.components, [])
+        append_all(self.components, [], ii=iia)
 
     def add_arg_dofs(self, iin, ein, name, n_components, iia=None):
         if n_components > 1:
@@ -371,7 +371,7 @@ class ExpressionBuilder(Struct):
 
         append_all(self.subscripts, term, ii=iia)
         append_all(self.operand_names, name + '.dofs', ii=iia)
-        append_all(self.components, [])
+        append_all(self.components, [], ii=iia)
 
     def add_virtual_arg(self, arg, ii, ein, modifier):
         iin = self.letters[ii] # node (qs basis index)
-- 
2.43.0


From 7896e167d409764ac11b9fa7b922beaf047cecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:07 +0000
Subject: [PATCH 45/63] fix: offsets of vector blocks for different
 approximation orders in divgrad_build_gtg()

The matrix of dw_div_grad was wrong, and written out of its bounds, when the
virtual and state variables had different numbers of basis functions.
---
 sfepy/terms/extmods/terms_navier_stokes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/extmods/terms_navier_stokes.c b/sfepy/terms/extmods/terms_navier_stokes.c
index 00beb80..68b7cb2 100644
--- a/sfepy/terms/extmods/terms_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_navier_stokes.c
@@ -48,8 +48,8 @@ int32 divgrad_build_gtg( FMField *out, FMField *gcv, FMField *gcs )
       pg3s = pg2s + nEPs;
 
       pout1 = FMF_PtrLevel( out, iqp );
-      pout2 = pout1 + (nCol + 1) * nEPv;
-      pout3 = pout2 + (nCol + 1) * nEPv;
+      pout2 = pout1 + nCol * nEPv + nEPs;
+      pout3 = pout2 + nCol * nEPv + nEPs;
 
       for (ir = 0; ir < nEPv; ir++) {
         for (ic = 0; ic < nEPs; ic++) {
@@ -72,7 +72,7 @@ int32 divgrad_build_gtg( FMField *out, FMField *gcv, FMField *gcs )
       pg2s = pg1s + nEPs;
 
       pout1 = FMF_PtrLevel( out, iqp );
-      pout2 = pout1 + (nCol + 1) * nEPv;
+      pout2 = pout1 + nCol * nEPv + nEPs;
 
       for (ir = 0; ir < nEPv; ir++) {
         for (ic = 0; ic < nEPs; ic++) {
-- 
2.43.0


From 1cade31bc910bb498d20abf7005b2ed822c7299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 46/63] fix: accumulation over quadrature points and cells in
 d_of_nsSurfMinDPress()

The pressure difference had the opposite sign and contained the values of the
previous cells.
---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index c9bad91..7ec39fd 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -472,7 +472,7 @@ int32 d_of_nsSurfMinDPress( FMField *out, FMField *pressure,
       FMF_SetCell( sg->det, ii );
 
       for (iqp = 0; iqp < nQP; iqp++) {
-	pressQP->val[iqp] -= pressure->val[iqp] - bpress;
+	pressQP->val[iqp] = pressure->val[iqp] - bpress;
       }
       fmf_sumLevelsMulF( out1, pressQP, sg->det->val );
       aux += out1->val[0];
-- 
2.43.0


From cabbe9fd1eb95c42cd223c33ec0d6e2926122efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 47/63] fix: material parameters in all quadrature points in
 electric source and adjoint stabilization terms

Only the value in the first quadrature point was used in
dw_electric_source, dw_st_adj_supg_c, dw_st_adj1_supg_p, dw_st_adj2_supg_p.
---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 9 ++++++---
 sfepy/terms/extmods/terms_electric.c          | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 7ec39fd..1028d8d 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -220,6 +220,7 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
 
     if (isDiff == 1) {
       fmf_addAB_nn( outdqp, fTgUfUTgT, fTgUfUTg );
+      fmf_mul( outdqp, coef->val );
       fmf_sumLevelsMulF( out, outdqp, vg->det->val );
     } else {
       ele_extractNodalValuesDBD( stW, stateW, conn + nEP * ii );
@@ -231,10 +232,10 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
       fmf_mulAB_n1( out2qp, fTgUfUTg, stWv );
 
       fmf_addAB_nn( outqp, out1qp, out2qp );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg->det->val );
 
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
@@ -304,15 +305,16 @@ int32 dw_st_adj1_supg_p( FMField *out, FMField *stateW, FMField *gradP,
     bf_actt( fTgPTgT, vg_w->bf, gPTgT );
 
     if (isDiff == 1) {
+      fmf_mul( fTgPTgT, coef->val );
       fmf_sumLevelsMulF( out, fTgPTgT, vg_w->det->val );
     } else {
       ele_extractNodalValuesDBD( stW, stateW, conn_w + nEP_w * ii );
 
       // (grad p, v grad w).
       fmf_mulAB_n1( outqp, fTgPTgT, stWv );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg_w->det->val );
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
@@ -377,15 +379,16 @@ int32 dw_st_adj2_supg_p( FMField *out, FMField *gradU, FMField *stateR,
     bf_actt( fTgUTg, vg_u->bf, gUTg );
 
     if (isDiff == 1) {
+      fmf_mul( fTgUTg, coef->val );
       fmf_sumLevelsMulF( out, fTgUTg, vg_u->det->val );
     } else {
       ele_extractNodalValuesDBD( stR, stateR, conn_r + nEP_r * ii );
 
       // (v grad u, grad r).
       fmf_mulAB_n1( outqp, fTgUTg, stRv );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg_u->det->val );
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
diff --git a/sfepy/terms/extmods/terms_electric.c b/sfepy/terms/extmods/terms_electric.c
index 36b7c7d..dbaa07c 100644
--- a/sfepy/terms/extmods/terms_electric.c
+++ b/sfepy/terms/extmods/terms_electric.c
@@ -26,8 +26,8 @@ int32 dw_electric_source( FMField *out, FMField *grad, FMField *coef,
 
     fmf_mulATB_nn( gp2, grad, grad );
     fmf_mulATB_nn( bftgp2, vg->bf, gp2 );
+    fmf_mul( bftgp2, coef->val );
     fmf_sumLevelsMulF( out, bftgp2, vg->det->val );
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From b13eaa367e8059e2367bf38c82c07a468437f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:16 +0000
Subject: [PATCH 48/63] fix: basis of the scalar variable in dw_piezo_coupling

The gradients of the displacement basis were used for the potential, so the
term was wrong for different approximation orders.
---
 sfepy/terms/extmods/terms.pyx     |  5 +++--
 sfepy/terms/extmods/terms_piezo.c | 13 +++++--------
 sfepy/terms/extmods/terms_piezo.h |  2 +-
 sfepy/terms/terms_piezo.py        |  4 +++-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sfepy/terms/extmods/terms.pyx b/sfepy/terms/extmods/terms.pyx
index fe913ab..3a33985 100644
--- a/sfepy/terms/extmods/terms.pyx
+++ b/sfepy/terms/extmods/terms.pyx
@@ -383,7 +383,7 @@ cdef extern from 'terms.h':
     cdef int32 _dw_piezo_coupling \
          'dw_piezo_coupling'(FMField *out, FMField *strain,
                              FMField *charge_grad,
-                             FMField *mtxG, Mapping *vg,
+                             FMField *mtxG, Mapping *vg, Mapping *svg,
                              int32 mode)
 
     cdef int32 _d_piezo_coupling \
@@ -1800,6 +1800,7 @@ def dw_piezo_coupling(np.ndarray out not None,
                       np.ndarray charge_grad not None,
                       np.ndarray mtx_g not None,
                       CMapping cmap not None,
+                      CMapping cmap_s not None,
                       int32 mode):
     cdef int32 ret
     cdef FMField[1] _out, _strain, _charge_grad, _mtx_g
@@ -1810,7 +1811,7 @@ def dw_piezo_coupling(np.ndarray out not None,
     array2fmfield4(_mtx_g, mtx_g)
 
     ret = _dw_piezo_coupling(_out, _strain, _charge_grad, _mtx_g,
-                             cmap.geo, mode)
+                             cmap.geo, cmap_s.geo, mode)
     return ret
 
 def d_piezo_coupling(np.ndarray out not None,
diff --git a/sfepy/terms/extmods/terms_piezo.c b/sfepy/terms/extmods/terms_piezo.c
index 78b1052..da49c2e 100644
--- a/sfepy/terms/extmods/terms_piezo.c
+++ b/sfepy/terms/extmods/terms_piezo.c
@@ -5,7 +5,7 @@
 #undef __FUNC__
 #define __FUNC__ "dw_piezo_coupling"
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode )
 {
   int32 ii, nEPU, nEPP, dim, sym, nQP, ret = RET_OK;
@@ -16,11 +16,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
   nEPU = vg->bfGM->nCol;
   sym = (dim + 1) * dim / 2;
 
-  if ((mode == 0) || (mode == 1)) {
-    nEPP = out->nCol;
-  } else {
-    nEPP = out->nRow;
-  }
+  nEPP = svg->bfGM->nCol;
 
   if (mode == 0) { 
     fmf_createAlloc( &gtgp, 1, nQP, sym, 1 );
@@ -37,6 +33,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
     FMF_SetCell( out, ii );
     FMF_SetCellX1( mtxG, ii );
     FMF_SetCell( vg->bfGM, ii );
+    FMF_SetCell( svg->bfGM, ii );
     FMF_SetCell( vg->det, ii );
 
     if (mode == 0) { // vector - grad
@@ -50,12 +47,12 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
       FMF_SetCell( strain, ii );
 
       fmf_mulAB_nn( ge, mtxG, strain );
-      fmf_mulATB_nn( gctge, vg->bfGM, ge );
+      fmf_mulATB_nn( gctge, svg->bfGM, ge );
       fmf_sumLevelsMulF( out, gctge, vg->det->val );
 
     } else { // matrix - div, grad
       form_sdcc_actOpG_RM3( gg, mtxG, vg->bfGM );
-      fmf_mulATB_nn( gctgg, vg->bfGM, gg );
+      fmf_mulATB_nn( gctgg, svg->bfGM, gg );
       if (mode == 1) { // matrix - grad
 	fmf_sumLevelsTMulF( out, gctgg, vg->det->val );
       } else { // matrix - div
diff --git a/sfepy/terms/extmods/terms_piezo.h b/sfepy/terms/extmods/terms_piezo.h
index 8cc8596..86f1b4c 100644
--- a/sfepy/terms/extmods/terms_piezo.h
+++ b/sfepy/terms/extmods/terms_piezo.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 #include "refmaps.h"
 
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode );
 
 int32 d_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
diff --git a/sfepy/terms/terms_piezo.py b/sfepy/terms/terms_piezo.py
index 0adf5d8..f87f890 100644
--- a/sfepy/terms/terms_piezo.py
+++ b/sfepy/terms/terms_piezo.py
@@ -62,7 +62,9 @@ class PiezoCouplingTerm(Term):
                 strain, grad = val_qp, aux
                 fmode += 2
 
-            return strain, grad, mat, vvg, fmode
+            svg, _ = self.get_mapping(svar)
+
+            return strain, grad, mat, vvg, svg, fmode
 
         elif mode == 'eval':
             strain = self.get(vvar, 'cauchy_strain')
-- 
2.43.0


From b17c41d7f8b240d925ac26a59142c9b2fefc122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:48 +0000
Subject: [PATCH 49/63] fix: matrix products with sparse arrays in solvers

The operator * of sparse arrays multiplies by elements, the residuals of the
linear systems were n x n matrices. Indexing a sparse array by a row gives a 1D
array, the product of two rows is a scalar.
---
 sfepy/homogenization/coefs_phononic.py |  2 +-
 sfepy/solvers/ls.py                    |  6 +++---
 sfepy/solvers/oseen.py                 |  2 +-
 sfepy/solvers/semismooth_newton.py     |  3 +--
 sfepy/solvers/ts_dg_solvers.py         | 10 +++++-----
 5 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/sfepy/homogenization/coefs_phononic.py b/sfepy/homogenization/coefs_phononic.py
index d1eb081..0967ca7 100644
--- a/sfepy/homogenization/coefs_phononic.py
+++ b/sfepy/homogenization/coefs_phononic.py
@@ -643,7 +643,7 @@ class SchurEVP(SimpleEVP):
         mtx_dib = nm.empty(mtx_b.shape, dtype=mtx_b.dtype)
         for ic in range(mtx_b.shape[1]):
             mtx_dib[:,ic] = ls(mtx_b[:,ic].toarray().squeeze())
-        mtx_a = mtx['K'] + mtx_b.T * mtx_dib
+        mtx_a = mtx['K'] + mtx_b.T @ mtx_dib
 
         return mtx_a, mtx_m, mtx_dib
 
diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..aad1f4d 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -328,7 +328,7 @@ class ScipyIterative(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -476,7 +476,7 @@ class PyAMGSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.accel not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -580,7 +580,7 @@ class PyAMGKrylovSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
diff --git a/sfepy/solvers/oseen.py b/sfepy/solvers/oseen.py
index 72ef08c..a71ccfd 100644
--- a/sfepy/solvers/oseen.py
+++ b/sfepy/solvers/oseen.py
@@ -305,7 +305,7 @@ class Oseen(NonlinearSolver):
             time_stats['solve'] = timer.stop()
             ls_n_iter += ls_status['n_iter']
 
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             if lerr > (conf.eps_a * conf.lin_red):
                 output('linear system not solved! (err = %e)' % lerr)
diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..a9dc075 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -302,8 +302,7 @@ class SemismoothNewton(Newton):
                 for ir in range(len(iz)):
                     row_a_z = mtx_a_z[ir]
                     row_b_z = mtx_b_z[ir]
-                    sqrt_ab[ir] = nm.sqrt((row_a_z @ row_a_z.T).todense()
-                                          + (row_b_z @ row_b_z.T).todense())
+                    sqrt_ab[ir] = nm.sqrt(row_a_z @ row_a_z + row_b_z @ row_b_z)
                 mul_a[iz] = ((mtx_a_z @ vec_z) / sqrt_ab) - 1.0
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..edfb621 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -149,7 +149,7 @@ class EulerStepSolver(DGMultiStageTSS):
                             eps_a=eps_a, eps_r=eps_r, mtx=mtx_a,
                             status=ls_status)
 
-        vec_e = mtx_a * vec_dx - vec_r
+        vec_e = mtx_a @ vec_dx - vec_r
         lerr = nla.norm(vec_e)
         if self.verbose:
             output(self.name + ' linear system sol error {}'.format(lerr))
@@ -212,7 +212,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x1 = vec_x - ts.dt * (vec_dx - vec_x)
 
         if self.verbose:
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             output(self.stage_format.format(1, lerr))
 
@@ -228,7 +228,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x2 = (3 * vec_x + vec_x1 - ts.dt * (vec_dx - vec_x1)) / 4
 
         if self.verbose:
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             output(self.stage_format.format(2, lerr))
 
@@ -246,7 +246,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x3 = (vec_x + 2 * vec_x2 - 2 * ts.dt * (vec_dx - vec_x2)) / 3
 
         if self.verbose:
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             output(self.stage_format.format(3, lerr))
 
@@ -302,7 +302,7 @@ class RK4StepSolver(DGMultiStageTSS):
                                 eps_a=eps_a, eps_r=eps_r, mtx=mtx_a,
                                 status=ls_status)
 
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             if self.verbose:
                 output(self.stage_format.format(stage, lerr))
-- 
2.43.0


From 362af6ada406159521844358c61ff1fc44b35666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:08 +0000
Subject: [PATCH 50/63] fix: derivatives of the 8-node contact segment shape
 functions in sfd8()

The derivatives of the last two shape functions along the first coordinate
were taken from the derivatives along the second one.
---
 sfepy/mechanics/extmods/contres.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 96d44f0..3f389bd 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -108,8 +108,8 @@ void sfd8(float64* H, float64* dH, float64 r, float64 s) {
   dH[3] = h4r;
   dH[4] = h5r;
   dH[5] = h6r;
-  dH[6] = h7s;
-  dH[7] = h8s;
+  dH[6] = h7r;
+  dH[7] = h8r;
 
   dH[8]  = h1s;
   dH[9]  = h2s;
-- 
2.43.0


From e0ea2d1fe24b91909752d4e44af07f7e84b24e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 51/63] fix: 'log' option of nls.oseen and
 nls.semismooth_newton

---
 sfepy/solvers/oseen.py             | 4 ++++
 sfepy/solvers/semismooth_newton.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sfepy/solvers/oseen.py b/sfepy/solvers/oseen.py
index a71ccfd..a3469d8 100644
--- a/sfepy/solvers/oseen.py
+++ b/sfepy/solvers/oseen.py
@@ -165,6 +165,10 @@ class Oseen(NonlinearSolver):
          """If not None, the linear system solution tolerances are set in each
             nonlinear iteration relative to the current residual norm by the
             `lin_precision` factor. Ignored for direct linear solvers."""),
+        ('log', 'dict or None', None, False,
+         """If not None, log the convergence according to the configuration in
+            the following form: ``{'text' : 'log.txt', 'plot' : 'log.pdf'}``.
+            Each of the dict items can be None."""),
     ]
 
     def __init__(self, conf, context=None, **kwargs):
diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index a9dc075..1da2df3 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -60,6 +60,10 @@ class SemismoothNewton(Newton):
             element resulting from too large deformations)."""),
         ('ls_min', '0.0 < float < 1.0', 1e-5, False,
          'The minimum step reduction factor.'),
+        ('log', 'dict or None', None, False,
+         """If not None, log the convergence according to the configuration in
+            the following form: ``{'text' : 'log.txt', 'plot' : 'log.pdf'}``.
+            Each of the dict items can be None."""),
     ]
 
     _colors = {'regular' : 'g', 'steepest_descent' : 'k'}
-- 
2.43.0


From 3c0f3d793a80d2e1895a36630fa199fb6e8f39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 52/63] fix: arguments of the eigenvector transformation in
 Eigenmomenta

---
 sfepy/homogenization/coefs_phononic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/coefs_phononic.py b/sfepy/homogenization/coefs_phononic.py
index 0967ca7..ec9c8d0 100644
--- a/sfepy/homogenization/coefs_phononic.py
+++ b/sfepy/homogenization/coefs_phononic.py
@@ -780,7 +780,7 @@ class Eigenmomenta(MiniAppBase):
         if opts.transform is not None:
             fun = problem.conf.get_function(opts.transform[0])
             def wrap_transform(vec, shape):
-                return fun(vec, shape, *opts.eig_vector_transform[1:])
+                return fun(vec, shape, *opts.transform[1:])
 
         else:
             wrap_transform = None
-- 
2.43.0


From 1fd3d2b8ffb7646f3f1be836ca366d5129487122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:46 +0000
Subject: [PATCH 53/63] fix: the 'schur' option and the eliminated variables in
 SchurEVP

---
 sfepy/homogenization/coefs_phononic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfepy/homogenization/coefs_phononic.py b/sfepy/homogenization/coefs_phononic.py
index ec9c8d0..7414cd6 100644
--- a/sfepy/homogenization/coefs_phononic.py
+++ b/sfepy/homogenization/coefs_phononic.py
@@ -628,6 +628,14 @@ class SchurEVP(SimpleEVP):
     Schur complement eigenvalue problem.
     """
 
+    def process_options(self):
+        opts = SimpleEVP.process_options(self)
+        opts.schur = self.options.get('schur')
+        if opts.schur is None:
+            raise ValueError('missing "schur" in options!')
+
+        return opts
+
     def prepare_matrices(self, problem):
         """
         A = K + B^T D^{-1} B
@@ -662,7 +670,7 @@ class SchurEVP(SimpleEVP):
         primary_var = schur['primary_var']
         eliminated_var = schur['eliminated_var']
 
-        mtx_s_phi_schur = - sc.dot(mtx_dib, mtx_s_phi)
+        mtx_s_phi_schur = - nm.dot(mtx_dib, mtx_s_phi)
         aux = nm.empty((variables.adi.n_dof_total,), dtype=nm.float64)
         setv = variables.set_vec_part
         for ii in range(n_eigs):
-- 
2.43.0


From f45e97867551765a467aefcc6afe694de7b49060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:46 +0000
Subject: [PATCH 54/63] fix: get_mem_usage() with sequences, mappings and
 sparse matrices

---
 sfepy/base/mem_usage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/base/mem_usage.py b/sfepy/base/mem_usage.py
index a7c6648..61612b2 100644
--- a/sfepy/base/mem_usage.py
+++ b/sfepy/base/mem_usage.py
@@ -2,7 +2,7 @@
 Memory usage functions.
 """
 import sys
-import collections
+from collections.abc import Mapping, Sequence
 
 import numpy as nm
 import scipy.sparse as sp
@@ -62,7 +62,7 @@ def get_mem_usage(obj, usage=None, name=None, traversal_order=None, level=0):
     if isinstance(obj, nm.ndarray):
         record.usage = obj.nbytes
 
-    elif isinstance(obj, sp.csr_array, sp.csr_matrix):
+    elif isinstance(obj, (sp.csr_array, sp.csr_matrix)):
         record.usage = (get_mem_usage(obj.data, usage, name='data',
                                       traversal_order=to, level=level)
                         + get_mem_usage(obj.indices, usage, name='indices',
@@ -82,7 +82,7 @@ def get_mem_usage(obj, usage=None, name=None, traversal_order=None, level=0):
                                                               record.kind)),
                                           traversal_order=to, level=level)
 
-    elif isinstance(obj, collections.Mapping):
+    elif isinstance(obj, Mapping):
         try:
             for subname, sub in obj.items():
                 to[0] += 1
@@ -93,7 +93,7 @@ def get_mem_usage(obj, usage=None, name=None, traversal_order=None, level=0):
         except:
             pass
 
-    elif isinstance(obj, collections.Sequence):
+    elif isinstance(obj, Sequence):
         for ii, sub in enumerate(obj):
             to[0] += 1
             record.usage += get_mem_usage(sub, usage,
-- 
2.43.0


From efe7f1b3a91c403f3f597bc96a06947f2c2e86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:47 +0000
Subject: [PATCH 55/63] fix: detection of the disp argument in ScipyFMinSolver

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index 1f2e118..671310d 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -371,7 +371,7 @@ class ScipyFMinSolver(OptimizationSolver):
         if conf.method in self._has_grad:
             kwargs['fprime'] = obj_fun_grad
 
-        if 'disp' in inspect.getargspec(self.solver)[0]:
+        if 'disp' in inspect.signature(self.solver).parameters:
             kwargs['disp'] = conf.verbose
 
         kwargs.update(self.build_solver_kwargs(conf))
-- 
2.43.0


From 9a99c905a7f981c8c3fd4e09b1136de35bb412ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:00 +0000
Subject: [PATCH 56/63] fix: IGDomain without regions has no vertex sets

---
 sfepy/discrete/iga/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/domain.py b/sfepy/discrete/iga/domain.py
index 25a89b9..9a76ec4 100644
--- a/sfepy/discrete/iga/domain.py
+++ b/sfepy/discrete/iga/domain.py
@@ -229,8 +229,8 @@ class IGDomain(Domain):
 
         self.gel = gels[desc]
 
+        self.vertex_set_bcs = {}
         if regions is not None:
-            self.vertex_set_bcs = {}
             for key, val in self.regions.items():
                 self.vertex_set_bcs[key] = remap[val]
 
-- 
2.43.0


From fb5b10bbdaec2d6e218fb8a605eaab1cbdb3c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 57/63] fix: ElasticConstants with regenerated relations needs
 the symbols

---
 sfepy/mechanics/matcoefs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index 115b40d..af3ec25 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -236,13 +236,14 @@ class ElasticConstants(Struct):
         """
         self.names = ['bulk', 'lam', 'mu', 'young', 'poisson', 'p_wave']
 
+        from . import elastic_constants as ec
+        self.ec = ec
+
         if _regenerate_relations:
             self.relations = self._construct_relations()
 
         else:
-            from . import elastic_constants as ec
             self.relations = ec.relations
-            self.ec = ec
 
         ## print sorted(self.relations.keys())
         ## print len(self.relations)
-- 
2.43.0


From 769f068c45812597050e43c5078dd5cfbaf88f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:08 +0000
Subject: [PATCH 58/63] fix: sign of the out-of-plane electric contribution in
 TransformToPlane.tensor_plane_stress()

The static condensation of the zero out-of-plane stress and electric
displacement adds the coupled contribution to the permittivity.
---
 sfepy/mechanics/matcoefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index af3ec25..28db722 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -448,7 +448,7 @@ class TransformToPlane(Struct):
             c2 = c3[tuple(mg(self.i_ms, self.i_ms))] \
                  - nm.dot(Feps.T, nm.dot(Ainv, Feps))
             d2 = d3[tuple(mg(self.i_m, self.i_m))] \
-                 - nm.dot(FE.T, nm.dot(Ainv, FE))
+                 + nm.dot(FE.T, nm.dot(Ainv, FE))
             b2 = b3[tuple(mg(self.i_m, self.i_ms))].T \
                  - nm.dot(FE.T, nm.dot(Ainv, Feps))
 
-- 
2.43.0


From d046456c2427523fdae8f6fa6bc7f87247488a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:18 +0000
Subject: [PATCH 59/63] fix: slopes of stages in RK4StepSolver

The solution of the linear system is the state minus the time derivative (as
in the other DG steppers), the state was subtracted once more.
---
 sfepy/solvers/ts_dg_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index edfb621..c4fd029 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -307,7 +307,7 @@ class RK4StepSolver(DGMultiStageTSS):
             if self.verbose:
                 output(self.stage_format.format(stage, lerr))
 
-            vec_x = - vec_dx - stage_vec
+            vec_x = stage_vec - vec_dx
 
             vec_x = self.post_stage_hook(vec_x)
 
-- 
2.43.0


From 8e75029d03d313715480ce121c4e16cb2e367c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:18 +0000
Subject: [PATCH 60/63] fix: time of the third stage of TVDRK3StepSolver

ts.time is already the end of the time step, the data of the third stage are
those of its middle; restore the time after the step.
---
 sfepy/solvers/ts_dg_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index c4fd029..95a440a 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -235,7 +235,8 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x2 = self.post_stage_hook(vec_x2)
 
         # ----3rd stage-----
-        ts.set_substep_time(1. / 2. * ts.dt)
+        # ts.time = t_{n+1}, the third stage is in the middle of the time step.
+        ts.set_substep_time(- 1. / 2. * ts.dt)
         vec_x2 = prestep_fun(ts, vec_x2)
         vec_r = fun(vec_x2)
         mtx_a = fun_grad(vec_x2)
@@ -252,6 +253,9 @@ class TVDRK3StepSolver(DGMultiStageTSS):
 
         vec_x3 = self.post_stage_hook(vec_x3)
 
+        # Restore t_{n+1}.
+        ts.restore_step_time()
+
         return vec_x3
 
 
-- 
2.43.0


From 13a546febb9be7d3228f0855cfdbc9cebc98f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:18 +0000
Subject: [PATCH 61/63] fix: times of the sub-steps of BatheTS

ts.time is already the end of the time step: the first sub-step is taken in its
middle and the second one at its end.
---
 sfepy/solvers/ts_solvers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..2c8e607 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1310,13 +1310,20 @@ class BatheTS(ElastodynamicsBaseTS):
         Solve a single time step.
         """
         dt = ts.dt
+
+        # Notation: t = t_{n+1}, t - dt = t_n.
+        # The first sub-step ends in the middle of the time step.
+        ts.set_substep_time(- 0.5 * dt)
+        vec = prestep_fun(ts, vec)
+
         ut, vt, at = unpack(vec)
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1326,8 +1333,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From f8d6fd24dc80e4723aadb6a439fb445c47dc7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:14 +0000
Subject: [PATCH 62/63] fix: tangent modulus of dw_ul_he_mooney_rivlin is
 consistent with its stress

All the factors of the tangent modulus were twice the derivative of the stress,
so Newton's method converged only linearly.
---
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..fae265c 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = -1.0 * pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 0a6d4e9ba16f9445919bf026c271104e77753018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:36 +0000
Subject: [PATCH 63/63] fix: square of a symmetric tensor in 3D in
 geme_mulT2S_AA()

The function used the storage (11, 22, 33, 23, 13, 12), all the others use
(11, 22, 33, 12, 13, 23): stresses and tangent moduli of the updated Lagrangian
Mooney-Rivlin term in 3D were wrong for strains with shear.
---
 sfepy/discrete/common/extmods/geommech.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..9ebff6a 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,12 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[4]*pa[3] + pa[1]*pa[5] + pa[2]*pa[5];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
-- 
2.43.0

