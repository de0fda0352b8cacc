From e8ee6e67413ddf4b552a4e662c1a4d239a9dd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 01/62] fix: boson_basis_general: the 'z' operator fell through
 into 'n' and multiplied by the occupation

---
 .../basis_general/_basis_general_core/source/boson_basis_core.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
index af83059..e9de55f 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
@@ -137,6 +137,7 @@ class boson_basis_core : public general_basis_core<I,P>
 				switch(op){
 					case 'z':
 						me_diag *= (occ-S);
+						break;
 					case 'n':
 						me_diag *= occ;
 						break;
-- 
2.43.0


From 4c3bcc10e88e1e81074488d293a64605fc5cce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 02/62] fix: ref_state left the group element unset for states
 that are their own representative

---
 .../_basis_general_core/source/general_basis_core.h              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
index 5226ead..8463531 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
@@ -150,6 +150,7 @@ I ref_state_core_unrolled(general_basis_core<I,P> *B, const I s,int g[],P &phase
 
 	for (int depth=0;depth<nt;depth++){
 		gg[depth] = 0;  // Initialize values
+		g[depth] = 0;  // s may already be its own representative
 		MAXVALSSUM += (B->pers[depth]-1);
 	}
 
-- 
2.43.0


From 77aa1c28d17b9a9aafebf68e5b474c23c7a99ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 03/62] fix: general_op_bra_ket_pcon multiplied diagonal matrix
 elements by a stale symmetry phase

---
 .../_basis_general_core/source/general_basis_op.h            | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 71a530e..c0cdd64 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1379,11 +1379,6 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                 }
                 else{ // diagonal matrix element
 
-                    for(int k=0;k<nt;k++){
-                        double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-                        m *= std::exp(std::complex<double>(0,-q));
-                    }
-
                     m *= sign;
 
                     local_err = check_imag(m,&M[i]); // assigns value to M[i]
-- 
2.43.0


From b65c9d4f1069bc6ec7198970e9ac5c211db71b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 04/62] fix: op_shift_sector dropped the symmetry phase when
 the operator maps a state within its own orbit

---
 .../_basis_general_core/source/general_basis_op.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index c0cdd64..a454f02 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1169,8 +1169,9 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
             if(local_err == 0){
                 P sign = 1;
+                const bool not_diag = (r != s);
 
-                if(r != s){ // off-diagonal matrix element
+                if(not_diag){ // off-diagonal matrix element
                     for(int k=0;k<nt;k++){g[k]=0;}
                     r = B_out->ref_state(r,g,sign);
                 }
@@ -1179,7 +1180,7 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
                 if(j>=0){ // ref_state is a representative
 
-                    if(r != s){
+                    if(not_diag){
                         double q = 0;
                         for(int k=0;k<nt;k++){
                             q += kk[k]*g[k];                              
-- 
2.43.0


From 9fd1052ea79a1b12da653d67bac60a5093b742d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:36 +0000
Subject: [PATCH 05/62] fix: project_to with pcon=True used the conjugate phase
 and recursed into project_from

---
 .../_basis_general_core/source/general_basis_get_vec.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index beeb719..854ebd0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -295,11 +295,11 @@ bool project_to_rep_basis(general_basis_core<I,P> *B,
 	}
 	int per = B->pers[depth];
 	double q = (2.0*M_PI*B->qs[depth])/per;
-	std::complex<double> cc = std::exp(std::complex<double>(0,-q));
+	std::complex<double> cc = std::exp(std::complex<double>(0,q));
 
 	if(depth < nt-1){
 		for(int j=0;j<per && err;j++){
-			err = project_from_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
+			err = project_to_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
 			c *= cc;
 			s = B->map_state(s,depth,phase);
 		}
-- 
2.43.0


From 239f37dd8b9f860c503b10d2b955f4d64afba6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 06/62] fix: project_to(sparse=True) applied the transpose of
 the projector instead of its adjoint

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index cc897d9..2b5a6c8 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -562,7 +562,7 @@ class basis_general(lattice_basis):
 
 		if sparse:
 			# current work-around for sparse
-			return self.get_proj(v0.dtype,pcon=pcon).T.dot(_sp.csr_matrix(v0))
+			return self.get_proj(v0.dtype,pcon=pcon).T.conj().dot(_sp.csr_matrix(v0))
 		else:
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
-- 
2.43.0


From 46eb944d51fb3524a23669fcf03b3c1d29d52fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 07/62] fix: bit_count shifted by -1 when counting all bits of
 the basis integer type (N=32, 64, ...)

---
 .../basis_general/_basis_general_core/source/bits_info.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 6c85af4..b4dfd8e 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -118,7 +118,9 @@ typename bit_info<T>::bit_index_type bit_pos(T x, typename bit_info<T>::bit_inde
 
 template<class T>
 int inline bit_count(T v,int l){
-  v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  if(l < (int)bit_info<T>::bits){ // for l == bits there is nothing to mask out
+    v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  }
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
-- 
2.43.0


From 595173f9afe04db3d0b9dd04b8d1c43aaa80a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 08/62] fix: bit_count overflowed its 8-bit lanes for more than
 255 set bits

---
 .../basis_general/_basis_general_core/source/bits_info.h    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index b4dfd8e..ede4330 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -124,6 +124,12 @@ int inline bit_count(T v,int l){
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
+  if(bit_info<T>::bits > 128){
+    // more than 255 set bits are possible: accumulate the count in 16 bit instead of 8 bit lanes
+    v = (v + (v >> 8)) & (T)~(T)0/65535*255;
+    T res = (T)(v * ((T)~(T)0/65535)) >> (bit_info<T>::bits - 16); // count
+    return (int)res;
+  }
   T res = (T)(v * ((T)~(T)0/255)) >> ((bit_info<T>::bytes - 1) * 8); // count
   return (int)res;
 
-- 
2.43.0


From fb9cc670ae76ad44663a8ff360f16aee4a3b7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 09/62] fix: get_vec/get_proj normalisation of 1D
 (kblock,pblock) sectors at k=pi for unit cells a>1

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a1b101a..cfc9f8c 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -872,7 +872,7 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
-			if 2*kblock == self._L or kblock == 0:
+			if (2*kblock*a) % self._L == 0:
 				norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			else:
 				norm = _np.full(self._basis.shape,(self._L/a)**2,dtype=dtype)
-- 
2.43.0


From 4e6d72b13dbc4a96d9654ab4d35bf8e735d1c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 10/62] fix: get_vec/get_proj normalisation of 1D
 (kblock,pblock,zblock) sectors for L>=11 (8-bit overflow)

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index cfc9f8c..3dd5c21 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -812,7 +812,7 @@ class basis_1d(lattice_basis):
 
 		if (type(kblock) is int) and (type(pblock) is int) and (type(zblock) is int):
 			c = _np.empty(self._M.shape,dtype=_np.int8)
-			nn = array(c)
+			nn = _np.empty(self._M.shape,dtype=self._M.dtype)
 			mm = array(c)
 			sign = array(c)
 
-- 
2.43.0


From 84970557462b87cecba76907624d52a39bfacc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 11/62] fix: 1D pzblock sectors dropped the fermion sign when
 mapping a state to its representative

---
 quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
index f3bf8cd..736fd6a 100755
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
@@ -53,6 +53,7 @@ cdef basis_type RefState_PZ_template(basis_type s,int L, NP_INT8_t * sign, int *
     t = fliplr(s,L,&current_sign,bitop_pars)
     t = flip_all(t,L,&current_sign,bitop_pars)
     if t > s:
+        sign[0] = current_sign
         R[0] = 1
         return t
 
-- 
2.43.0


From 05fdfe542a058c7e263f02df876323a696d1211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 12/62] fix: 1D bit_count returned 0 when counting all 32 (64)
 bits: wrong fermion signs for L=32 and L=64 chains

---
 quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
index b70ee4a..27b8af0 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
@@ -5,7 +5,7 @@
 
 
 int bitcount_32_C(npy_uint32 i,int l) {
-	i = i & ((0x7FFFFFFF) >> (31 - l));
+	if(l < 32) { i = i & ((((npy_uint32)1) << l) - 1); }
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcount(i);
 	#else
@@ -16,7 +16,7 @@ int bitcount_32_C(npy_uint32 i,int l) {
 }
 
 int bitcount_64_C(npy_uint64 i, int l) {
-	i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
+	if(l < 64) { i = i & ((((npy_uint64)1) << l) - 1); }
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcountll(i);
 	#else
-- 
2.43.0


From ed80ee4d9f4e3e9c3b49b24a0e719d44227878b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 13/62] fix: 1D (kblock,zAblock,zBblock) sectors dropped states
 invariant under both sublattice inversions (odd sps)

---
 .../basis_1d/_basis_1d_core/sources/basis_templates.pyx    | 7 +++++++
 .../basis/basis_1d/_basis_1d_core/sources/op_templates.pyx | 4 ++++
 quspin/basis/basis_1d/base_1d.py                           | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
index a637204..d5015a3 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
@@ -457,6 +457,13 @@ cdef npy_intp make_t_zA_zB_basis_template(ns_type next_state, basis_type[:] ns_p
                     N[Ns] = r            
                     basis[Ns] = s
                     Ns += 1
+
+            if mzA != -1 and mzB != -1: # invariant under both inversions (odd number of states per site)
+                if 1 + zAblock*cos(k*mzA) != 0 and 1 + zBblock*cos(k*mzB) != 0:
+                    m[Ns] = 5*(L+1)
+                    N[Ns] = r
+                    basis[Ns] = s
+                    Ns += 1
         
         s = next_state(s,ns_pars)
         MAX -= 1
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
index 492f77e..f7cbefc 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
@@ -953,6 +953,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nr = (1.0 + zBblock*cos(k*mmr) )/Nr
     elif cr == 4:
         nr = (1.0 + zAblock*zBblock*cos(k*mmr) )/Nr    
+    elif cr == 5:
+        nr = 4.0/Nr
     
 
     if cc == 1:
@@ -963,6 +965,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nc = (1.0 + zBblock*cos(k*mmc) )/Nc
     elif cc == 4:
         nc = (1.0 + zAblock*zBblock*cos(k*mmc) )/Nc    
+    elif cc == 5:
+        nc = 4.0/Nc
     
 
     ME=sqrt(nc/nr)*(zAblock**gA)*(zBblock**gB)
diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 3dd5c21..5ab59ad 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -870,6 +870,8 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zBblock*_np.cos(self._k*mm[mask]))	
 			_np.equal(c,4,out=mask)
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
+			_np.equal(c,5,out=mask)
+			norm[mask] *= 4.0
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
 			if (2*kblock*a) % self._L == 0:
-- 
2.43.0


From a1ad3b5db7c010a0e051d3d755b596aaa51f5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:03 +0000
Subject: [PATCH 14/62] fix: csr multi-vector product wrote to the wrong
 columns of strided column-major outputs

---
 quspin/tools/matvec/_oputils/csr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/matvec/_oputils/csr.h b/quspin/tools/matvec/_oputils/csr.h
index be291eb..fee24e5 100644
--- a/quspin/tools/matvec/_oputils/csr.h
+++ b/quspin/tools/matvec/_oputils/csr.h
@@ -122,14 +122,16 @@ void csr_matvecs_noomp_strided(const bool overwrite_y,
     }
     else{
         for(I m=0;m<n_vecs; m++){
+            T3 * y_row = y;
             for(I k = 0; k<n_row; k++){
                 for(I jj = Ap[k]; jj < Ap[k+1]; jj++){
                     const npy_intp ii = x_stride_row *  Aj[jj];
-                    (*y) += (a * Ax[jj]) * x[ii];
+                    (*y_row) += (a * Ax[jj]) * x[ii];
                 }
-                y += y_stride_row;
+                y_row += y_stride_row;
             }
             x += x_stride_col;
+            y += y_stride_col;
         }
     }
 }
-- 
2.43.0


From 535c938156bed2289989a617b84636f6ccbbcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:03 +0000
Subject: [PATCH 15/62] fix: matvec() ignored its out, overwrite_out and a
 arguments

---
 quspin/tools/matvec/matvec_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/matvec/matvec_core.py b/quspin/tools/matvec/matvec_core.py
index 66fd70f..dbd3314 100644
--- a/quspin/tools/matvec/matvec_core.py
+++ b/quspin/tools/matvec/matvec_core.py
@@ -98,7 +98,7 @@ def matvec(array,other,overwrite_out=False,out=None,a=1.0):
 	"""
 
 
-	return _matvec(array,other,overwrite_out=False,out=None,a=1.0)
+	return _matvec(array,other,overwrite_out=overwrite_out,out=out,a=a)
 
 
 
-- 
2.43.0


From de5deb7b012cae159af9da08d70fc5025ed47924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:32 +0000
Subject: [PATCH 16/62] fix: drive functions are compared by their factors, not
 by hash

---
 quspin/operators/_functions.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/quspin/operators/_functions.py b/quspin/operators/_functions.py
index f3cb435..35213f7 100644
--- a/quspin/operators/_functions.py
+++ b/quspin/operators/_functions.py
@@ -8,7 +8,7 @@ class function(object):
 		self._args = args
 
 	def conjugate(self):
-		return conjugate_function(function(self._f,self._args))
+		return conjugate_function(self)
 
 	def __str__(self):
 		return self._f.__name__
@@ -21,7 +21,7 @@ class function(object):
 
 	def __eq__(self,other):
 		if isinstance(other,function):
-			return hash(self)==hash(other)
+			return self._factor_counts()==other._factor_counts()
 		else:
 			return False
 
@@ -31,12 +31,18 @@ class function(object):
 	def __contains__(self,other):
 		return self == other
 
-	def _hash_list(self):
-		return [hash((self._f,self._args))]
+	def _factor_list(self,conj=False):
+		# elementary factors (function,arguments,complex conjugated) of this function, in any order
+		return [(self._f,self._args,conj)]
+
+	def _factor_counts(self):
+		counts = {}
+		for factor in self._factor_list():
+			counts[factor] = counts.get(factor,0) + 1
+		return counts
 
 	def __hash__(self):
-		hash_list = tuple(self._hash_list())
-		return hash(hash_list)
+		return hash(frozenset(self._factor_counts().items()))
 
 	def __call__(self,*args):
 		return self._f(*(args+self._args))
@@ -63,11 +69,8 @@ class comm_binary_function(function):
 		self._function1 = function1
 		self._function2 = function2
 
-	def _hash_list(self):
-		hash_list = self._function1._hash_list()
-		hash_list.extend(self._function2._hash_list())
-		hash_list.sort()
-		return hash_list
+	def _factor_list(self,conj=False):
+		return self._function1._factor_list(conj) + self._function2._factor_list(conj)
 
 	def __contains__(self,other):
 		return (self._function1.__contains__(other)) or (self._function2.__contains__(other))
@@ -111,8 +114,8 @@ class conjugate_function(function):
 	def __str__(self):
 		return "conj({0})".format(self._function1.__str__())
 
-	def _hash_list(self):
-		return [hash((1j,self._function1._f,self._function1._args))]
+	def _factor_list(self,conj=False):
+		return self._function1._factor_list(not conj)
 
 	def __contains__(self,other):
 		return self._function1.__contains__(other)
@@ -132,8 +135,8 @@ class pow_function(function):
 	def __str__(self):
 		return "{0}^{1}".format(self._function1.__str__(),self._p)
 
-	def _hash_list(self):
-		return [hash((self._function1._f,self._function1._args,self._p))]
+	def _factor_list(self,conj=False):
+		return self._function1._factor_list(conj)*self._p
 
 	def __mul__(self,other):
 		if self._function1 == other:
-- 
2.43.0


From 369f5bd3b24712c9ae97ce3514fb3de1e40f371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:32 +0000
Subject: [PATCH 17/62] fix: hamiltonian.diagonal() with a dense static part
 and dynamic terms

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3658387..946957d 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1926,7 +1926,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		diagonal = self._static.diagonal()
+		diagonal = self._static.diagonal().copy()
 		for func,Hd in iteritems(self._dynamic):
 			diagonal += Hd.diagonal() * func(time)
 
-- 
2.43.0


From 7353175484669f0d7c414082675a7c0c0db4b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 18/62] fix: hamiltonian.rdot() without an output array

---
 quspin/operators/hamiltonian_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 946957d..f1f458a 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -766,16 +766,18 @@ class hamiltonian(object):
 		if ndim not in [1,2,3]:
 			raise ValueError("expecting V.ndim < 4.")
 
+		out_T = None if out is None else out.T
+
 		if ndim == 1:
-			return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return self.transpose().dot(V,time=times,check=check,out=out_T,overwrite_out=overwrite_out,a=a)
 		elif ndim == 2:
 			if _np.array(times).ndim>0:
-				return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+				return self.transpose().dot(V,time=times,check=check,out=out_T,overwrite_out=overwrite_out,a=a)
 			else:
-				return self.transpose().dot(V.transpose(),time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+				return self.transpose().dot(V.transpose(),time=times,check=check,out=out_T,overwrite_out=overwrite_out,a=a).transpose()
 		else:
 			V_transpose = V.transpose((1,0,2))
-			return self.transpose().dot(V_transpose,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
+			return self.transpose().dot(V_transpose,time=times,check=check,out=out_T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
 
 	def quant_fluct(self,V,time=0,check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `hamiltonian` operator at time `time`, in state `V`.
-- 
2.43.0


From 0d58b1d8714d68cdd8f6770a108bfd436fa331b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 19/62] fix: Liouville-von Neumann equation multiplied csr/csc
 Hamiltonians from the right with their transpose

---
 quspin/operators/hamiltonian_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f1f458a..a0c77a6 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1280,11 +1280,13 @@ class hamiltonian(object):
 		"""
 		rho = rho.reshape((self.Ns,self.Ns))
 		self._static_matvec(self._static  ,rho  ,out=rho_out  ,a=+1.0,overwrite_out=True) # rho_out = self._static.dot(rho)
-		self._static_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
+		static_T = self._static.T # the transpose is stored in a different sparse format
+		_get_matvec_function(static_T)(static_T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
 		for func,Hd in iteritems(self._dynamic):
 			ft = func(time)
 			self._dynamic_matvec[func](Hd  ,rho  ,out=rho_out  ,a=+ft,overwrite_out=False) # rho_out += ft*Hd.dot(rho)
-			self._dynamic_matvec[func](Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
+			Hd_T = Hd.T
+			_get_matvec_function(Hd_T)(Hd_T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
 
 		rho_out *= -1j
 		return rho_out.ravel()
-- 
2.43.0


From b495bd890d6ceee148c88cfc33459f6db93c88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 20/62] fix: hamiltonian.toarray()/todense(): dynamic sparse
 parts go to the output array as an array, order= works

---
 quspin/operators/hamiltonian_core.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index a0c77a6..afb680c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1634,16 +1634,21 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=order or "C")
 			out = _np.asmatrix(out)
 
 		if _sp.issparse(self._static):
-			self._static.todense(order=order,out=out)
+			self._static.todense(out=out)
 		else:
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			if _sp.issparse(Hd):
+				Hd = Hd.toarray()
+			try:
+				out += Hd * func(time)
+			except TypeError:
+				out = out + Hd * func(time)
 		
 		return out
 
@@ -1681,15 +1686,20 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=order or "C")
 
 		if _sp.issparse(self._static):
-			self._static.toarray(order=order,out=out)
+			self._static.toarray(out=out)
 		else:
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			if _sp.issparse(Hd):
+				Hd = Hd.toarray()
+			try:
+				out += Hd * func(time)
+			except TypeError:
+				out = out + Hd * func(time)
 		
 		return out
 
-- 
2.43.0


From 8309813e19e08f5f3cf9b5103eca94cc6f23e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 21/62] fix: hamiltonian.dot() of sparse states at several
 times or with dense dynamic parts

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index afb680c..f2c6059 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -649,7 +649,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V):
 				V = V.tocsc()
-				return _sp.vstack([a*self.dot(V.get_col(i),time=t,check=check) for i,t in enumerate(time)])
+				return _sp.hstack([a*self.dot(V.getcol(i),time=t,check=check) for i,t in enumerate(time)],format="csc")
 			else:
 				if V.ndim == 3 and V.shape[0] != V.shape[1]:
 					raise ValueError("Density matrices must be square!")
@@ -700,7 +700,7 @@ class hamiltonian(object):
 
 				out = self._static * V
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd.dot(V))
+					out = out + func(time)*(Hd * V)
 
 				out = a*out
 			else:
-- 
2.43.0


From 2ca69f96637a4664212c4626972c48f8625456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 22/62] fix: expectation values of sparse pure states used
 numpy.asscalar, which no longer exists

---
 quspin/operators/hamiltonian_core.py            | 2 +-
 quspin/operators/quantum_LinearOperator_core.py | 2 +-
 quspin/operators/quantum_operator_core.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f2c6059..bd4ee95 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -907,7 +907,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V_right):
 				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-					return _np.asscalar((V_left.H.dot(V_right)).toarray())
+					return (V_left.H.dot(V_right)).toarray().item()
 				else: # density matrix
 					return V_right.diagonal().sum()
 			else:
diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22a0ab6..2ef2ab4 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -414,7 +414,7 @@ class quantum_LinearOperator(LinearOperator):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.H.dot(V_right)).toarray().item()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 959c06c..c36da22 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -661,7 +661,7 @@ class quantum_operator(object):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.H.dot(V_right)).toarray().item()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-- 
2.43.0


From be22cc77aec8021ce412acd5ac2212c643f14e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 23/62] fix: hamiltonian.as_dense_format() of a dense
 hamiltonian

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index bd4ee95..d39d84d 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1805,7 +1805,7 @@ class hamiltonian(object):
 		if _sp.issparse(self._static):
 			new_static = self._static.toarray()
 		else:
-			new_static = _np.asarray(self._static,copy=copy)
+			new_static = _np.array(self._static,copy=copy)
 
 		dynamic = [([M.toarray(),func] if _sp.issparse(M) else [M,func])
 						for func,M in iteritems(self.dynamic)]
-- 
2.43.0


From b967e6ba6a44620ec3ae68303fcf518985650adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 24/62] fix: hamiltonian.update_matrix_formats() for dynamic
 parts

---
 quspin/operators/hamiltonian_core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index d39d84d..816ec4a 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1749,15 +1749,19 @@ class hamiltonian(object):
 
 
 				if dynamic_fmt == "dense":
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
+					updates = {func:Hd.toarray() for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
 					updates.update({func:_np.ascontiguousarray(Hd) for func,Hd in iteritems(self._dynamic) if not _sp.issparse(Hd)})
 				else:
+					sparse_constuctor = getattr(_sp,dynamic_fmt+"_matrix")
 					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic)}
 
 				
 				self._dynamic.update(updates)
 
-			elif type(dynamic_fmt) in [list,tuple]:
+			elif type(dynamic_fmt) in [list,tuple,dict]:
+				if type(dynamic_fmt) is dict:
+					dynamic_fmt = [(fmt,key) for key,fmt in iteritems(dynamic_fmt)]
+
 				for fmt,(f,f_args) in dynamic_fmt:
 
 					func = function(f,tuple(f_args))
@@ -1767,7 +1771,7 @@ class hamiltonian(object):
 
 					try:
 						if fmt == "dense":
-							if _sp.issparse(self._static):
+							if _sp.issparse(self._dynamic[func]):
 								self._dynamic[func] = self._dynamic[func].toarray()
 							else:
 								self._dynamic[func] = _np.ascontiguousarray(self._dynamic[func])
@@ -1779,6 +1783,7 @@ class hamiltonian(object):
 						raise ValueError("({},{}) is not found in dynamic list.".format(f,f_args))
 
 
+		self.check_is_dense()
 		self._get_matvecs()	
 
 	def as_dense_format(self,copy=False):
-- 
2.43.0


From a25885bb21d46f44b5e1b8bbd24bba71f17c0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 25/62] fix: hamiltonian arithmetic mixing dense and sparse
 storage left numpy.matrix objects behind

---
 quspin/operators/hamiltonian_core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 816ec4a..a9b2949 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -558,6 +558,13 @@ class hamiltonian(object):
 		self._is_dense = not is_sparse
 
 	def _get_matvecs(self):
+		# combining dense and sparse matrices produces numpy.matrix objects
+		if isinstance(self._static,_np.matrix):
+			self._static = _np.asarray(self._static)
+		for func,Hd in list(iteritems(self._dynamic)):
+			if isinstance(Hd,_np.matrix):
+				self._dynamic[func] = _np.asarray(Hd)
+
 		self._static_matvec = _get_matvec_function(self._static)
 		self._dynamic_matvec = {}
 		for func,Hd in iteritems(self._dynamic):
-- 
2.43.0


From 14f0b22e4068320bf1164cde4bdbbfebc2c21e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 26/62] fix: products of hamiltonians with dense static parts
 multiplied element by element

---
 quspin/operators/hamiltonian_core.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index a9b2949..fe503b4 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -112,6 +112,15 @@ def anti_commutator(H1,H2):
 		return H1.dot(H2) + H2.dot(H1)
 
 
+def _matrix_product(A,B):
+	# matrix product for any combination of dense and sparse matrices
+	if _sp.issparse(A):
+		return A.dot(B)
+	elif _sp.issparse(B):
+		return A * B
+	else:
+		return _np.matmul(A,B)
+
 class HamiltonianEfficiencyWarning(Warning):
 	pass
 
@@ -2676,14 +2685,14 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._static = new._static * other
+		new._static = _matrix_product(new._static,other)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = new._dynamic[func] * other
+			new._dynamic[func] = _matrix_product(new._dynamic[func],other)
 
 			if _check_almost_zero(new._dynamic[func]):
 				new._dynamic.pop(func)
@@ -2702,13 +2711,13 @@ class hamiltonian(object):
 
 		# proform multiplication on all matricies of the new hamiltonian object.
 
-		new._static = other * new._static
+		new._static = _matrix_product(other,new._static)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = other.dot(new._dynamic[func])
+			new._dynamic[func] = _matrix_product(other,new._dynamic[func])
 
 			try:
 				new._dynamic[func].sum_duplicates()
@@ -2726,7 +2735,7 @@ class hamiltonian(object):
 	def _imul_sparse(self,other):
 
 
-		self._static =self._static * other
+		self._static =_matrix_product(self._static,other)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
-- 
2.43.0


From a7ab48d052fbad453c671c8a348049bf5d008f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 27/62] fix: in-place product with a sparse matrix (and
 project_to) multiplied the dynamic parts from the left

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index fe503b4..4052ed0 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2741,7 +2741,7 @@ class hamiltonian(object):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = other.dot(self._dynamic[func])
+			self._dynamic[func] = _matrix_product(self._dynamic[func],other)
 
 			try:
 				self._dynamic[func].sum_duplicates()
-- 
2.43.0


From 4d5103dfe9102afdc349db6a618b36261e8b26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 28/62] fix: reflected product of two driven hamiltonians (and
 project_to) had the wrong order

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 4052ed0..72a6d12 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2515,8 +2515,8 @@ class hamiltonian(object):
 
 	def _rmul_hamiltonian(self,other):
 		if self.dynamic and other.dynamic:
-			new = other.astype(self._dtype)
-			return (new.T._imul_hamiltonian(self.T)).T #lazy implementation
+			new = other.astype(_np.result_type(self._dtype,other._dtype))
+			return new._imul_hamiltonian(self)
 		elif self.dynamic:
 			return self._rmul_sparse(other.static)
 		elif other.dynamic:
-- 
2.43.0


From 8d6402b9d987088e3fc9163163f1dc533084baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 29/62] fix: in-place addition and subtraction of hamiltonians
 and dense matrices used an undefined name

---
 quspin/operators/hamiltonian_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 72a6d12..16f53bb 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2350,7 +2350,7 @@ class hamiltonian(object):
 		else:
 			other = _np.asanyarray(other)
 			self._mat_checks(other)	
-			return self._sub_dense(other)
+			return self._isub_dense(other)
 
 	##########################################################################################	
 	##########################################################################################
@@ -2488,9 +2488,9 @@ class hamiltonian(object):
 				try:
 					self._dynamic[func] -= Hd
 				except NotImplementedError:
-					self._dynamic[func] = new._dynamic[func] - Hd
+					self._dynamic[func] = self._dynamic[func] - Hd
 
-				if _check_almost_zero(new._dynamic[func]):
+				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
@@ -2850,7 +2850,7 @@ class hamiltonian(object):
 		try: 
 			self._static += other
 		except:
-			self._static = new._static + other
+			self._static = self._static + other
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2899,8 +2899,8 @@ class hamiltonian(object):
 		except:
 			self._static = self._static - other
 
-		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+		if _check_almost_zero(self._static):
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		self.check_is_dense()
 		self._get_matvecs()
-- 
2.43.0


From f5bb7982d1a5a19cb3ee738d21abc36f39f4fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 30/62] fix: sums of hamiltonians shared dynamic matrices with
 the second operand

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 16f53bb..efa7dc9 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2399,7 +2399,7 @@ class hamiltonian(object):
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
 			else:
-				new._dynamic[func] = Hd
+				new._dynamic[func] = Hd.astype(new._dtype)
 
 		new.check_is_dense()
 		new._get_matvecs()
@@ -2432,7 +2432,7 @@ class hamiltonian(object):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = Hd
+				self._dynamic[func] = Hd.astype(self._dtype)
 
 		self.check_is_dense()
 		self._get_matvecs()
-- 
2.43.0


From 9984725855b0bb7298425f3c85d256895e36a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 31/62] fix: arithmetic with dense matrices marked the sparse
 operand as dense

---
 quspin/operators/hamiltonian_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index efa7dc9..ca5c75f 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2825,7 +2825,7 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
+			new._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2871,7 +2871,7 @@ class hamiltonian(object):
 
 
 		if not self._is_dense:
-			self._is_dense = True
+			new._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2917,7 +2917,7 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
+			new._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		new._static = _np.asarray(new._static.dot(other))
@@ -2946,7 +2946,7 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
+			new._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-- 
2.43.0


From 0acd5fe854f6cdc5c0b5202e7722b565e2e5fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:35 +0000
Subject: [PATCH 32/62] fix: hamiltonian.project_to() kept the number of states
 of the unprojected operator

---
 quspin/operators/hamiltonian_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ca5c75f..8b79618 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1068,6 +1068,7 @@ class hamiltonian(object):
 					
 			new = self._rmul_sparse(proj.getH())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_sparse(proj)
 
 		elif _np.isscalar(proj):
@@ -1079,6 +1080,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1088,6 +1090,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.H)
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1098,6 +1101,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 	def rotate_by(self, other, generator=False,**exp_op_kwargs):
-- 
2.43.0


From 7921d2cb50f7546918d50e5c3664f67c14ee81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 33/62] fix: numpy.ndarray + hamiltonian and numpy.ndarray -
 hamiltonian returned None

---
 quspin/operators/hamiltonian_core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 8b79618..d61f8c1 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -3035,6 +3035,18 @@ class hamiltonian(object):
 				return inputs[0].__mul__(inputs[1])
 			elif ishamiltonian(inputs[1]):
 				return inputs[1].__rmul__(inputs[0])
+		elif func == _np.add:
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__add__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__radd__(inputs[0])
+		elif func == _np.subtract:
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__sub__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__rsub__(inputs[0])
+
+		return NotImplemented
 
 
 
-- 
2.43.0


From 5a741a767c5239b2853c03b5582d831188508b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:56 +0000
Subject: [PATCH 34/62] fix: default parameters of one quantum_operator call
 leaked into later calls and other objects

---
 quspin/operators/quantum_operator_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index c36da22..c14fef4 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1392,6 +1392,7 @@ class quantum_operator(object):
 		if not isinstance(pars,dict):
 			raise ValueError("expecing dictionary for parameters.")
 
+		pars = dict(pars) # the argument belongs to the caller (or is a shared default)
 		extra = set(pars.keys()) - set(self._quantum_operator.keys())
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
@@ -1417,6 +1418,7 @@ class quantum_operator(object):
 		if not isinstance(pars,dict):
 			raise ValueError("expecing dictionary for parameters.")
 
+		pars = dict(pars) # the argument belongs to the caller (or is a shared default)
 		extra = set(pars.keys()) - set(self._quantum_operator.keys())
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
-- 
2.43.0


From 368411f552bbfc931dad9557292f7fb0d52cafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 35/62] fix: quantum_operator.dot failed for sparse matrices

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index c14fef4..5055fb0 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -486,7 +486,7 @@ class quantum_operator(object):
 			if out is not None:
 				raise TypeError("'out' option does not apply for sparse inputs.")
 
-			sparse_constuctor = getattr(_sp,V.get_format()+"_matrix")
+			sparse_constuctor = getattr(_sp,V.getformat()+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
 				out = out + J*self._quantum_operator[key].dot(V)
-- 
2.43.0


From 18247d729d74a78180472c5e12dae7a953b9da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 36/62] fix: quantum_operator.dot dropped couplings below
 machine precision

---
 quspin/operators/quantum_operator_core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 5055fb0..0a11a7f 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -507,10 +507,9 @@ class quantum_operator(object):
 			else:
 				out = _np.zeros_like(V,dtype=result_dtype)
 
-			eps = _np.finfo(self.dtype).eps
 			V = _np.asarray(V,dtype=result_dtype)
 			for key,J in pars.items():
-				if _np.abs(J)>eps:
+				if J != 0:
 					self._matvec_functions[key](self._quantum_operator[key],V,overwrite_out=False,a=a*J,out=out)
 
 
-- 
2.43.0


From 3213dd1f73ed931d0c4d3711d7f6f4e542ae9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 37/62] fix: quantum_operator.rdot failed without an output
 array

---
 quspin/operators/quantum_operator_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 0a11a7f..0c88761 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -552,7 +552,10 @@ class quantum_operator(object):
 		corresponds to :math:`B = AH`. 
 	
 		"""
-		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+		if out is not None:
+			out = out.T
+
+		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose()
 
 	def quant_fluct(self,V,pars={},check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `quantum_operator` object for parameters `pars`, in state `V`.
-- 
2.43.0


From 532057ee3a7db15a6cd07524dd286ecd75a77c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 38/62] fix: quantum_operator.quant_fluct failed for density
 matrices

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 0c88761..377be31 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -609,7 +609,7 @@ class quantum_operator(object):
 		if V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot,pars=pars,check=check)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
-- 
2.43.0


From 51d3759325d188d5d6685247ff16099405bfac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:16 +0000
Subject: [PATCH 39/62] fix: quantum_operator.toarray and todense did not fill
 the output array and added to its old content

---
 quspin/operators/quantum_operator_core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 377be31..2e41c39 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -958,13 +958,15 @@ class quantum_operator(object):
 		"""
 		pars = self._check_scalar_pars(pars)
 
-		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
-			out = _np.asmatrix(out)
+		H = _np.zeros(self._shape,dtype=self.dtype)
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			H = _np.asarray(H + J * self._quantum_operator[key])
 		
+		if out is None:
+			return _np.asmatrix(H)
+
+		out[...] = H
 		return out
 
 	def toarray(self,pars={},out=None):
@@ -994,12 +996,15 @@ class quantum_operator(object):
 
 		pars = self._check_scalar_pars(pars)
 
-		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+		H = _np.zeros(self._shape,dtype=self.dtype)
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			H = _np.asarray(H + J * self._quantum_operator[key])
 		
+		if out is None:
+			return H
+
+		out[...] = H
 		return out
 
 	def aslinearoperator(self,pars={}):
-- 
2.43.0


From 52b61b6bf8079efb420215ec92458a3852cf3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:16 +0000
Subject: [PATCH 40/62] fix: quantum_operator modified the matrices it was
 constructed from and dropped operator strings given along with matrices

---
 quspin/operators/quantum_operator_core.py | 36 ++++++++---------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 2e41c39..90e1f90 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -201,46 +201,34 @@ class quantum_operator(object):
 				for i,O in enumerate(O_list):
 					if _sp.issparse(O):
 						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
+						if key not in self._quantum_operator:
+							self._quantum_operator[key] = O.copy() if copy else O
 						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+							self._quantum_operator[key] = self._quantum_operator[key] + O
 
 					elif O.__class__ is _np.ndarray:
 						self._mat_checks(O)
 						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
+						if key not in self._quantum_operator:
+							self._quantum_operator[key] = O.copy() if copy else O
 						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+							self._quantum_operator[key] = self._quantum_operator[key] + O
 
 					elif O.__class__ is _np.matrix:
 						self._mat_checks(O)
 						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
+						if key not in self._quantum_operator:
+							self._quantum_operator[key] = O.copy() if copy else O
 						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+							self._quantum_operator[key] = self._quantum_operator[key] + O
 
 					else:
 						O = _np.asanyarray(O)
 						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
+						if key not in self._quantum_operator:
+							self._quantum_operator[key] = O.copy() if copy else O
 						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+							self._quantum_operator[key] = self._quantum_operator[key] + O
 
 					
 
-- 
2.43.0


From e0cfcbefab65630d99b9243166af236a16d4b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:16 +0000
Subject: [PATCH 41/62] fix: negating a quantum_operator changed the operator
 itself

---
 quspin/operators/quantum_operator_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 90e1f90..33aa614 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1292,7 +1292,9 @@ class quantum_operator(object):
 			return self.tocsr(pars)
 
 	def __neg__(self):
-		return self.__imul__(-1)
+		new = self.astype(self._dtype,copy=True)
+		new *= -1
+		return new
 
 	def __iadd__(self,other):
 		self._is_dense = self._is_dense or other._is_dense
-- 
2.43.0


From 2a9a0f7b7f5736665867fb80950759ce52577b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:16 +0000
Subject: [PATCH 42/62] fix: quantum_operator arithmetic with python scalars
 failed and in-place sums shared matrices with the other operand

---
 quspin/operators/quantum_operator_core.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 33aa614..6e3ec8a 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1297,13 +1297,13 @@ class quantum_operator(object):
 		return new
 
 	def __iadd__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
+			self._is_dense = self._is_dense or other._is_dense
 			for key,value in iteritems(other._quantum_operator):
 				if key in self._quantum_operator:
 					self._quantum_operator[key] = self._quantum_operator[key] + value
 				else:
-					self._quantum_operator[key] = value
+					self._quantum_operator[key] = value.copy()
 
 				if _check_almost_zero(self._quantum_operator[key]):
 					self._quantum_operator.pop(key)
@@ -1316,14 +1316,14 @@ class quantum_operator(object):
 			return NotImplemented
 
 	def __add__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		result_dtype = _np.result_type(self._dtype, getattr(other,'dtype',other))
 		new = self.astype(result_dtype,copy=True)
 		new += other
 		return new
 
 	def __isub__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
+			self._is_dense = self._is_dense or other._is_dense
 			for key,value in iteritems(other._quantum_operator):
 				if key in self._quantum_operator:
 					self._quantum_operator[key] = self._quantum_operator[key] - value
@@ -1341,7 +1341,7 @@ class quantum_operator(object):
 			return NotImplemented
 
 	def __sub__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		result_dtype = _np.result_type(self._dtype, getattr(other,'dtype',other))
 		new = self.astype(result_dtype,copy=True)
 		new -= other
 		return new		
@@ -1359,12 +1359,12 @@ class quantum_operator(object):
 			return self
 
 	def __mul__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		result_dtype = _np.result_type(self._dtype, getattr(other,'dtype',other))
 		new = self.astype(result_dtype,copy=True)
 		new *= other
 		return new
 
-	def __idiv__(self,other):
+	def __itruediv__(self,other):
 		if isinstance(other,quantum_operator):
 			return NotImplemented
 		elif not _np.isscalar(other):
@@ -1375,8 +1375,8 @@ class quantum_operator(object):
 			self._update_matvecs()
 			return self
 
-	def __div__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+	def __truediv__(self,other):
+		result_dtype = _np.result_type(self._dtype, getattr(other,'dtype',other))
 		new = self.astype(result_dtype,copy=True)
 		new /= other
 		return new
-- 
2.43.0


From e828500b3c9a3447b37721e8f4345c057cbc0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:34 +0000
Subject: [PATCH 43/62] fix: quantum_operator sums mixing dense and sparse
 storage left numpy.matrix objects behind

---
 quspin/operators/quantum_operator_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 6e3ec8a..7a27513 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1443,6 +1443,10 @@ class quantum_operator(object):
 		self._matvec_functions = {}
 
 		for key in self._quantum_operator.keys():
+			# combining dense and sparse matrices produces numpy.matrix objects
+			if isinstance(self._quantum_operator[key],_np.matrix):
+				self._quantum_operator[key] = _np.asarray(self._quantum_operator[key])
+
 			self._matvec_functions[key] = _get_matvec_function(self._quantum_operator[key])
 
 def isquantum_operator(obj):
-- 
2.43.0


From b8f8032ad0d12fc27ae53cb583448bac6e476766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:11 +0000
Subject: [PATCH 44/62] fix: quantum_operator.quant_fluct failed for a single
 pure state

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 7a27513..eca772c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -594,7 +594,7 @@ class quantum_operator(object):
 		V_dot = self.dot(V,pars=pars,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) > 1 and V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
 			V_dot = self.dot(V_dot,pars=pars,check=check)
-- 
2.43.0


From f58adb333d6cab1b92b09d6c449955b7abe85a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:12 +0000
Subject: [PATCH 45/62] fix: quantum_operator.dot of a sparse matrix failed for
 operators stored dense

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index eca772c..51ab55b 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -477,7 +477,7 @@ class quantum_operator(object):
 			sparse_constuctor = getattr(_sp,V.getformat()+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
-				out = out + J*self._quantum_operator[key].dot(V)
+				out = out + J*sparse_constuctor(self._quantum_operator[key]).dot(V)
 			out = a*out
 
 		else:
-- 
2.43.0


From 28bb521c8b0b0fc3664cc0f1a8613ff593c21e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 46/62] fix: exp_op.H, exp_op.T, conj() and sandwich() changed
 the exp_op they were called on

---
 quspin/operators/exp_op_core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ab93dbc..493d78d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -227,8 +227,9 @@ class exp_op(object):
 		if copy:
 			return self.copy().transpose(copy = False)
 		else:
-			self._O=self._O.transpose()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.transpose()
+			return new
 
 	def conj(self):
 		"""Conjugates `exp_op` operator.
@@ -248,9 +249,10 @@ class exp_op(object):
 		>>> expO_conj = expO.conj()
 
 		"""
-		self._O=self._O.conj()
-		self._a = self._a.conjugate()
-		return self
+		new = _shallowcopy(self)
+		new._O = self._O.conj()
+		new._a = self._a.conjugate()
+		return new
 
 	def getH(self,copy = False):
 		"""Calculates hermitian conjugate of `exp_op` operator.
@@ -274,9 +276,10 @@ class exp_op(object):
 		if copy:
 			return self.copy().getH(copy = False)
 		else:
-			self._O = self._O.getH(copy = False)
-			self._a = self._a.conjugate()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.getH(copy = False)
+			new._a = self._a.conjugate()
+			return new
 
 
 	def copy(self):
-- 
2.43.0


From 8e25369754a628c3e33ab6884b0dc9e91a127b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 47/62] fix: exp_op.sandwich without a grid conjugated the
 wrong factor and ignored the shift

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 493d78d..881b84f 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -686,8 +686,8 @@ class exp_op(object):
 		else:
 			if self._grid is None and self._step is None:
 
-				other = self.dot(other,**call_kwargs)
-				other = self.H.rdot(other,**call_kwargs)
+				other = self.H.dot(other,shift=shift,**call_kwargs)
+				other = self.rdot(other,shift=shift,**call_kwargs)
 				return other
 
 			else:
-- 
2.43.0


From d00de2ab2f2428ee0f84b6969433bbc395c66205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 48/62] fix: exp_op.dot and rdot of a hamiltonian on a grid
 swapped the grid and its step

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 881b84f..98d963d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -750,7 +750,7 @@ def _hamiltonian_dot(M, other):
 
 	return new
 
-def _hamiltonian_iter_dot(M, other, grid, step):
+def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_dot(M, other)
@@ -771,7 +771,7 @@ def _hamiltonian_rdot(M, other):
 
 	return new
 
-def _hamiltonian_iter_rdot(M, other, grid, step):
+def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_rdot(M, other)
-- 
2.43.0


From 1fd2a5881f946ae47ea77ca47ec196ec12cbe705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 49/62] fix: exp_op.dot of a hamiltonian left it with routines
 for its old storage format

---
 quspin/operators/exp_op_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 98d963d..52afcda 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -748,6 +748,7 @@ def _hamiltonian_dot(M, other):
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
 
+	new._get_matvecs()
 	return new
 
 def _hamiltonian_iter_dot(M, other, step, grid):
@@ -769,6 +770,7 @@ def _hamiltonian_rdot(M, other):
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
 
+	new._get_matvecs()
 	return new
 
 def _hamiltonian_iter_rdot(M, other, step, grid):
-- 
2.43.0


From 62218dfeea768abfd90b5aa9e5ac84acdf9a0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 50/62] fix: exp_op.set_iterate accepted a missing grid

---
 quspin/operators/exp_op_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 52afcda..4c4be05 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -390,7 +390,7 @@ class exp_op(object):
 			raise ValueError("iterate option must be true or false.")
 
 		if Value:
-			if (self._grid, self._step) is (None, None):
+			if self._grid is None and self._step is None:
 				raise ValueError("grid must be set in order to set iterate to be True.")
 
 		self._iterate = Value
-- 
2.43.0


From 63f9f6996eb24d72e06fe1f557aad2133f1f0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 51/62] fix: exp_op.set_grid rejected the default values of num
 and endpoint

---
 quspin/operators/exp_op_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 4c4be05..259b7b8 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -337,11 +337,15 @@ class exp_op(object):
 		if not (_np.isreal(start) and _np.isreal(stop)):
 			raise ValueError("expecting real values for 'start' and 'stop'")
 
-		if type(num) is not None:
+		if num is None:
+			num = 50
+		else:
 			if type(num) is not int:
 				raise ValueError("expecting integer for 'num'.")
 
-		if type(endpoint) is not None:
+		if endpoint is None:
+			endpoint = True
+		else:
 			if type(endpoint) is not bool:
 				raise ValueError("expecting bool for 'endpoint'.")
 
-- 
2.43.0


From cd0b4e6b71341fbc41e06a8d645bf5c9adf32eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 52/62] fix: exp_op.get_mat failed for sparse operators

---
 quspin/operators/exp_op_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 259b7b8..8d05244 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -6,6 +6,7 @@ from . import hamiltonian_core,quantum_operator_core
 import scipy
 import scipy.linalg as _la
 import scipy.sparse as _sp
+import scipy.sparse.linalg as _sla
 import numpy as _np
 
 from scipy.sparse.linalg import expm_multiply as _expm_multiply
@@ -430,7 +431,7 @@ class exp_op(object):
 		if self.O.is_dense or dense:
 			return _la.expm(self._a * self.O.toarray(**call_kwargs))
 		else:
-			return _la.expm(self._a * self.O.tocsc(**call_kwargs))
+			return _sla.expm(self._a * self.O.tocsc(**call_kwargs))
 
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
-- 
2.43.0


From 2b57e30bbbcc12d93320a5a10c7143f1c586e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:01 +0000
Subject: [PATCH 53/62] fix: exp_op.dot with shift failed for dense operators

---
 quspin/operators/exp_op_core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 8d05244..72cd9a7 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -492,6 +492,9 @@ class exp_op(object):
 		else:
 			M = self._a * self.O(**call_kwargs)
 
+		if isinstance(M,_np.matrix): # sum of dense and sparse matrices
+			M = _np.asarray(M)
+
 		if self._iterate:
 			if is_ham:
 				return _hamiltonian_iter_dot(M, other, self._step, self._grid)
@@ -587,6 +590,9 @@ class exp_op(object):
 		else:
 			M = (self._a * self.O(**call_kwargs)).T
 
+		if isinstance(M,_np.matrix): # sum of dense and sparse matrices
+			M = _np.asarray(M)
+
 		if self._iterate:
 			if is_ham:
 				return _hamiltonian_iter_rdot(M, other.T, self._step, self._grid)
@@ -680,6 +686,9 @@ class exp_op(object):
 		else:
 			M = self._a.conjugate() * self.O.H(**call_kwargs)
 			
+		if isinstance(M,_np.matrix): # sum of dense and sparse matrices
+			M = _np.asarray(M)
+
 		if self._iterate:
 
 			if is_ham:
-- 
2.43.0


From 3d36cd6d78e491f0c9c7c32fd8239477fe143821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 54/62] fix: transpose, conjugate, getH, rmatvec and left
 multiplication of a quantum_LinearOperator changed the operator itself

---
 quspin/operators/quantum_LinearOperator_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 2ef2ab4..896302b 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -21,6 +21,7 @@ from scipy.sparse.linalg import LinearOperator
 
 from six import iteritems
 from six.moves import zip
+from copy import copy as _shallowcopy
 
 __all__=["quantum_LinearOperator","isquantum_LinearOperator"]
 
@@ -557,8 +558,9 @@ class quantum_LinearOperator(LinearOperator):
 		if copy:
 			return self.copy().transpose()
 		else:
-			self._transposed = not self._transposed
-			return self
+			new = _shallowcopy(self)
+			new._transposed = not self._transposed
+			return new
 
 	def conjugate(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -578,8 +580,10 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_conj = H.conj()
 
 		"""
-		self._conjugated = not self._conjugated
-		return self
+		new = _shallowcopy(self)
+		new._conjugated = not self._conjugated
+		new._scale = self._scale.conj()
+		return new
 
 	def conj(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -621,7 +625,7 @@ class quantum_LinearOperator(LinearOperator):
 
 		"""
 		if copy:
-			return self.copy().get_H()
+			return self.copy().getH()
 		else:
 			return self.conj().transpose()
 
-- 
2.43.0


From da1c8dad1bf992612755b6c7c1ed16822bdfc226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 55/62] fix: quantum_LinearOperator swapped transposition and
 conjugation and did not conjugate its diagonal

---
 quspin/operators/quantum_LinearOperator_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 896302b..18061a8 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -492,10 +492,11 @@ class quantum_LinearOperator(LinearOperator):
 		new_other = _np.zeros_like(other)
 		
 		if self._diagonal is not None:
-			_np.multiply(other.T,self._diagonal,out=new_other.T)
+			diagonal = self._diagonal.conj() if self._conjugated else self._diagonal
+			_np.multiply(other.T,diagonal,out=new_other.T)
 
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
-							self._conjugated,self._transposed,v_out=new_other)
+							transposed=self._transposed,conjugated=self._conjugated,v_out=new_other)
 
 		return new_other
 
-- 
2.43.0


From 7d34a930b344ac06127b68b42d5373cd4ba4a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 56/62] fix: scalar multiples of a quantum_LinearOperator were
 None and did not scale the operator

---
 quspin/operators/quantum_LinearOperator_core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 18061a8..2b2c7fd 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -498,7 +498,7 @@ class quantum_LinearOperator(LinearOperator):
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
 							transposed=self._transposed,conjugated=self._conjugated,v_out=new_other)
 
-		return new_other
+		return new_other * self._scale
 
 	def _rmatvec(self,other):
 		return self.H._matvec(other)
@@ -766,8 +766,10 @@ class quantum_LinearOperator(LinearOperator):
 			return (self.T._mul_sparse(other.T)).T
 
 	def _mul_scalar(self,other):
-		self._dtype = _np.result_type(self._dtype,other)
-		self._scale *= other
+		new = _shallowcopy(self)
+		new._dtype = _np.result_type(self._dtype,other)
+		new._scale = self._scale * other
+		return new
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-- 
2.43.0


From 2532323a7dd63a8b88b10295bbd425a07f36dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 57/62] fix: quantum_LinearOperator.dot failed with an output
 array

---
 quspin/operators/quantum_LinearOperator_core.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 2b2c7fd..27a0a03 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -303,16 +303,11 @@ class quantum_LinearOperator(LinearOperator):
 			out = _np.asanyarray(out)
 			result_dtype = _np.result_type(self._dtype,other.dtype)
 
-			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,shape)):
+			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,other.shape)):
 				raise ValueError("out must be C-congituous writable array \
 					with dtype {} and shape {}.".format(result_dtype,self._shape))
 
-			if self.diagonal is not None:
-				_np.multiply(other.T,self.diagonal,out=out.T)
-
-			self.basis.inplace_Op(other, self._static_list, self._dtype,
-				self._conjugated,self._transposed,v_out=out,a=a)
-
+			out[...] = a * (self * other)
 			return out
 		else:
 			return a * (self * other)
-- 
2.43.0


From 255959335fbd6de89f9dfdd03511d55593294f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 58/62] fix: quantum_LinearOperator.dot failed for sparse
 matrices

---
 quspin/operators/quantum_LinearOperator_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 27a0a03..913d144 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -775,15 +775,16 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		if self.diagonal is not None:
-			new_other = _sp.dia_matrix((_np.asarray([self._diagonal]),_np.array([0])),shape=self._shape).dot(other)
+		if self._diagonal is not None:
+			diagonal = self._diagonal.conj() if self._conjugated else self._diagonal
+			new_other = _sp.dia_matrix((_np.asarray([diagonal]),_np.array([0])),shape=self._shape).dot(other)
 			if new_other.dtype != result_dtype:
 				new_other = new_other.astype(result_dtype)
 		else:
 			new_other = _sp.csr_matrix(other.shape,dtype=result_dtype)
 
 
-		for opstr,indx,J in self.static_list:
+		for opstr,indx,J in self._static_list:
 			if not self._transposed:
 				ME, row, col = self.basis.Op(opstr, indx, J, self._dtype)
 			else:
@@ -794,7 +795,7 @@ class quantum_LinearOperator(LinearOperator):
 
 			new_other = new_other + _sp.csr_matrix((ME,(row,col)),shape=self._shape).dot(other)
 
-		return new_other
+		return new_other * self._scale
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-- 
2.43.0


From 69216fb71eb582dc2bd92064c910d15b28033582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 59/62] fix: quantum_LinearOperator.quant_fluct used undefined
 names

---
 quspin/operators/quantum_LinearOperator_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 913d144..b2cc633 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -353,13 +353,13 @@ class quantum_LinearOperator(LinearOperator):
 
 		# fluctuations =  expctH2 - expctH^2
 		kwargs = dict(enforce_pure=enforce_pure)
-		V_dot = self.dot(V,check=check)
+		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) > 1 and V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
-- 
2.43.0


From d0612450a7126bee3f9540b923023d542d1e708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 60/62] fix: quantum_LinearOperator.copy failed

---
 quspin/operators/quantum_LinearOperator_core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index b2cc633..ac415b6 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -629,9 +629,12 @@ class quantum_LinearOperator(LinearOperator):
 
 	def copy(self):
 		"""Returns a deep copy of `quantum_LinearOperator` object."""
-		return quantum_LinearOperator(list(self._static_list),basis=self._basis,
-							diagonal=self._diagonal,dtype=self._dtype,
-							check_symm=False,check_herm=False,check_pcon=False,copy=True)
+		new = _shallowcopy(self)
+		new._public_static_list = list(self._public_static_list)
+		new._static_list = list(self._static_list)
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.copy()
+		return new
 
 	def __repr__(self):
 		return "<{0}x{1} quspin quantum_LinearOperator of type '{2}'>".format(*(self._shape[0],self._shape[1],self._dtype))
-- 
2.43.0


From 61882b05da1473ea2aacf25cf30ba35d02e3e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 61/62] fix: products of a quantum_LinearOperator and a
 hamiltonian used an undefined attribute

---
 quspin/operators/quantum_LinearOperator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index ac415b6..3c40c71 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -771,7 +771,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__mul__(other._static_list)
+		static = self.__mul__(other.static)
 		dynamic = [[self.__mul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
@@ -802,7 +802,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__rmul__(other._static_list)
+		static = self.__rmul__(other.static)
 		dynamic = [[self.__rmul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
-- 
2.43.0


From b7156f6f6566f075ddd72cb83eeb353af5db9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 62/62] fix: quantum_LinearOperator added its diagonal
 operators to the array passed as diagonal

---
 quspin/operators/quantum_LinearOperator_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 3c40c71..34e41cc 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -135,6 +135,8 @@ class quantum_LinearOperator(LinearOperator):
 			if _is_diagonal(row,col):
 				if self._diagonal is None:
 					self._diagonal = _np.zeros((self.Ns,),dtype=ME.dtype)
+				elif self._diagonal is diagonal or self._diagonal.dtype != ME.dtype:
+					self._diagonal = self._diagonal.astype(_np.result_type(self._diagonal.dtype,ME.dtype))
 
 				_update_diag(self._diagonal,row,ME)
 
-- 
2.43.0

