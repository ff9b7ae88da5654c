From 94d43439f1e851676d365fc42a141f1e151c5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 001/190] fix: vector::normInf reads past the end of the vector
 for a unit increment and non-zero offset

---
 src/LinAlg/matrix.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/matrix.h b/src/LinAlg/matrix.h
index 4b0b300..a30e5e3 100644
--- a/src/LinAlg/matrix.h
+++ b/src/LinAlg/matrix.h
@@ -1129,23 +1129,25 @@ namespace utl //! General utility classes and functions.
   template<> inline
   float vector<float>::normInf(size_t& off, int inc, bool sign) const
   {
-    if (inc < 1 || myVec.empty())
+    if (inc < 1 || myVec.size() <= off)
       return 0.0f;
 
-    const float* v = myVec.data() + off;
-    off = 1 + cblas_isamax(myVec.size()/inc,v,inc);
-    return sign ? v[(off-1)*inc] : fabsf(v[(off-1)*inc]);
+    const int n = 1 + (myVec.size()-off-1)/inc;
+    const float v = myVec[off += cblas_isamax(n,myVec.data()+off,inc)*inc];
+    off = 1 + off/inc;
+    return sign ? v : fabsf(v);
   }
 
   template<> inline
   double vector<double>::normInf(size_t& off, int inc, bool sign) const
   {
-    if (inc < 1 || myVec.empty())
+    if (inc < 1 || myVec.size() <= off)
       return 0.0;
 
-    const double* v = myVec.data() + off;
-    off = 1 + cblas_idamax(myVec.size()/inc,v,inc);
-    return sign ? v[(off-1)*inc] : fabs(v[(off-1)*inc]);
+    const int n = 1 + (myVec.size()-off-1)/inc;
+    const double v = myVec[off += cblas_idamax(n,myVec.data()+off,inc)*inc];
+    off = 1 + off/inc;
+    return sign ? v : fabs(v);
   }
 
   template<> inline
-- 
2.43.0


From 2ecebf96a823559e08273124a073e3f256925b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 002/190] fix: matrix4d::fillColumn writes to the wrong column

---
 src/LinAlg/matrixnd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/matrixnd.h b/src/LinAlg/matrixnd.h
index 0a6d337..7b8c74c 100644
--- a/src/LinAlg/matrixnd.h
+++ b/src/LinAlg/matrixnd.h
@@ -323,7 +323,7 @@ namespace utl
       CHECK_INDEX("matrix4d::fillColumn: Third index " ,i3,this->n[2]);
       CHECK_INDEX("matrix4d::fillColumn: Fourth index ",i4,this->n[3]);
       size_t ndata = this->n[0] > data.size() ? data.size() : this->n[0];
-      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1)) + this->n[2]*(i4-1)),
+      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1) + this->n[2]*(i4-1))),
              data.data(),ndata*sizeof(T));
     }
 
-- 
2.43.0


From 89daee5a1543e015b147c8b48c3d2cbae76038de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 003/190] fix: utl::invert reports failure for small matrices
 with negative determinant

---
 src/LinAlg/MatVec.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/MatVec.C b/src/LinAlg/MatVec.C
index 17fbbd8..98c1472 100644
--- a/src/LinAlg/MatVec.C
+++ b/src/LinAlg/MatVec.C
@@ -151,7 +151,10 @@ bool utl::transform (Vector& V, const Matrix& Tn, bool transpose)
 bool utl::invert (Matrix& A)
 {
   if (A.rows() <= 3)
-    return A.inverse() > 0.0;
+  {
+    const Real det = A.inverse();
+    return det != Real(0) && det != Real(-999);
+  }
 
 #ifdef HAS_BLAS
   if (sizeof(Real) != sizeof(double))
-- 
2.43.0


From fc15c9cfad55f36583f109cdf953fc171f8e97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 004/190] fix: SparseMatrix::multiply treats UMFPACK matrices
 as row-oriented

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3806803..b7bda08 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -588,7 +588,7 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
   if (editable)
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
-  else if (solver == SUPERLU) {
+  else if (solver == SUPERLU || solver == UMFPACK) {
     double* y = Cptr->ptr();
 #pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
       for (size_t j = 1; j <= ncol; j++)
-- 
2.43.0


From 7d94d76ac23427161886423c5adf7d3b27f17c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 005/190] fix: SparseMatrix::dump of compressed matrices writes
 wrong values or extra terms

---
 src/LinAlg/SparseMatrix.C | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index b7bda08..3f6f056 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -374,20 +374,22 @@ void SparseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
   else if (solver == SUPERLU || solver == UMFPACK)
   {
     // Column-oriented format with 0-based indices
-    os << JA.front()+1 <<" 1 "<< A[0];
     for (size_t j = 1; j <= ncol; j++)
       for (int i = IA[j-1]; i < IA[j]; i++)
-        if (j > 1 || i != IA.front())
-          os << end << JA[i]+1 <<' '<< j <<' '<< A[i];
+      {
+        if (i > 0) os << end;
+        os << JA[i]+1 <<' '<< j <<' '<< A[i];
+      }
   }
   else
   {
     // Row-oriented format with 1-based indices
-    os <<"1 "<< JA.front() <<' '<< A[0];
     for (size_t i = 1; i <= nrow; i++)
       for (int j = IA[i-1]; j < IA[i]; j++)
-        if (i > 1 || j != IA.front())
-          os << end << i <<' '<< JA[j-1] <<' '<< A[i-1];
+      {
+        if (j > 1) os << end;
+        os << i <<' '<< JA[j-1] <<' '<< A[j-1];
+      }
   }
 
   if (format == LinAlg::MATLAB) os <<"]";
-- 
2.43.0


From 43bb9cf6a423b03eb8cfc029689057fb9f85b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 006/190] fix: DenseMatrix::dump on MatrixMarket format
 accesses wrong elements of rectangular matrices

---
 src/LinAlg/DenseMatrix.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 76ec505..3ac132e 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -106,8 +106,8 @@ void DenseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
       if (label)
         os <<"\n% label = "<< label;
       os <<'\n' << myMat.rows() <<' '<< myMat.cols();
-      for (size_t j = 1; j <= myMat.rows(); j++)
-        for (size_t i = 1; i <= myMat.cols(); i++)
+      for (size_t j = 1; j <= myMat.cols(); j++)
+        for (size_t i = 1; i <= myMat.rows(); i++)
           os <<'\n'<< myMat(i,j);
       os << std::endl;
       break;
-- 
2.43.0


From 8a00ac7459b6a636f475d5d835660bde325a5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 007/190] fix: SparseMatrix::add interprets a compressed matrix
 by the format of the other operand

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3f6f056..9d6d2b7 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -546,7 +546,7 @@ bool SparseMatrix::add (const SystemMatrix& B, Real alpha)
   }
   else if (editable == 'P')
   {
-    if (solver == SUPERLU || solver == UMFPACK)
+    if (Bptr->solver == SUPERLU || Bptr->solver == UMFPACK)
       // Column-oriented format with 0-based indices
       for (size_t j = 1; j <= Bptr->ncol; j++)
         for (int i = Bptr->IA[j-1]; i < Bptr->IA[j]; i++)
-- 
2.43.0


From 3d2a67e62f9e0f7fde9de67d41d780f17e981fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 008/190] fix: DenseMatrix::add adds the square of the constant
 to the diagonal

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 3ac132e..95f0f39 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -495,7 +495,7 @@ bool DenseMatrix::add (Real sigma, int ieq)
   else if (ieq > 0)
     myMat(ieq,ieq) += sigma;
   else
-    cblas_daxpy(myMat.rows(),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
+    cblas_daxpy(myMat.rows(),Real(1),&sigma,0,myMat.ptr(),myMat.rows()+1);
 
   return this->flagNonZeroEq(ieq);
 }
-- 
2.43.0


From 62b8c15555c40be03e1c655ab877bba046255aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 009/190] fix: DenseMatrix::redim leaves old values in the
 matrix when the total size is unchanged

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 95f0f39..bec0a8d 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -463,7 +463,7 @@ bool DenseMatrix::redim (size_t r, size_t c)
     }
 
   Matrix tmp(myMat);
-  myMat.resize(r,c);
+  myMat.resize(r,c,true);
   for (size_t i = 1; i <= c && i <= tmp.cols(); i++)
     myMat.fillColumn(i,tmp.getColumn(i));
 
-- 
2.43.0


From d1c19adacfe1b75ef425b89c65c61148aa15fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 010/190] fix: SparseMatrix::preAssemble loses the sparsity
 pattern for row-oriented matrices

---
 src/LinAlg/SparseMatrix.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 9d6d2b7..3323997 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -742,7 +742,9 @@ void SparseMatrix::preAssemble (const SAM& sam, bool delayLocking)
   // If we are not locking the sparsity pattern yet, the index pair map over
   // the non-zero matrix elements needs to be initialized before the assembly.
   // This is used when SAM::getDofCouplings() does not return all connectivities
-  if (delayLocking) // that will exist in the final matrix.
+  // that will exist in the final matrix, and when the matrix is not going to be
+  // on the column-oriented format, for which the couplings are used directly.
+  if (delayLocking || (solver != SUPERLU && solver != UMFPACK))
     for (size_t i = 0; i < dofc.size(); i++)
       for (int j : dofc[i])
         (*this)(i+1,j) = 0.0;
-- 
2.43.0


From 7dfb60087954ac2a298c09d4d961e798e10b5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 011/190] fix: SparseMatrix::preAssemble omits the diagonal of
 equations without element couplings

---
 src/LinAlg/SparseMatrix.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3323997..29beefd 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -739,6 +739,11 @@ void SparseMatrix::preAssemble (const SAM& sam, bool delayLocking)
   std::vector<IntSet> dofc;
   sam.getDofCouplings(dofc);
 
+  // Include the diagonal terms also for equations without any couplings,
+  // to facilitate insertion of their pivots in SystemMatrix::endAssembly()
+  for (size_t i = 0; i < dofc.size(); i++)
+    dofc[i].insert(i+1);
+
   // If we are not locking the sparsity pattern yet, the index pair map over
   // the non-zero matrix elements needs to be initialized before the assembly.
   // This is used when SAM::getDofCouplings() does not return all connectivities
-- 
2.43.0


From 102ee9b7550a10ac7035ad176f0833c9cf64fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 012/190] fix: SAM::getDofVal returns zero for the last degree
 of freedom

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..a6b60a3 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -761,7 +761,7 @@ Real SAM::getDofVal (const RealArray& dofVec, int inod, int ldof) const
 
   int idof = madof[inod-1] + ldof-1;
   int ndof = static_cast<int>(dofVec.size());
-  return idof < madof[inod] && idof < ndof ? dofVec[idof-1] : Real(0);
+  return idof < madof[inod] && idof <= ndof ? dofVec[idof-1] : Real(0);
 }
 
 
-- 
2.43.0


From 8de6fd4f7e7a955f10a4c006fdeae2348abbd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 013/190] fix: SAM::getNodeAndLocalDof returns the preceding
 DOF when given an equation number

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index a6b60a3..1e5a534 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -103,7 +103,7 @@ std::pair<int,int> SAM::getNodeAndLocalDof (int idof, bool eqno) const
   if (eqno)
   {
     if (int* eq = std::find(meqn,meqn+ndof,idof); eq != meqn+ndof)
-      idof = std::distance(meqn,eq);
+      idof = std::distance(meqn,eq) + 1;
     else
       return { 0, 0 };
   }
-- 
2.43.0


From 30ef693ffad777134e811325219f4364c6745e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 014/190] fix: SAM::assembleSystem keeps the reaction
 contribution from the last prescribed DOF only

---
 src/LinAlg/SAM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 1e5a534..016f569 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -455,7 +455,7 @@ bool SAM::assembleSystem (SystemMatrix& sysK, SystemVector& sysRHS,
 	if (meen[i-1] < 1)
 	{
 	  eS.resize(eK.rows());
-	  eS(i) = -c0*eK(i,j);
+	  eS(i) -= c0*eK(i,j);
 	}
     }
 
@@ -503,7 +503,7 @@ bool SAM::assembleSystem (SystemVector& sysRHS,
       if (reactionForces && ieq < 1)
       {
         eS.resize(eK.rows());
-        eS(i) = -c0*eK(i,j);
+        eS(i) -= c0*eK(i,j);
       }
     }
   }
-- 
2.43.0


From 7bccb26340ce67f8e8cb7b034666229493902c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 015/190] fix: SparseMatrix::assembleCol ignores the constraint
 equation coefficients

---
 src/LinAlg/SparseMatrix.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 29beefd..8590818 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -708,10 +708,11 @@ static void assemSparse (const RealArray& V, SparseMatrix& SM, size_t col,
       SM(ieq,col) += vd;
     else if (ceq > 0)
       for (int ip = mpmceq[ceq-1]; ip < mpmceq[ceq]-1; ip++)
-      {
-        ieq = meqn[mmceq[ip]-1];
-        SM(ieq,col) += vd;
-      }
+        if (mmceq[ip] > 0)
+        {
+          ieq = meqn[mmceq[ip]-1];
+          SM(ieq,col) += ttcc[ip]*vd;
+        }
   }
 }
 
-- 
2.43.0


From 3909212cf74b4acbb1eda12e352959fa7e339c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 016/190] fix: AlgEqSystem static condensation reads past the
 retained equations when the last one is internal

---
 src/ASM/AlgEqSystem.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..6da4756 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -397,7 +397,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 == meqn2.size() || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -550,9 +550,10 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
 
   // Construct the full vector
   Vector x(neq0);
-  int ieq, ip2, ieq1 = 0, ieq2 = 0;
-  for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+  size_t ip2 = 0;
+  int ieq, ieq1 = 0, ieq2 = 0;
+  for (ieq = 0; ieq < neq0; ieq++)
+    if (ip2 == neq2 || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From 6538d5c2981db624239c629e7e4156e05f20a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 017/190] fix: AlgEqSystem::add uses wrong ranges for the
 right-hand-sides and the reaction forces

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 6da4756..7bd9260 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From bbea8ed9fb1f0ac212fa68442f27a16b583333c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 018/190] fix: unload a prescribed DOF when its value returns
 to zero

SAMpatch::updateConstraintEqs skipped the update of the constant term of a
constraint equation with zero slave coefficient, also when the equation has
no masters. A DOF with prescribed motion then kept its previous value in
incremental solutions when the prescribed value returned to exactly zero.
---
 src/ASM/SAMpatch.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 97c7e74..9ddcb21 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -405,7 +405,9 @@ bool SAMpatch::updateConstraintEqs (const Vector* prevSol)
         update((*cit)->getMaster(i),c0,ipeq,Real(1));
 
       // Update the constant term of the constraint equation
-      if (!prevSol || c0 == Real(0)) // Note: c0=0 means no constant offset
+      // Note: c0=0 means no constant offset when there are masters, but without
+      // any masters it is the value that the dof is prescribed to return to
+      if (!prevSol || (c0 == Real(0) && (*cit)->getNoMaster() > 0))
         ttcc[jpeq] = Real(0);
       else if (idof <= (int)prevSol->size())
 	ttcc[jpeq] = c0 - (*prevSol)(idof);
-- 
2.43.0


From 713702efaf8db4396406699d75d00cf550ce2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 019/190] fix: use of an erased iterator when overriding a
 Dirichlet condition

ASMbase::addMPC dereferenced the set iterator after erasing it, when
replacing an existing Dirichlet condition by a new constraint.
---
 src/ASM/ASMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fc8e667..dc85638 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -562,9 +562,10 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
     if (verbose)
       std::cout <<"Replacing constraint "<< **mit.first <<" by "<< *mpc;
 #endif
-    dCode.erase(*mit.first);
+    MPC* oldMPC = *mit.first;
+    dCode.erase(oldMPC);
     mpcs.erase(mit.first);
-    delete *mit.first;
+    delete oldMPC;
     mpcs.insert(mpc);
     if (code > 0) dCode[mpc] = code;
     return true;
-- 
2.43.0


From eb907dde110fef2b7b97ea639c816100d3b1b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 020/190] fix: ASMbase::isFixed checks the last of several
 local DOFs only

The loop over the digits of the DOF specification always returned in its
first iteration, such that any fixed DOF but the last one was missed.
---
 src/ASM/ASMbase.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index dc85638..dcfa505 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -498,12 +498,12 @@ public:
       for (int dof = myDofs; dof > 0; dof /= 10)
 	switch (dof%10)
 	  {
-	  case 1: return bc.CX == 0;
-	  case 2: return bc.CY == 0;
-	  case 3: return bc.CZ == 0;
-	  case 4: return bc.RX == 0;
-	  case 5: return bc.RY == 0;
-	  case 6: return bc.RZ == 0;
+	  case 1: if (bc.CX == 0) return true; break;
+	  case 2: if (bc.CY == 0) return true; break;
+	  case 3: if (bc.CZ == 0) return true; break;
+	  case 4: if (bc.RX == 0) return true; break;
+	  case 5: if (bc.RY == 0) return true; break;
+	  case 6: if (bc.RZ == 0) return true; break;
 	  }
     return false;
   }
-- 
2.43.0


From 625c3da8ee5ef2700f73fc948e63eeb83c84ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 021/190] fix: ASMbase::isFixed with several local DOFs checks
 the first of them only

The remaining digits of the specification, and not the current digit, were
compared with the number of nodal DOFs. A node was therefore reported as
fixed when only the first of the DOFs is fixed.
---
 src/ASM/ASMbase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index dcfa505..8470c58 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -517,7 +517,7 @@ bool ASMbase::isFixed (int node, int dof, bool all) const
   if (dof < 10 || !all)
     bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,dof));
   else for (int d = dof; d > 0 && bit != BCode.end(); d /= 10)
-    if (d <= nf)
+    if (d%10 <= nf)
       bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,d%10));
 
   return bit != BCode.end();
-- 
2.43.0


From b178a26d5e7d0f443e34c7bc5ab347ca5c7a1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 022/190] fix: deformed configuration for patches with more
 DOFs than dimensions

ASMbase::deformedConfig used the number of space dimensions instead of the
number of nodal DOFs as the stride in the element solution vector.
---
 src/ASM/ASMbase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 8470c58..d0a9b7d 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1739,7 +1739,7 @@ bool ASMbase::deformedConfig (const Matrix& Xnod, Vectors& eVec, bool force2nd)
   if (npv == nsd)
     Xdef.add(eV);
   else for (size_t i = 0; i < nsd; i++)
-    Xdef.add(eV,1.0,i,nsd,i,nsd);
+    Xdef.add(eV,1.0,i,npv,i,nsd);
 
   size_t iVec = 1;
   if (force2nd && eVec.size() >= 2)
-- 
2.43.0


From bcb18e43c9c5fc8db796a9028263da1fac66de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 023/190] fix: ISTL matrices miss the pivots of equations
 without contributions

---
 src/LinAlg/ISTLMatrix.C | 5 ++++-
 src/LinAlg/ISTLMatrix.h | 3 ---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index a6d9da2..b4822df 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -149,11 +149,14 @@ void ISTLMatrix::initAssembly (const SAM& sam, char)
 
 bool ISTLMatrix::endAssembly()
 {
+  if (!this->SparseMatrix::endAssembly())
+    return false;
+
   for (size_t j = 0; j < cols(); ++j)
     for (int i = IA[j]; i < IA[j+1]; ++i)
       iA[JA[i]][j] = A[i];
 
-  return this->SparseMatrix::endAssembly();
+  return true;
 }
 
 
diff --git a/src/LinAlg/ISTLMatrix.h b/src/LinAlg/ISTLMatrix.h
index c12264e..ab8c7ab 100644
--- a/src/LinAlg/ISTLMatrix.h
+++ b/src/LinAlg/ISTLMatrix.h
@@ -95,9 +95,6 @@ public:
   //! \brief Returns the matrix type.
   LinAlg::MatrixType getType() const override { return LinAlg::ISTL; }
 
-  //! \brief Returns the dimension of the system matrix.
-  size_t dim(int = 1) const override { return 0; }
-
   //! \brief Creates a copy of the system matrix and returns a pointer to it.
   SystemMatrix* copy() const override { return new ISTLMatrix(*this); }
 
-- 
2.43.0


From 7ee9f129a0b3992848f10545d734ab5adbd4a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 024/190] fix: ISTLMatrix::solve overwrites the right-hand-side
 vector by the residual

---
 src/LinAlg/ISTLMatrix.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index b4822df..0561085 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -216,8 +216,8 @@ bool ISTLMatrix::solve (const SystemVector& b, SystemVector& x)
 
   try {
     Dune::InverseOperatorResult r;
-    solver->apply(Xptr->getVector(),
-                  const_cast<ISTL::Vec&>(Bptr->getVector()), r);
+    ISTL::Vec rhs(Bptr->getVector()); // will be overwritten by the residual
+    solver->apply(Xptr->getVector(), rhs, r);
   } catch (Dune::ISTLError& e) {
     std::cerr << "ISTL exception " << e << std::endl;
     return false;
-- 
2.43.0


From 4b69a348751d1a48275f8ab845cc15e83d63ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 025/190] fix: ISTL matrices omit the diagonal of equations
 without element couplings

---
 src/LinAlg/ISTLMatrix.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index 0561085..393f068 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -125,6 +125,11 @@ void ISTLMatrix::initAssembly (const SAM& sam, char)
   std::vector<IntSet> dofc;
   sam.getDofCouplings(dofc);
 
+  // Include the diagonal terms also for equations without any couplings,
+  // to facilitate insertion of their pivots in SystemMatrix::endAssembly()
+  for (size_t i = 0; i < dofc.size(); ++i)
+    dofc[i].insert(i+1);
+
   // Set correct number of rows and columns for matrix.
   size_t sum = 0;
   for (const IntSet& dofs : dofc)
-- 
2.43.0


From d8c846e537b83486dab614ac704ce50eb433c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 026/190] fix: ISTLMatrix::solve does not report lack of
 convergence

---
 src/LinAlg/ISTLMatrix.C | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index 393f068..883a8ad 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -190,6 +190,11 @@ bool ISTLMatrix::solve (SystemVector& B, Real*)
     ISTL::Vec b(Bptr->getVector());
     Bptr->getVector() = 0;
     solver->apply(Bptr->getVector(), b, r);
+    if (!r.converged) {
+      std::cerr <<" *** ISTLMatrix::solve: No convergence in "
+                << r.iterations <<" iterations."<< std::endl;
+      return false;
+    }
   } catch (Dune::ISTLError& e) {
     std::cerr << "ISTL exception " << e << std::endl;
     return false;
@@ -223,6 +228,11 @@ bool ISTLMatrix::solve (const SystemVector& b, SystemVector& x)
     Dune::InverseOperatorResult r;
     ISTL::Vec rhs(Bptr->getVector()); // will be overwritten by the residual
     solver->apply(Xptr->getVector(), rhs, r);
+    if (!r.converged) {
+      std::cerr <<" *** ISTLMatrix::solve: No convergence in "
+                << r.iterations <<" iterations."<< std::endl;
+      return false;
+    }
   } catch (Dune::ISTLError& e) {
     std::cerr << "ISTL exception " << e << std::endl;
     return false;
-- 
2.43.0


From 02b6b3a5cecedf64fe6e445608902c92216f11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 027/190] fix: only the first of the nx, ny, nz and overlap
 attributes of the asm tag is read

---
 src/LinAlg/LinSolParams.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/LinSolParams.C b/src/LinAlg/LinSolParams.C
index 95abf61..c1a7904 100644
--- a/src/LinAlg/LinSolParams.C
+++ b/src/LinAlg/LinSolParams.C
@@ -126,11 +126,11 @@ bool LinSolParams::BlockParams::read (const tinyxml2::XMLElement* elem,
       std::string v;
       if (utl::getAttribute(child, "nx", v))
         this->addValue("asm_nx", v);
-      else if (utl::getAttribute(child, "ny", v))
+      if (utl::getAttribute(child, "ny", v))
         this->addValue("asm_ny", v);
-      else if (utl::getAttribute(child, "nz", v))
+      if (utl::getAttribute(child, "nz", v))
         this->addValue("asm_nz", v);
-      else if (utl::getAttribute(child, "overlap", v))
+      if (utl::getAttribute(child, "overlap", v))
         this->addValue("asm_overlap", v);
     } else { // generic value or container tag - add with tag name as key
       std::string key = child->Value();
-- 
2.43.0


From d2f9bd28d6da87310abe50fa98942847d7bef153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 028/190] fix: copy of an ISTL vector is not an ISTL vector

---
 src/LinAlg/ISTLMatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinAlg/ISTLMatrix.h b/src/LinAlg/ISTLMatrix.h
index ab8c7ab..429285a 100644
--- a/src/LinAlg/ISTLMatrix.h
+++ b/src/LinAlg/ISTLMatrix.h
@@ -43,6 +43,9 @@ public:
   //! \brief Returns the vector type.
   LinAlg::MatrixType getType() const override { return LinAlg::ISTL; }
 
+  //! \brief Creates a copy of the system vector and returns a pointer to it.
+  SystemVector* copy() const override { return new ISTLVector(*this); }
+
   //! \brief Initializes the vector to a given scalar value.
   void init(Real value = Real(0)) override;
 
-- 
2.43.0


From 813f915a690cae4073c2b3ce768794dcb14bb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 029/190] fix: DiagMatrix::multiply leaves an empty result
 vector empty

---
 src/LinAlg/DiagMatrix.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index 3179d41..2ee9fe7 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -187,6 +187,9 @@ bool DiagMatrix::add (Real sigma, int ieq)
 
 bool DiagMatrix::multiply (const SystemVector& B, SystemVector& C) const
 {
+  if (C.dim() == 0)
+    C.redim(myMat.size());
+
   const Real* a = myMat.ptr();
   const Real* b = B.getRef();
   Real*       c = C.getPtr();
-- 
2.43.0


From 4ffd843d6c38107131ad422a46d9017492f268b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 030/190] fix: eigenvalue solver mode 6 fails when the matrices
 are added

---
 src/Eig/EigSolver.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index 183e9a5..f87ba0e 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -182,7 +182,7 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
     break;
   case 6:
     AM = K->copy();
-    if (shift != 0.0 && AM->add(*M,-shift))
+    if (shift != 0.0 && !AM->add(*M,-shift))
       ierr = 123;
     else
       eig_drv6_(n,nev,ncv,shift,eigVal.ptr(),eigVec.ptr(),work,ierr);
-- 
2.43.0


From 90377588a85d62427046079c400d766044783941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 031/190] fix: eigenvalue solvers return unconverged values
 without reporting failure

---
 src/Eig/eig_drv1.f | 1 +
 src/Eig/eig_drv2.f | 1 +
 src/Eig/eig_drv3.f | 1 +
 src/Eig/eig_drv4.f | 1 +
 src/Eig/eig_drv5.f | 1 +
 src/Eig/eig_drv6.f | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/Eig/eig_drv1.f b/src/Eig/eig_drv1.f
index 814db04..9ed119f 100644
--- a/src/Eig/eig_drv1.f
+++ b/src/Eig/eig_drv1.f
@@ -270,6 +270,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv2.f b/src/Eig/eig_drv2.f
index cc0d114..15de9bf 100644
--- a/src/Eig/eig_drv2.f
+++ b/src/Eig/eig_drv2.f
@@ -280,6 +280,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv3.f b/src/Eig/eig_drv3.f
index ecb3b98..7c4b595 100644
--- a/src/Eig/eig_drv3.f
+++ b/src/Eig/eig_drv3.f
@@ -300,6 +300,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv4.f b/src/Eig/eig_drv4.f
index 6d2a6a8..48f8426 100644
--- a/src/Eig/eig_drv4.f
+++ b/src/Eig/eig_drv4.f
@@ -329,6 +329,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv5.f b/src/Eig/eig_drv5.f
index 636f06c..b5dfe71 100644
--- a/src/Eig/eig_drv5.f
+++ b/src/Eig/eig_drv5.f
@@ -336,6 +336,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv6.f b/src/Eig/eig_drv6.f
index 58e5400..58978b5 100644
--- a/src/Eig/eig_drv6.f
+++ b/src/Eig/eig_drv6.f
@@ -339,6 +339,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
-- 
2.43.0


From 72e21993850c6515b756fc5140c7d1b18b14179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 032/190] fix: principal values of a hydrostatic symmetric
 tensor are zero

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 7861337..18c9062 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1181,7 +1181,7 @@ bool SymmTensor::principal (Vec3& p, bool sorted) const
   Real b2 = (s1*s1 + s2*s2 + s3*s3)/Real(2) + c1 + c2 + c3;
   if (b2 <= tol*b1*b1)
   {
-    p = s1;
+    p = b1;
     return true;
   }
 
-- 
2.43.0


From 0a1f18319379313c574ac3df6b02c2754cde0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 033/190] fix: principal values of 2D symmetric tensors fail
 due to round-off when nearly equal

---
 src/Utility/Tensor.C | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 18c9062..3af38c9 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1144,20 +1144,11 @@ bool SymmTensor::principal (Vec3& p, bool sorted) const
   if (v.size() == 3)
   {
     // Pure 2D tensor, solve the quadratic equation x^2 - C*x + D = 0
+    // The discriminant C^2-4*D is written as a sum of squares to stay positive
     Real C = v[0] + v[1];
-    Real D = v[0]*v[1] - v[2]*v[2];
-    Real P = C*C - Real(4)*D;
-    if (P > Real(0))
-    {
-      Real Q = Real(sqrt(P));
-      p.x = (C+Q)/Real(2);
-      p.y = (C-Q)/Real(2);
-    }
-    else if (P > -Real(1.0e-16))
-      p.x = p.y = C/Real(2);
-    else
-      return false;
-
+    Real Q = Real(hypot(v[0]-v[1],Real(2)*v[2]));
+    p.x = (C+Q)/Real(2);
+    p.y = (C-Q)/Real(2);
     p.z = Real(0);
     return true;
   }
-- 
2.43.0


From d7925f0bdb11171bd5adbd250218899df1067302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 034/190] fix: 2D symmetric tensors with 33-component mixed up
 with pure 2D tensors

---
 src/Utility/Tensor.C | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 3af38c9..d6f583d 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1007,7 +1007,8 @@ SymmTensor& SymmTensor::rightCauchyGreen (const Tensor& F)
   case 2:
     v[0] = F(1,1)*F(1,1) + F(2,1)*F(2,1);
     v[1] = F(1,2)*F(1,2) + F(2,2)*F(2,2);
-    v[2] = F(1,1)*F(1,2) + F(2,1)*F(2,2);
+    v.back() = F(1,1)*F(1,2) + F(2,1)*F(2,2);
+    if (v.size() == 4) v[2] = Real(1);
     break;
 
   case 3:
@@ -1039,7 +1040,8 @@ SymmTensor& SymmTensor::leftCauchyGreen (const Tensor& F)
   case 2:
     v[0] = F(1,1)*F(1,1) + F(1,2)*F(1,2);
     v[1] = F(2,1)*F(2,1) + F(2,2)*F(2,2);
-    v[2] = F(1,1)*F(2,1) + F(1,2)*F(2,2);
+    v.back() = F(1,1)*F(2,1) + F(1,2)*F(2,2);
+    if (v.size() == 4) v[2] = Real(1);
     break;
 
   case 3:
@@ -1069,7 +1071,8 @@ SymmTensor& SymmTensor::outerProd (const Vec3& u)
   case 2:
     v[0] = u.x*u.x;
     v[1] = u.y*u.y;
-    v[2] = u.x*u.y;
+    v.back() = u.x*u.y;
+    if (v.size() == 4) v[2] = u.z*u.z;
     break;
 
   case 3:
@@ -1492,7 +1495,7 @@ SymmTensor operator* (Real a, const SymmTensor& T)
 
 SymmTensor operator* (const SymmTensor& A, const SymmTensor& B)
 {
-  SymmTensor C(std::min(A.n,B.n));
+  SymmTensor C(std::min(A.n,B.n), A.v.size() == 4 && B.v.size() == 4);
 
   switch (C.n) {
   case 1:
@@ -1500,9 +1503,11 @@ SymmTensor operator* (const SymmTensor& A, const SymmTensor& B)
     break;
 
   case 2:
-    C.v[0] = A.v[0]*B.v[0] + A.v[2]*B.v[2];
-    C.v[1] = A.v[2]*B.v[2] + A.v[1]*B.v[1];
-    C.v[2] = A.v[0]*B.v[2] + A.v[2]*B.v[1];
+    C.v[0] = A(1,1)*B(1,1) + A(1,2)*B(1,2);
+    C.v[1] = A(1,2)*B(1,2) + A(2,2)*B(2,2);
+    C(1,2) = A(1,1)*B(1,2) + A(1,2)*B(2,2);
+    if (C.v.size() == 4)
+      C.v[2] = A.v[2]*B.v[2];
     break;
 
   case 3:
-- 
2.43.0


From 839da32ef6bb297bbb874bed826014990ea6fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 035/190] fix: wrong components when copying a symmetric tensor
 to a non-symmetric one

---
 src/Utility/Tensor.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index d6f583d..654f731 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -185,7 +185,7 @@ Tensor::Tensor (Real a1, Real a2, Real a3) : n(3)
 Tensor::Tensor (const Tensor& T, bool transpose) : n(T.n)
 {
   v.resize(n*n);
-  std::copy(T.v.begin(),T.v.end(),v.begin());
+  this->operator=(T);
 
   if (transpose)
     this->transpose();
@@ -245,7 +245,7 @@ Vec3 Tensor::operator[] (t_ind i) const
 
 Tensor& Tensor::operator= (const Tensor& T)
 {
-  if (v.size() == T.v.size())
+  if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
     std::copy(T.v.begin(),T.v.end(),v.begin());
   else
   {
@@ -263,8 +263,8 @@ Tensor& Tensor::operator= (const Tensor& T)
     {
       if (v.size() == 4 && this->symmetric())
         v[2] = T(3,3);
-      else if (v.size() == 9)
-        v[8] = T(3,3);
+      else if (n == 3)
+        THIS(3,3) = T(3,3);
     }
   }
 
-- 
2.43.0


From 8053dc0d14bf8f1736fc417f60eee1cfbf090ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 036/190] fix: multiplication of a tensor with itself

---
 src/Utility/Tensor.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 654f731..9051a53 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -365,6 +365,9 @@ Tensor& Tensor::operator*= (Real val)
 
 Tensor& Tensor::postMult (const Tensor& B)
 {
+  if (&B == this)
+    return this->postMult(Tensor(B));
+
   switch (std::min(n,B.n)) {
   case 1:
     v[0] *= B.v[0];
@@ -398,6 +401,9 @@ Tensor& Tensor::postMult (const Tensor& B)
 
 Tensor& Tensor::preMult (const Tensor& A)
 {
+  if (&A == this)
+    return this->preMult(Tensor(A));
+
   switch (std::min(n,A.n)) {
   case 1:
     v[0] *= A.v[0];
-- 
2.43.0


From 6cf5ae73fddb632d9d0ecd3d346a3d9a490ff42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 037/190] fix: von Mises value of compressive 1D tensors, and
 of 2D and 3D tensors in presence of round-off

---
 src/Utility/Tensor.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 9051a53..3a0f2d7 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1140,7 +1140,9 @@ Real SymmTensor::vonMises (bool doSqrt) const
     vms = s11*(s11-s22) + s22*(s22-s33) + s33*(s33-s11) + 3.0*s12*s12;
   }
   else if (n == 1)
-    return doSqrt ? v.front() : v.front()*v.front();
+    vms = v.front()*v.front();
+
+  if (vms < 0.0) vms = 0.0; // Due to round-off
 
   return doSqrt ? sqrt(vms) : vms;
 }
-- 
2.43.0


From af315d948e012b3e50bf553560bd965c59a98ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 038/190] fix: rotation angle of a 2D tensor

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 3a0f2d7..b812db6 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -617,7 +617,7 @@ Vec3 Tensor::rotVec () const
   Vec3 rot;
   if (n < 2) return rot;
 
-  double R = 0.5*this->trace() - 0.5;
+  double R = n < 3 ? 0.5*this->trace() : 0.5*this->trace() - 0.5;
   double theta = R < 1.0 ? acos(R) : 0.0;
 
   // Test if 1.0 = (1.0-theta) in the computer
-- 
2.43.0


From 43ffe5b25d82ee92e52cc282eede64edc19875e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 039/190] fix: wrong size of symmetric fourth-order tensors

---
 src/Utility/Tensor4.C | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Utility/Tensor4.C b/src/Utility/Tensor4.C
index dd98f2f..89310c1 100644
--- a/src/Utility/Tensor4.C
+++ b/src/Utility/Tensor4.C
@@ -96,8 +96,11 @@ Tensor4& Tensor4::operator+= (Real val)
 }
 
 
-SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
+SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(0,Real(0))
 {
+  this->redim(nd);
+  v.resize(m*m,Real(0));
+
   if (makeJ) // Define the "identity" tensor, J
     for (t_ind i = 0; i < n; i++)
       for (t_ind j = 0; j < n; j++)
@@ -109,19 +112,27 @@ SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
 }
 
 
-SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd) : Tensor4(x,nd)
+SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd) : Tensor4(x,0)
 {
+  this->redim(nd);
+
+  v = x;
+  if (v.size() < (size_t)m*m)
+    std::cerr <<" *** Invalid fourth-order tensor,"
+              <<" matrix represention too small, size="<< v.size() << std::endl;
+  else if (v.size() > (size_t)m*m)
+    v.resize(m*m);
 }
 
 
 std::ostream& SymmTensor4::print (std::ostream& os) const
 {
-  utl::matrix<Real> A(m,m);
+  utl::matrix<Real> A(n*n,n*n);
   for (t_ind l = 1; l <= n; l++)
     for (t_ind k = 1; k <= n; k++)
       for (t_ind j = 1; j <= n; j++)
         for (t_ind i = 1; i <= n; i++)
-          A(i+n*(j-1),k+l*(n-1)) = v[this->index(i,j)*m+this->index(k,l)];
+          A(i+n*(j-1),k+n*(l-1)) = v[this->index(i,j)*m+this->index(k,l)];
 
   return os << A;;
 }
-- 
2.43.0


From 633a08e00519773ed33331746da94ba81237dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 040/190] fix: assignment of a point refers to the parameters
 of the other point

---
 src/Utility/Point.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utility/Point.h b/src/Utility/Point.h
index 983e6d4..690433a 100644
--- a/src/Utility/Point.h
+++ b/src/Utility/Point.h
@@ -60,6 +60,12 @@ namespace utl
         par[i] = 3+i < X.size() ? X[3+i] : 0.0;
     }
 
+    //! \brief Assignment operator.
+    Point& operator=(const Point& X)
+    {
+      return this->operator=(static_cast<const Vec4&>(X));
+    }
+
     //! \brief Assignment operator.
     Point& operator=(const Vec4& X)
     {
-- 
2.43.0


From 1e4309e1d8a646686d2dc8cafea73a71762634e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 041/190] fix: one of the off-diagonal terms is never
 eliminated in the eigenvalue solver for symmetric tensors

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index b812db6..fe006d6 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1248,7 +1248,7 @@ bool SymmTensor::principal (Vec3& p, Tensor& pdir) const
     // Perform sweeps for rotations
 
     Vec3 z;
-    for (int i = 1; i < 3; i++)
+    for (int i = 1; i <= 3; i++)
     {
       int j = i%3 + 1;
       int k = j%3 + 1;
-- 
2.43.0


From a991c0c5b0ccb69922a7da7bafa08815e959cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 042/190] fix: 10-point Gauss rule has single precision only

---
 src/Utility/GaussQuadrature.C | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/Utility/GaussQuadrature.C b/src/Utility/GaussQuadrature.C
index 3e746f3..a7f705c 100644
--- a/src/Utility/GaussQuadrature.C
+++ b/src/Utility/GaussQuadrature.C
@@ -171,28 +171,28 @@ static double G9[2][9] = {{
 //! \brief 10-point rule.
 static double G10[2][10] = {{
   // coord
- -0.97390653,
- -0.86506337,
- -0.67940957,
- -0.43339539,
- -0.14887434,
-  0.14887434,
-  0.43339539,
-  0.67940957,
-  0.86506337,
-  0.97390653
+ -0.97390652851717172008,
+ -0.86506336668898451073,
+ -0.67940956829902440623,
+ -0.43339539412924719080,
+ -0.14887433898163121088,
+  0.14887433898163121088,
+  0.43339539412924719080,
+  0.67940956829902440623,
+  0.86506336668898451073,
+  0.97390652851717172008
   // weight
 },{
-  0.06667134,
-  0.14945135,
-  0.21908636,
-  0.26926672,
-  0.29552422,
-  0.29552422,
-  0.26926672,
-  0.21908636,
-  0.14945135,
-  0.06667134
+  0.06667134430868813759,
+  0.14945134915058059315,
+  0.21908636251598204400,
+  0.26926671930999635509,
+  0.29552422471475287017,
+  0.29552422471475287017,
+  0.26926671930999635509,
+  0.21908636251598204400,
+  0.14945134915058059315,
+  0.06667134430868813759
 }};
 
 
-- 
2.43.0


From f81c4087d7c7016079b4f2ecedbb6a474b99a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 043/190] fix: second point of the 3-point triangle quadrature
 rule is included twice

---
 src/Utility/TriangleQuadrature.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/TriangleQuadrature.C b/src/Utility/TriangleQuadrature.C
index d175404..33d67f8 100644
--- a/src/Utility/TriangleQuadrature.C
+++ b/src/Utility/TriangleQuadrature.C
@@ -22,7 +22,7 @@ static const double W1[1] = { 1.0 };
 
 //! \brief 3-point rule coordinates.
 static const double T3[6] = {
-  0.5, 0.5,
+  0.5, 0.0,
   0.5, 0.5,
   0.0, 0.5
 };
-- 
2.43.0


From 69c629e032736b2efa462d6da22cbfd6bbd9467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 044/190] fix: two-point Gauss-Legendre rule

---
 src/Utility/Legendre.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Legendre.C b/src/Utility/Legendre.C
index 29d5855..4ee9791 100644
--- a/src/Utility/Legendre.C
+++ b/src/Utility/Legendre.C
@@ -32,8 +32,8 @@ bool Legendre::GL (RealArray& weights, RealArray& points, int n)
       A(i,i-1) = Real(i-1)/Real(2*i-1);
       A(i,i+1) = Real(i)  /Real(2*i-1);
     }
-    A(n,n-1) = Real(n-1)/Real(2*n-1);
   }
+  A(n,n-1) = Real(n-1)/Real(2*n-1);
 
   RealArray eig_complex(n), evalpoints(n);
   if (!A.solveEigNon(evalpoints,eig_complex)) return false;
-- 
2.43.0


From 916e4c7c87ff2f3abd0509415fd162ba954c25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 045/190] fix: invalid elements are not reported for immersed
 boundaries unless it is the last element

---
 src/ASM/ImmersedBoundaries.C | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ASM/ImmersedBoundaries.C b/src/ASM/ImmersedBoundaries.C
index 5f78fb7..b123016 100644
--- a/src/ASM/ImmersedBoundaries.C
+++ b/src/ASM/ImmersedBoundaries.C
@@ -277,16 +277,16 @@ bool Immersed::getQuadraturePoints (const Geometry& geometry,
     switch (Xc.size()) {
     case 4: // 2D element
       nsd = 2;
-      ok = getQuadraturePoints(geometry,
-                               Xc[0],Xc[1],Xc[3],Xc[2],max_depth,p,
-                               GP[1],GP[2],GP[0],grid);
+      ok &= getQuadraturePoints(geometry,
+                                Xc[0],Xc[1],Xc[3],Xc[2],max_depth,p,
+                                GP[1],GP[2],GP[0],grid);
       break;
     case 8: // 3D element
       nsd = 3;
-      ok = getQuadraturePoints(geometry,
-                               Xc[0],Xc[1],Xc[3],Xc[2],
-                               Xc[4],Xc[5],Xc[7],Xc[6],max_depth,p,
-                               GP[1],GP[2],GP[3],GP[0]);
+      ok &= getQuadraturePoints(geometry,
+                                Xc[0],Xc[1],Xc[3],Xc[2],
+                                Xc[4],Xc[5],Xc[7],Xc[6],max_depth,p,
+                                GP[1],GP[2],GP[3],GP[0]);
       break;
     default:
       ok = false;
-- 
2.43.0


From a34c2b75928753c0561c808a23069a313bb619f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 046/190] fix: derivative of Chebyshev polynomials of second
 kind at the end points

---
 src/Utility/Chebyshev.C | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Utility/Chebyshev.C b/src/Utility/Chebyshev.C
index ea03879..65330b7 100644
--- a/src/Utility/Chebyshev.C
+++ b/src/Utility/Chebyshev.C
@@ -52,6 +52,14 @@ Real Chebyshev::evalDer1 (int polnum, Real xi)
 
 Real Chebyshev::evalDer2 (int polnum, Real xi)
 {
+  if (polnum <= 0)
+    return 0.0;
+
+  if (std::abs(xi-1.0) < 1.0e-6)
+    return polnum*(polnum+1.0)*(polnum+2.0) / 3.0;
+  else if (std::abs(1.0+xi) < 1.0e-6)
+    return pow(-1.0,polnum+1) * polnum*(polnum+1.0)*(polnum+2.0) / 3.0;
+
   return ((polnum+1)*evalPol1(polnum+1, xi) - xi*evalPol2(polnum, xi)) / (xi*xi - 1.0);
 }
 
-- 
2.43.0


From bdbbe6b27410d6c5ad22a359de505873d316b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 047/190] fix: gradient of the one-dimensional Jacobian
 determinant is zero

---
 src/Utility/CoordinateMapping.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/CoordinateMapping.C b/src/Utility/CoordinateMapping.C
index a79f36a..5a38c4b 100644
--- a/src/Utility/CoordinateMapping.C
+++ b/src/Utility/CoordinateMapping.C
@@ -333,7 +333,9 @@ void utl::detJacGradient (const matrix<Real>& J, const matrix<Real>& Ji,
 
   std::vector<Real> dDetdu(dim,Real(0));
 
-  if (dim == 2)
+  if (dim == 1)
+    dDetdu[0] = H(1,1,1);
+  else if (dim == 2)
   {
     dDetdu[0] =   H(1,1,1)*J(2,2) + J(1,1)*H(2,2,1)
                 - H(1,2,1)*J(2,1) - J(1,2)*H(2,1,1);
-- 
2.43.0


From f115183bf8e8751b212e91bd4235e823b7079c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 048/190] fix: basis value pointers dangle after copying or
 extending the container

---
 src/ASM/BasisFunctionVals.h | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/ASM/BasisFunctionVals.h b/src/ASM/BasisFunctionVals.h
index cd6db77..edd2a39 100644
--- a/src/ASM/BasisFunctionVals.h
+++ b/src/ASM/BasisFunctionVals.h
@@ -48,9 +48,21 @@ public:
   //! \brief Constructor resizing to a given size.
   explicit BasisValues(size_t size) : std::vector<BasisFunctionVals>(size)
   {
-    pointers.reserve(this->size());
-    for (const BasisFunctionVals& val : *this)
-      pointers.push_back(&val);
+    this->updatePointers();
+  }
+
+  //! \brief Copy constructor, making the pointers refer to the copied values.
+  BasisValues(const BasisValues& bv) : std::vector<BasisFunctionVals>(bv)
+  {
+    this->updatePointers();
+  }
+
+  //! \brief Assignment, making the pointers refer to the assigned values.
+  BasisValues& operator=(const BasisValues& bv)
+  {
+    this->std::vector<BasisFunctionVals>::operator=(bv);
+    this->updatePointers();
+    return *this;
   }
 
    //! \brief Destructor.
@@ -71,20 +83,29 @@ public:
   void push_back(const BasisFunctionVals& v)
   {
     this->std::vector<BasisFunctionVals>::push_back(v);
-    pointers.push_back(&this->back());
+    this->updatePointers();
   }
 
   //! \brief Push back for r-reference.
   void push_back(BasisFunctionVals&& v)
   {
     this->std::vector<BasisFunctionVals>::push_back(v);
-    pointers.push_back(&this->back());
+    this->updatePointers();
   }
 
   //! \brief Cast to a vector with pointers to our values.
   operator const BasisValuesPtrs& () const { return pointers; }
 
 private:
+  //! \brief Updates the pointers to our values after a possible reallocation.
+  void updatePointers()
+  {
+    pointers.clear();
+    pointers.reserve(this->size());
+    for (const BasisFunctionVals& val : *this)
+      pointers.push_back(&val);
+  }
+
   BasisValuesPtrs pointers; //!< Vector of pointers to our values
 };
 
-- 
2.43.0


From 13bc8db040282f3a4406a0549693e3ce4115f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 049/190] fix: integer lists with a range followed by a comma
 or trailing blanks get spurious zeros

---
 src/Utility/Utilities.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 2400498..c812e47 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -27,6 +27,9 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
   char* endp = const_cast<char*>(argv);
   while (strlen(endp) > 0)
   {
+    if (strspn(endp," \t\n\r") == strlen(endp))
+      break; // only trailing blanks left
+
     char* oldp = endp;
     values.push_back(strtol(endp,&endp,10));
     if (!endp)
@@ -38,9 +41,12 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
       int endVal = strtol(endp+1,&endp,10);
       while (values.back() < endVal)
         values.push_back(values.back()+1);
+      if (*endp == ',')
+        ++endp;
     }
     else if (endp == oldp)
     {
+      values.pop_back();
       std::cerr <<" *** utl::parsIntegers(): Malformed integer values: "<< argv
                 <<"\n"<< std::string(26,' ') << std::string(26+endp-argv,'-')
                 << '^' << std::endl;
@@ -49,7 +55,7 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
   }
 
   // A trailing comma should imply 0 as the last value
-  if (strlen(argv) > 0 && *(endp-1) == ',')
+  if (endp > argv && *(endp-1) == ',')
     values.push_back(0);
 
   return values.size() > old;
-- 
2.43.0


From b9247101ffd7b6e3b3f6d1d5f150d4b96ebef796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 050/190] fix: graded knot vectors with a specified range are
 wrong

---
 src/Utility/Utilities.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index c812e47..02ad153 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -117,10 +117,10 @@ bool utl::parseKnots (std::vector<Real>& xi)
     double C = ( 32.0*X1 + 18.0*X2 - 50.0)*dy;
     double E = ( -8.0*X1 -  7.0*X2 + 15.0)*dy;
     double F = X2*dy;
-    dy /= (1+nX);
-    double y = y0 + dy;
+    double dx = 1.0/(1+nX);
+    double y = dx;
     if (y0 > 0.0) xi.push_back(y0);
-    for (int i = 0; i < nX; i++, y += dy)
+    for (int i = 0; i < nX; i++, y += dx)
       xi.push_back(((((A*y+B)*y+C)*y+E)*y+F)*y+y0);
     if (y1 < 1.0) xi.push_back(y1);
   }
@@ -153,9 +153,10 @@ bool utl::parseKnots (std::vector<Real>& xi)
     }
     if (centred)
     {
+      size_t last = xi.size();
       xi.push_back(0.5*(xi1+xi2));
       for (int i = 1; i <= ru; i++)
-        xi.push_back(xi2 - xi[ru-i] + xi1);
+        xi.push_back(xi2 - xi[last-i] + xi1);
     }
     if (xi2 < 1.0) xi.push_back(xi2);
   }
-- 
2.43.0


From ee69f6d74cdfe469b081d93668a0b19bef9d37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 051/190] fix: crash on incomplete specification of a graded
 knot vector

---
 src/Utility/Utilities.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 02ad153..be61c4e 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -101,7 +101,7 @@ bool utl::parseKnots (std::vector<Real>& xi)
   else if (toupper(cline[0]) == 'C' && cline[1] == '5')
   {
     // Centred grading using a 5'th order polynomial
-    int    nX = atoi(strtok(nullptr," "));
+    int    nX = (cline = strtok(nullptr," ")) ? atoi(cline) : 0;
     double X1 = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     double X2 = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     double y0 = (cline = strtok(nullptr," ")) ? atof(cline) : 0.0;
@@ -129,10 +129,10 @@ bool utl::parseKnots (std::vector<Real>& xi)
     // Geometric grading
     bool  biased = toupper(cline[0]) == 'B';
     bool centred = toupper(cline[0]) == 'C';
-    int    ru    = atoi(strtok(nullptr," "));
-    double alpha = atof(strtok(nullptr," "));
-    double xi1   = (cline = strtok(nullptr," ")) ? atof(cline) : 0.0;
-    double xi2   = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
+    int    ru    = (cline = strtok(nullptr," ")) ? atoi(cline) : 0;
+    double alpha = cline && (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
+    double xi1   = cline && (cline = strtok(nullptr," ")) ? atof(cline) : 0.0;
+    double xi2   = cline && (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     if (xi1 < 0.0 || xi2 <= xi1 || xi2 > 1.0 || ru < 1)
       return false;
 
-- 
2.43.0


From c8e11801a7ce67972e4510cd7acf825a9bc52e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 052/190] fix: unterminated last line and long lines are not
 read

---
 src/Utility/Utilities.C | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index be61c4e..f069264 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -174,18 +174,16 @@ bool utl::parseKnots (std::vector<Real>& xi)
 
 char* utl::readLine (std::istream& is)
 {
-  static char buf[1024];
-  for (size_t n = 0; is.good(); n = strlen(buf))
-  {
-    for (size_t i = 0; i < n; i++)
+  static std::string buf;
+  while (std::getline(is,buf))
+    for (size_t i = 0; i < buf.size(); i++)
       if (!isspace(buf[i]))
+      {
         if (buf[i] == '#')
           break; // comment line - skip
         else
-          return buf+i; // first non-blank character
-
-    is.getline(buf,sizeof(buf));
-  }
+          return &buf[i]; // first non-blank character
+      }
 
   return 0;
 }
-- 
2.43.0


From 4dea1c6b7a8ea0af3f51b3bd1ee06f63b6f2266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 053/190] fix: not all comment lines and blank lines are
 ignored

---
 src/Utility/Utilities.C | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index f069264..a67caae 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 
 bool utl::parseIntegers (std::vector<int>& values, const char* argv)
@@ -193,13 +194,11 @@ bool utl::ignoreComments (std::istream& is)
 {
   int c = ' ';
   while (isspace(c))
-    c = is.get();
-
-  while (c == '#')
-  {
-    is.ignore(256,'\n');
-    c = is.get();
-  }
+    if ((c = is.get()) == '#')
+    {
+      is.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+      c = ' ';
+    }
   is.putback(c);
 
   return is.good();
-- 
2.43.0


From 24b088b96ba5af8f2ea8c6a25ece08682c4abf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 054/190] fix: crash on empty vector attribute

---
 src/Utility/Utilities.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index a67caae..4c9bdab 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -288,12 +288,13 @@ int utl::getAttribute (const tinyxml2::XMLElement* xml, const char* att,
 
   std::string value(xml->Attribute(att));
   char* cval = const_cast<char*>(value.c_str());
-  val.x = atof(strtok(cval," "));
+  cval = strtok(cval," ");
+  val.x = cval ? atof(cval) : Real(0);
 
   for (int i = 1; i < 3; i++)
     if (i >= ncomp && ncomp > 0)
       val[i] = Real(0);
-    else if ((cval = strtok(nullptr," ")))
+    else if (cval && (cval = strtok(nullptr," ")))
       val[i] = atof(cval);
     else
       val[i] = ncomp > 0 ? val[i-1] : Real(0);
-- 
2.43.0


From a9fe80e394ad00fe628e29caaf46d7cf9ad335cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 055/190] fix: size attributes beyond the integer range are
 misread

---
 src/Utility/Utilities.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 4c9bdab..a6fa459 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -255,7 +255,7 @@ int utl::getAttribute (const tinyxml2::XMLElement* xml, const char* att,
                        size_t& val)
 {
   if (xml && xml->Attribute(att))
-    val = atoi(xml->Attribute(att));
+    val = strtoul(xml->Attribute(att),nullptr,10);
   else
     return false;
 
-- 
2.43.0


From 08be45a54695885c183684db100b431684500aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 056/190] fix: gathering of an incomplete last column reads
 outside the array

---
 src/Utility/Utilities.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index a6fa459..12b8069 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -401,10 +401,10 @@ int utl::gather (const std::vector<int>& index, size_t nr,
   int outside = 0;
   size_t nout = nskip < index.size() ? index.size()-nskip : 0;
   out.resize(nr*nout);
-  const Real* data = &in.front() + offset_in;
-  Real* outVec = &out.front();
+  const Real* data = in.data() + offset_in;
+  Real* outVec = out.data();
   for (size_t i = 0; i < nout; i++, outVec += nr)
-    if (index[i] >= 0 && offset_in+nr*index[i] < in.size())
+    if (index[i] >= 0 && offset_in+nr*(index[i]+1) <= in.size())
       memcpy(outVec,data+nr*index[i],nr*sizeof(Real));
     else if (index[i] >= 0)
       outside++;
@@ -420,9 +420,9 @@ int utl::gather (const std::vector<int>& index, size_t nr,
   int outside = 0;
   size_t nout = nskip < index.size() ? index.size()-nskip : 0;
   out.resize(nr,nout);
-  const Real* data = &in.front() + offset_in;
+  const Real* data = in.data() + offset_in;
   for (size_t i = 0; i < nout; i++)
-    if (index[i] >= 0 && offset_in+nr*index[i] < in.size())
+    if (index[i] >= 0 && offset_in+nr*(index[i]+1) <= in.size())
       out.fillColumn(1+i,data+nr*index[i]);
     else if (index[i] >= 0)
       outside++;
-- 
2.43.0


From 860f11c3519d434df866ec3aac463748312d379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 057/190] fix: right-adjusted strings are limited to 32 leading
 blanks

---
 src/Utility/Utilities.C | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 12b8069..b796a19 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -476,8 +476,7 @@ std::string utl::adjustRight (size_t width, const std::string& s,
 {
   if (s.size() >= width) return s + suffix;
 
-  static std::string blank(32,' ');
-  return blank.substr(0,width-s.size()) + s + suffix;
+  return std::string(width-s.size(),' ') + s + suffix;
 }
 
 
-- 
2.43.0


From 721d7143f0c2d2eddeedf8dd082f5480b390c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 058/190] fix: round-off of the value zero is undefined

---
 src/Utility/Utilities.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index b796a19..8f1c28f 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -574,6 +574,9 @@ void utl::interleave (const std::vector<Real>& v1, const std::vector<Real>& v2,
 
 Real utl::round (Real value, int pr)
 {
+  if (value == Real(0))
+    return value;
+
   Real aval = std::fabs(value);
   int expon = static_cast<int>(std::log10(aval)) - (aval < Real(1) ? pr : pr-1);
   Real dnom = std::pow(Real(10),Real(expon));
-- 
2.43.0


From d92e029be6ee21f7a00c2b0f37c65658e5eb66f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 059/190] fix: infinite loop when replacing an empty string

---
 src/Utility/StringUtils.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utility/StringUtils.C b/src/Utility/StringUtils.C
index 0f86fca..30be50e 100644
--- a/src/Utility/StringUtils.C
+++ b/src/Utility/StringUtils.C
@@ -19,6 +19,9 @@
 std::string& replaceAll(std::string& context, const std::string& from,
                         const std::string& to)
 {
+  if (from.empty())
+    return context;
+
   size_t lookHere = 0;
   size_t foundHere = 0;
   while((foundHere = context.find(from, lookHere)) != std::string::npos)
-- 
2.43.0


From 7dfd90ddbeefb27336cbb516778a51e0573284ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 060/190] fix: some node set names are confused with the node
 and element arrays of a matlab file

---
 src/ASM/ASMutils.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 480b6bf..54dd3fc 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -44,6 +44,13 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     return n > 0;
   };
 
+  // Lambda function checking if a line ends with the specified array name.
+  auto&& isArray = [](const std::string& s, const std::string& name)
+  {
+    return s.length() >= name.length() &&
+      s.compare(s.length()-name.length(),name.length(),name) == 0;
+  };
+
   std::string cline;
   if (!readLine(cline,'=') ||
       cline.find("function") == std::string::npos ||
@@ -56,7 +63,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 
   std::getline(is,cline);
   while (readLine(cline,'['))
-    if (cline.find("Node=") == cline.length()-5)
+    if (isArray(cline,"Node="))
     {
       while (readLine(cline))
       {
@@ -74,7 +81,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
       std::cout <<"Read "<< nodes.size() <<" nodes."<< std::endl;
 #endif
     }
-    else if (cline.find("Element=") == cline.length()-8)
+    else if (isArray(cline,"Element="))
     {
       while (readLine(cline))
       {
-- 
2.43.0


From 81f68f1f41f9dda59d9896284aae1a58becac1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 061/190] fix: long lines in XML patch files are not read

---
 src/ASM/ASMutils.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 54dd3fc..60c067c 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -151,21 +151,21 @@ bool ASM::readXML (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
                    std::vector<NodeSet>& nodeSets,
                    std::vector<NodeSet>* elemSets)
 {
-  char cline[128];
-  if (!is.getline(cline,128))
+  std::string cline;
+  if (!std::getline(is,cline))
     return false;
-  else if (!strstr(cline,"<patch>"))
+  else if (cline.find("<patch>") == std::string::npos)
   {
     std::cerr <<" *** ASM::readXML: Failed to read patch geometry."<< std::endl;
     return false;
   }
 
   std::string data("<patch>\n");
-  while (is.getline(cline,128))
+  while (std::getline(is,cline))
   {
     data.append(cline);
     data.append("\n");
-    if (strstr(cline,"</patch>"))
+    if (cline.find("</patch>") != std::string::npos)
       break;
   }
 
-- 
2.43.0


From 733d1a3ea531e831408c9bf516fe00e45e20ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 062/190] fix: node sets with a name ending with Node or
 Element are not read from matlab files

---
 src/ASM/ASMutils.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 60c067c..fc0bb82 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -47,8 +47,11 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
   // Lambda function checking if a line ends with the specified array name.
   auto&& isArray = [](const std::string& s, const std::string& name)
   {
-    return s.length() >= name.length() &&
-      s.compare(s.length()-name.length(),name.length(),name) == 0;
+    if (s.length() < name.length())
+      return false;
+    size_t i = s.length() - name.length();
+    return s.compare(i,name.length(),name) == 0 &&
+      (i == 0 || !(isalnum(s[i-1]) || s[i-1] == '_'));
   };
 
   std::string cline;
-- 
2.43.0


From 20db50b8a5b4470213ca28101ec6b54e0ece29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 063/190] fix: an empty node set in a matlab file swallows the
 next one

---
 src/ASM/ASMutils.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index fc0bb82..4b66565 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -121,7 +121,12 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     else if (cline.back() == '=')
     {
       std::string setname = cline.substr(0,cline.length()-1);
-      if (readLine(cline,']'))
+      if (is.peek() == ']')
+      {
+        std::getline(is,cline);
+        nodeSets.emplace_back(setname,IntVec());
+      }
+      else if (readLine(cline,']'))
       {
         size_t i = 0; // Remove the '...' continuation markers
         while ((i = cline.find_first_of('.',i)) != std::string::npos)
-- 
2.43.0


From 3b90c502024078887df60a84484db86474915435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 064/190] fix: invalid node and element numbers in a matlab
 file corrupt memory

---
 src/ASM/ASMutils.C | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 4b66565..371556b 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -75,6 +75,11 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 #if SP_DEBUG > 1
         std::cout << id <<": "<< X << std::endl;
 #endif
+        if (id < 1)
+        {
+          std::cerr <<" *** ASM::readMatlab: Invalid node: "<< cline <<"\n";
+          return false;
+        }
         if (id > nodes.size()) nodes.resize(id);
         nodes[id-1] = X;
 
@@ -102,6 +107,11 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
         for (int n : mnpc) std::cout <<" "<< n;
         std::cout << std::endl;
 #endif
+        if (id < 1)
+        {
+          std::cerr <<" *** ASM::readMatlab: Invalid element: "<< cline <<"\n";
+          return false;
+        }
         if (mnpc.size() == 4)
           std::swap(mnpc[2],mnpc[3]);
         else if (mnpc.size() != 2)
-- 
2.43.0


From 4d1c2da23f0ba9d5bbd01adb3ebbe5e48302a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 065/190] fix: reading past the element array of a matlab file
 when the last element is unsupported

---
 src/ASM/ASMutils.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 371556b..001f6ab 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -118,10 +118,13 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
         {
           std::cerr <<"  ** ASM::readMatlab: "<< mnpc.size()
                     <<"-noded elements not supported (ignored).\n";
-          continue;
+          mnpc.clear();
+        }
+        if (!mnpc.empty())
+        {
+          if (id > MNPC.size()) MNPC.resize(id);
+          MNPC[id-1] = mnpc;
         }
-        if (id > MNPC.size()) MNPC.resize(id);
-        MNPC[id-1] = mnpc;
         if (cline.back() == ';') break;
       }
 #ifdef SP_DEBUG
-- 
2.43.0


From 833ac6fbdecff8af8e0c7cf637627f91e8a02eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 066/190] fix: negative node and element numbers in a matlab
 file are not refused

---
 src/ASM/ASMutils.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 001f6ab..fa5176a 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -70,7 +70,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     {
       while (readLine(cline))
       {
-        size_t id; Vec3 X;
+        int id; Vec3 X;
         std::istringstream(cline) >> id >> X;
 #if SP_DEBUG > 1
         std::cout << id <<": "<< X << std::endl;
@@ -80,7 +80,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
           std::cerr <<" *** ASM::readMatlab: Invalid node: "<< cline <<"\n";
           return false;
         }
-        if (id > nodes.size()) nodes.resize(id);
+        if (id > static_cast<int>(nodes.size())) nodes.resize(id);
         nodes[id-1] = X;
 
         if (cline.back() == ';') break;
@@ -93,7 +93,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     {
       while (readLine(cline))
       {
-        size_t id; int node;
+        int id, node;
         IntVec mnpc; mnpc.reserve(4);
         std::istringstream selem(cline);
         selem >> id >> node;
@@ -122,7 +122,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
         }
         if (!mnpc.empty())
         {
-          if (id > MNPC.size()) MNPC.resize(id);
+          if (id > static_cast<int>(MNPC.size())) MNPC.resize(id);
           MNPC[id-1] = mnpc;
         }
         if (cline.back() == ';') break;
-- 
2.43.0


From b572c4ea36d9a54a4682c569ebe190322fdce88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 067/190] fix: The dirac and step time functions are not
 constant

---
 src/Utility/Functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 4cd22ca..49b51d5 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -156,6 +156,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
@@ -178,6 +180,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
-- 
2.43.0


From 7eea839bed0095e85c113a7d600bd3b6b3c6e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 068/190] fix: LinearFunc::isZero for zero-valued tables and a
 zero scaling factor

---
 src/Utility/Functions.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..08f0786 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -229,11 +229,14 @@ size_t LinearFunc::locate (Real x) const
 
 bool LinearFunc::isZero () const
 {
+  if (scale <= zTol && scale >= -zTol)
+    return true;
+
   for (const Point& v : fvals)
     if (v.second > zTol || v.second < -zTol)
       return false;
 
-  return scale <= zTol && scale >= -zTol;
+  return !fvals.empty();
 }
 
 
-- 
2.43.0


From 074c8b8610b22375a5bf595c7b1dc4f73d157888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 069/190] fix: Blank and long lines in the tables of piece-wise
 linear functions

---
 src/Utility/Functions.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 08f0786..813103d 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -172,13 +172,13 @@ LinearFunc::LinearFunc (const char* file, int c, Real s) : scale(s)
     return;
   }
 
-  char temp[1024];
-  while (is.good() && is.getline(temp,1024))
+  std::string temp;
+  while (std::getline(is,temp))
   {
     if (temp[0] == '#') continue;
     std::stringstream str(temp);
     Real x, v;
-    str >> x >> v;
+    if (!(str >> x >> v)) continue;
     if (c < 2)
       std::swap(x,v);
     else for (int i = 2; i < c; i++)
@@ -294,14 +294,14 @@ LinVecFunc::LinVecFunc (const char* file, int c)
     return;
   }
 
-  char temp[1024];
-  while (is.good() && is.getline(temp,1024))
+  std::string temp;
+  while (std::getline(is,temp))
   {
     if (temp[0] == '#') continue;
     std::stringstream str(temp);
     Real x;
     Vec3 v;
-    str >> x;
+    if (!(str >> x)) continue;
     for (int i = 2; i < c; i++) str >> v.x;
     str >> v;
     if (fvals.empty() || fvals.back().first <= x)
-- 
2.43.0


From 208532398b70c8b1388b007e28e83de543596946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 070/190] fix: Time derivatives of traction and pressure fields

---
 src/Utility/TractionField.C | 4 ++--
 src/Utility/TractionField.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index 1987db1..ccd4e1c 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -41,7 +41,7 @@ Vec3 TractionField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 TractionField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 TractionField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (sigma) // symmetric tensor field
     return sigma->deriv(x,4) * n;
@@ -90,7 +90,7 @@ Vec3 PressureField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 PressureField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 PressureField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (!pressure) // zero pressure field
     return Vec3();
diff --git a/src/Utility/TractionField.h b/src/Utility/TractionField.h
index 87f041d..c74f815 100644
--- a/src/Utility/TractionField.h
+++ b/src/Utility/TractionField.h
@@ -50,7 +50,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  virtual Vec3 timeDerivative(const Vec3& x, const Vec3& n) const;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
@@ -103,7 +103,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  virtual Vec3 timeDerivative(const Vec3& x, const Vec3& n) const;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
-- 
2.43.0


From 02496875dde3cd196f2d459d58d170c764e75020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 071/190] fix: Scaling of the force direction vector of a
 ForceDirField, and its default

---
 src/Utility/TractionField.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index ccd4e1c..6cd496f 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -139,11 +139,12 @@ Vec3 ForceDirField::evaluate (const Vec3& x, const Vec3&) const
   Tensor Trot(3,true);
   if (fdir)
   {
-    Fdir = (*fdir)(time)*(M_PI/Real(180));
+    Fdir = (*fdir)(time);
     if (dirVec) // fdir gives the force direction
       Trot = Tensor(Tlg[2],Fdir,true);
     else // fdir gives rotation angles w.r.t. the local axes
     {
+      Fdir *= M_PI/Real(180);
       Trot = Tensor(Fdir.x,Fdir.y,Fdir.z);
       Fdir = Trot[1];
     }
@@ -155,6 +156,8 @@ Vec3 ForceDirField::evaluate (const Vec3& x, const Vec3&) const
     Trot = Tensor(Fdir.x,Fdir.y,Fdir.z);
     Fdir = Trot[1];
   }
+  else // no rotation, the force is acting along the local Y-axis
+    Fdir = Trot[1];
 
   // Calculate updated local coordinates of evaluation point
   Vec4 Xloc(((x-X0) * Tlg) * Trot, time);
-- 
2.43.0


From fb6d476f76c0b951d371f22dd845a429cbc48165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 072/190] fix: The amplitude of an expression time function was
 used as time increment

---
 src/Utility/Functions.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 813103d..e20b588 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -35,7 +35,8 @@ namespace
   //! \brief Creates a scalar function by parsing a character string.
   const ScalarFunc* parseFunction (const char* type, char* cline,
                                    Real C = Real(1), bool print = true,
-                                   bool parseConstant = true)
+                                   bool parseConstant = true,
+                                   Real eps = Real(1.0e-8))
   {
     if (strncasecmp(type,"expr",4) == 0)
     {
@@ -45,7 +46,7 @@ namespace
         if (print)
           IFEM::cout << cline;
         EvalFuncScalar<Real>::numError = 0;
-        sf = new EvalFunc(cline,"t",C);
+        sf = new EvalFunc(cline,"t",eps);
         if (EvalFunc::numError > 0)
         {
           delete sf;
@@ -867,6 +868,8 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
       IFEM::cout << C;
     if (linear < 0)
       f = new ConstFunc(C);
+    else if (strncasecmp(cline,"expr",4) == 0 && C != Real(1))
+      f = new ConstFunc(C); // amplitude of an expression
   }
 
   // Check for time variation
@@ -891,7 +894,7 @@ ScalarFunc* utl::parseTimeFunc (const char* func, const std::string& type,
   if (type == "expression")
   {
     IFEM::cout <<"(expression) ";
-    sf = parseFunction("expression",cstr,eps);
+    sf = parseFunction("expression",cstr,Real(1),true,true,eps);
   }
   else
     sf = parseFunction(type.c_str(),cstr);
-- 
2.43.0


From cc37f9f6657fcf8643c31c87b46bcd5ff47bc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 073/190] fix: Time derivative of LinearRotZFunc

---
 src/Utility/Functions.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index e20b588..dc156dd 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -576,13 +576,21 @@ Real LinearRotZFunc::evaluate (const Vec3& X) const
 
 Real LinearRotZFunc::deriv (const Vec3& X, int dir) const
 {
-  if (dir > 2) return Real(0);
+  if (dir == 3) return Real(0);
 
   // Always return zero if the argument has no time component
   const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
   if (!Xt) return Real(0);
 
-  if (dir == 1)
+  if (dir > 3)
+  {
+    Real x = X.x - x0;
+    Real y = X.y - y0;
+    Real c = A*cos(A*Xt->t);
+    Real s = A*sin(A*Xt->t);
+    return rX ? -x*s-y*c : x*c-y*s;
+  }
+  else if (dir == 1)
     return rX ?  cos(A*Xt->t) - Real(1) : sin(A*Xt->t);
   else if (dir == 2)
     return rX ? -sin(A*Xt->t) : cos(A*Xt->t) - Real(1);
-- 
2.43.0


From a4218aeadb5516fbdc03d3818d12e30f696d7cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 074/190] fix: Space-time functions where also the space factor
 varies in time

---
 src/Utility/Functions.C | 3 ++-
 src/Utility/Functions.h | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index dc156dd..c2b7a0c 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -431,7 +431,8 @@ Real SpaceTimeFunc::deriv (const Vec3& X, int dir) const
   if (dir < 4)
     return sfunc->deriv(X,dir) * (*tfunc)(Xt ? Xt->t : Real(0));
   else
-    return (*sfunc)(X) * tfunc->deriv(Xt ? Xt->t : Real(0));
+    return sfunc->deriv(X,dir) * (*tfunc)(Xt ? Xt->t : Real(0)) +
+           (*sfunc)(X) * tfunc->deriv(Xt ? Xt->t : Real(0));
 }
 
 
diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 49b51d5..dd39466 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -287,7 +287,10 @@ public:
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return sfunc->isZero() || tfunc->isZero(); }
   //! \brief Returns whether the function is time-independent or not.
-  bool isConstant() const override { return tfunc->isConstant(); }
+  bool isConstant() const override
+  {
+    return sfunc->isConstant() && tfunc->isConstant();
+  }
 
   //! \brief Returns first-derivative of the function.
   Real deriv(const Vec3& X, int dir) const override;
-- 
2.43.0


From 2adb3289880662b9b41f82dbd2de42d49a6f268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 075/190] fix: Crash in default derivatives of vector and
 tensor functions

---
 src/Utility/Function.h       | 3 ++-
 src/Utility/TensorFunction.C | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Utility/Function.h b/src/Utility/Function.h
index a4d32f6..fa526b6 100644
--- a/src/Utility/Function.h
+++ b/src/Utility/Function.h
@@ -277,7 +277,8 @@ public:
   utl::matrix3d<Real> hessian(const Vec3& X) const
   {
     utl::matrix3d<Real> result(ncmp,ncmp,ncmp);
-    result.fill(this->evalHessian(X).data());
+    const std::vector<Real> hess = this->evalHessian(X);
+    if (!hess.empty()) result.fill(hess.data());
     return result;
   }
 
diff --git a/src/Utility/TensorFunction.C b/src/Utility/TensorFunction.C
index cecb107..e21c1ac 100644
--- a/src/Utility/TensorFunction.C
+++ b/src/Utility/TensorFunction.C
@@ -18,7 +18,8 @@ utl::matrix3d<Real> TensorFunc::gradient (const Vec3& X) const
 {
   const size_t nsd = sqrt(ncmp);
   utl::matrix3d<Real> result(nsd, nsd, nsd);
-  result.fill(this->evalGradient(X).data());
+  const std::vector<Real> temp = this->evalGradient(X);
+  if (!temp.empty()) result.fill(temp.data());
   return result;
 }
 
@@ -27,7 +28,8 @@ utl::matrix4d<Real> TensorFunc::hessian (const Vec3& X) const
 {
   const size_t nsd = sqrt(ncmp);
   utl::matrix4d<Real> result(nsd, nsd, nsd, nsd);
-  result.fill(this->evalHessian(X).data());
+  const std::vector<Real> temp = this->evalHessian(X);
+  if (!temp.empty()) result.fill(temp.data());
   return result;
 }
 
@@ -60,6 +62,7 @@ utl::matrix3d<Real> STensorFunc::gradient (const Vec3& X) const
   const size_t nsd = ncmp > 5 ? 3 : (ncmp > 2 ? 2 : 1);
   utl::matrix3d<Real> result(nsd,nsd,nsd);
   const std::vector<Real> temp = this->evalGradient(X);
+  if (temp.empty()) return result;
 
   for (size_t d = 1; d <= nsd; ++d)
     for (size_t i = 1; i <= nsd; ++i)
@@ -75,6 +78,7 @@ utl::matrix4d<Real> STensorFunc::hessian (const Vec3& X) const
   const size_t nsd = ncmp > 5 ? 3 : (ncmp > 2 ? 2 : 1);
   utl::matrix4d<Real> result(nsd, nsd, nsd, nsd);
   const std::vector<Real> temp = this->evalHessian(X);
+  if (temp.empty()) return result;
 
   // de-voigt the blocks
   size_t d = 1;
-- 
2.43.0


From 2356a40a630d6ef01447ed49e3c7d607df7f71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 076/190] fix: Math exceptions from expressions that underflow
 or have no derivative

---
 3rdparty/expreval/func.cpp | 52 +++++++++++++++++++++++---------------
 3rdparty/expreval/node.cpp |  2 +-
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index aba34ca..15148cc 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -22,6 +22,18 @@ using namespace ExprEval;
 // Anonymous namespace for items
 namespace
 {
+    // Checks if the last math operation failed. Results that underflow,
+    // and derivatives that do not exist, are not regarded as errors.
+    //--------------------------------------------------------------------------
+    template<class Value>
+    bool MathError(const Value &result)
+    {
+        if constexpr (std::is_same_v<Value, double>)
+            return errno && !std::isfinite(result);
+        else
+            return errno && !std::isfinite(autodiff::val(result));
+    }
+
     // Absolute value
     //--------------------------------------------------------------------------
     template<class Value>
@@ -75,7 +87,7 @@ namespace
             Value result = fmod(this->m_nodes[0]->Evaluate(),
                                 this->m_nodes[1]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -267,7 +279,7 @@ namespace
 
             Value result = sqrt(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -306,7 +318,7 @@ namespace
 
             Value result = sin(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -345,7 +357,7 @@ namespace
 
             Value result = cos(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -384,7 +396,7 @@ namespace
 
             Value result = tan(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -423,7 +435,7 @@ namespace
 
             auto result = sinh(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError<Value>(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -462,7 +474,7 @@ namespace
 
             Value result = cosh(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -501,7 +513,7 @@ namespace
 
             Value result = tanh(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -540,7 +552,7 @@ namespace
 
             Value result = asin(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -579,7 +591,7 @@ namespace
 
             Value result = acos(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -618,7 +630,7 @@ namespace
 
             Value result = atan(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -657,7 +669,7 @@ namespace
 
             Value result = atan2(this->m_nodes[0]->Evaluate(), this->m_nodes[1]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -696,7 +708,7 @@ namespace
 
             Value result = log10(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -735,7 +747,7 @@ namespace
 
             Value result = log(this->m_nodes[0]->Evaluate());
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -774,7 +786,7 @@ namespace
             Value x = this->m_nodes[0]->Evaluate();
             Value result = exp(x);
 
-            if (errno && x > Value(0.0)) // Fixed: No exception on underflow
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -820,7 +832,7 @@ namespace
             // Calculate result
             Value result = log(this->m_nodes[0]->Evaluate()) / tmp;
 
-            if(errno)
+            if(MathError(result))
                 throw(MathException(this->GetName()));
 
             return result;
@@ -858,7 +870,7 @@ namespace
             Value result = pow(this->m_nodes[0]->Evaluate(), this->m_nodes[1]->Evaluate());
 
             if constexpr (std::is_same_v<Value, double>) { // disable exception with autodiff
-                if(errno)
+                if(MathError(result))
                     throw(MathException(this->GetName()));
             }
 
@@ -1144,7 +1156,7 @@ namespace
             Value d = hypot(x, y);
             Value a = atan2(y, x);
 
-            if(errno)
+            if(MathError(d) || MathError(a))
                 throw(MathException(this->GetName()));
 
             *this->m_refs[0] = d;
@@ -1193,7 +1205,7 @@ namespace
             Value x = d * cos(a);
             Value y = d * sin(a);
 
-            if(errno)
+            if(MathError(x) || MathError(y))
                 throw(MathException(this->GetName()));
 
             *this->m_refs[0] = x;
@@ -1564,7 +1576,7 @@ namespace
                 curpow -= 1.0;
             }
 
-            if(errno)
+            if(MathError(total))
                 throw(MathException(this->GetName()));
 
             return total;
diff --git a/3rdparty/expreval/node.cpp b/3rdparty/expreval/node.cpp
index 07e9efc..02af521 100644
--- a/3rdparty/expreval/node.cpp
+++ b/3rdparty/expreval/node.cpp
@@ -773,7 +773,7 @@ Value ExponentNode<Value>::DoEvaluate()
     Value result = pow(m_lhs->Evaluate(), m_rhs->Evaluate());
 
     if constexpr (std::is_same_v<Value, double>) {
-        if(errno)
+        if(errno && !std::isfinite(result)) // no exception on underflow
             throw(MathException("^"));
     }
         
-- 
2.43.0


From 8667be117923a94c8e65e15167c0fb7a182d7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 077/190] fix: Expression function poly included its first
 argument as a coefficient

---
 3rdparty/expreval/func.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index 15148cc..43d96a5 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -1561,20 +1561,14 @@ namespace
         Value DoEvaluate() override
         {
             Value total = 0.0;
-            double curpow;
-
-            curpow = (double)(this->m_nodes.size() - 2);
 
             // Value of x
             Value x = this->m_nodes[0]->Evaluate();
 
             errno = 0;
 
-            for (const auto& node : this->m_nodes)
-            {
-                total += node->Evaluate() * pow(x, curpow);
-                curpow -= 1.0;
-            }
+            for (size_t i = 1; i < this->m_nodes.size(); i++)
+                total = total * x + this->m_nodes[i]->Evaluate();
 
             if(MathError(total))
                 throw(MathException(this->GetName()));
-- 
2.43.0


From aafab66c77d547538990c691337df1da3eceacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 078/190] fix: Expression function derivatives with a variables
 prefix

---
 src/Utility/ExprFunctions.C | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 2dcf923..a827074 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -376,17 +376,22 @@ void EvalFuncSpatial<Scalar>::addDerivative (const std::string& function,
                                              const std::string& variables,
                                              int d1, int d2)
 {
+  std::string func(variables);
+  if (!func.empty() && func.back() != ';')
+    func += ';';
+  func += function;
+
   if (d1 > 0 && d1 <= 4 && d2 < 1)
   {
     // A first order derivative is specified
     if (!derivative1[--d1])
-      derivative1[d1] = std::make_unique<FuncType>((variables+function).c_str());
+      derivative1[d1] = std::make_unique<FuncType>(func.c_str());
   }
   else if ((d1 = voigtIdx(d1,d2)) >= 0)
   {
     // A second order derivative is specified
     if (!derivative2[d1])
-      derivative2[d1] = std::make_unique<FuncType>((variables+function).c_str());
+      derivative2[d1] = std::make_unique<FuncType>(func.c_str());
   }
 }
 
@@ -618,7 +623,7 @@ void EvalFunctions<Scalar>::addDerivative (const std::string& functions,
 {
   std::vector<std::string> components = splitComps(functions,variables);
   for (size_t i = 0; i < p.size() && i < components.size(); i++)
-    p[i]->addDerivative(components[i],variables,d1,d2);
+    p[i]->addDerivative(components[i],"",d1,d2);
 }
 
 
-- 
2.43.0


From a5d216b513102a27ab5514402cd932eb594fdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 079/190] fix: Function parameters were not set in the given
 derivative expressions

---
 src/Utility/ExprFunctions.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index a827074..968c6c3 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -599,6 +599,11 @@ void EvalFuncSpatial<Scalar>::setParam (const std::string& name, Real value)
 #endif
     for (std::unique_ptr<ValueList>& v1 : v)
       setVal(*v1);
+
+  for (const std::unique_ptr<FuncType>& d1 : derivative1)
+    if (d1) d1->setParam(name,value);
+  for (const std::unique_ptr<FuncType>& d2 : derivative2)
+    if (d2) d2->setParam(name,value);
 }
 
 
-- 
2.43.0


From 245e3e22762b8da27c29415318fedcbc3eb13009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 080/190] fix: Derived secondary solutions were always regarded
 as constant

---
 src/Utility/AnaSol.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utility/AnaSol.C b/src/Utility/AnaSol.C
index 04148fc..b7582e5 100644
--- a/src/Utility/AnaSol.C
+++ b/src/Utility/AnaSol.C
@@ -35,6 +35,9 @@ public:
   //! \brief The constructor initializes the function to use.
   GradientFunc(const FromFunc& f) : func(f) {}
 
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return func.isConstant(); }
+
 protected:
   //! \brief Evaluates the gradient in a point.
   Ret evaluate(const Vec3& X) const { return func.gradient(X); }
-- 
2.43.0


From ce4755bee47a01fa5c04b4496137ee11e76ee9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 081/190] fix: Secondary scalar solutions lost when there are
 fewer primary solutions

---
 src/Utility/AnaSol.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utility/AnaSol.C b/src/Utility/AnaSol.C
index b7582e5..865a25d 100644
--- a/src/Utility/AnaSol.C
+++ b/src/Utility/AnaSol.C
@@ -374,7 +374,8 @@ void AnaSol::setupSecondarySolutions ()
   // if we are given a stress sol, no scalar secondaries should be registered.
   // this is tailored to assumptions in elasticity applications.
   if (!stressSol && !scalSol.empty()) {
-    scalSecSol.resize(scalSol.size());
+    if (scalSecSol.size() < scalSol.size())
+      scalSecSol.resize(scalSol.size());
     for (size_t i = 0; i < scalSol.size(); ++i)
       if (!scalSecSol[i])
         scalSecSol[i] = new GradientFunc<RealFunc,VecFunc,Vec3>(*scalSol[i]);
-- 
2.43.0


From c4c2a233a7962751be15188fe16086dc54dcaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 082/190] fix: Unhandled math exceptions in auto-diff
 derivatives of expressions

---
 src/Utility/ExprFunctions.C | 106 +++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 968c6c3..fa5b793 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -473,15 +473,22 @@ Real EvalFuncSpatial<autodiff::var>::deriv (const Vec3& X, int dir) const
   if (i >= arg.size())
     return Real(0);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    // Evaluate spatial derivative using auto-diff
+    return derivativesx(expr[i]->Evaluate(),
+                        autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  // Evaluate spatial derivative using auto-diff
-  return derivativesx(expr[i]->Evaluate(),
-                      autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  return Real(0);
 }
 
 
@@ -510,15 +517,22 @@ Real EvalFuncSpatial<autodiff::var>::dderiv (const Vec3& X, int d1, int d2) cons
   if (i >= arg.size())
     return Real(0);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    return derivativesx(derivativesx(expr[i]->Evaluate(),
+                                     autodiff::wrt(arg[i].get(d1)))[0],
+                                     autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return derivativesx(derivativesx(expr[i]->Evaluate(),
-                                   autodiff::wrt(arg[i].get(d1)))[0],
-                                   autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  return Real(0);
 }
 
 
@@ -533,16 +547,23 @@ Vec3 EvalFuncSpatial<autodiff::var>::gradient (const Vec3& X) const
   if (i >= arg.size())
     return Vec3();
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    const auto dx = derivativesx(expr[i]->Evaluate(),
+                                 autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto dx = derivativesx(expr[i]->Evaluate(),
-                               autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  return Vec3();
 }
 
 
@@ -557,26 +578,33 @@ SymmTensor EvalFuncSpatial<autodiff::var>::hessian (const Vec3& X) const
   if (i >= arg.size())
     return SymmTensor(3);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
 
-  const auto dx =
-    derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    const auto dx =
+      derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto [uxx, uxy, uxz] =
-    derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    const auto [uxx, uxy, uxz] =
+      derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto [uyy, uyz] =
-    derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
+    const auto [uyy, uyz] =
+      derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
 
-  const auto [uzz] =
-    derivativesx(dx[2], autodiff::wrt(*arg[i].z));
+    const auto [uzz] =
+      derivativesx(dx[2], autodiff::wrt(*arg[i].z));
+
+    return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
+                       uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
-                     uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  return SymmTensor(3);
 }
 
 
-- 
2.43.0


From aa438a204ddc6d7a9458e749037fad9a78bcad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 083/190] fix: Variable step size BDF coefficients in the
 second time step

---
 src/Utility/BDF.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/BDF.C b/src/Utility/BDF.C
index 64aefd5..698b5ea 100644
--- a/src/Utility/BDF.C
+++ b/src/Utility/BDF.C
@@ -49,7 +49,7 @@ bool TimeIntegration::BDF::advanceStep (double dt, double dtn)
   if (coefs1.size() < 2)
     return false; // stationary problem
 
-  if (++step > 2 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
+  if (++step > 1 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
   {
     double tau = dt/dtn;
     double taup1 = tau + 1.0;
-- 
2.43.0


From e77db25ecb45fcbcb4240050d9dbdb87b51d82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 084/190] fix: Copying of a time stepping object lost the
 current time interval

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..5121697 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -53,8 +53,9 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   iter = ts.iter;
 
   time = ts.time;
+  const size_t iStep = TimeSteps::const_iterator(ts.stepIt) - ts.mySteps.begin();
   mySteps = ts.mySteps;
-  stepIt = mySteps.begin();
+  stepIt = mySteps.begin() + iStep;
   return *this;
 }
 
-- 
2.43.0


From 63644bafa29cbe0ebffe7c5362b8f6a35320750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 085/190] fix: Time after resetting to a step when the start
 time is non-zero

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 5121697..863041f 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -212,7 +212,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.dtn = time.CFL = 0.0;
+  time.t = starTime;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
-- 
2.43.0


From ca529e3355a742b5ba7a01e9b5385d85db41aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 086/190] fix: Cut-back of the last step of a time interval
 skipped the end of it

---
 src/SIM/TimeStep.C | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 863041f..2f6c9ff 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -321,7 +321,14 @@ bool TimeStep::cutback ()
   niter = 10;
   time.first = 'c';
   time.t += time.dt - dt;
-  if (stepIt != mySteps.end())
+  if (stepIt != mySteps.begin() && !this->hasReached((stepIt-1)->second))
+  {
+    // The diverged step completed a time interval, return to that interval
+    --stepIt;
+    lstep = stepIt->first.size();
+    stepIt->first.push_back(time.dt);
+  }
+  else if (stepIt != mySteps.end())
     stepIt->first.back() = time.dt;
 
   IFEM::cout <<"  ** Iterations diverged, trying cut-back with dt="
-- 
2.43.0


From f3c04f1d26163c2a8cee1b8d0dd80486d4a99850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 087/190] fix: Restart of simulations with cut-backs or
 adaptive time step size

---
 src/SIM/TimeStep.C | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 2f6c9ff..8d67ea2 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -385,7 +385,18 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+    // Find the current time interval, and the local step counter within it
+    lstep = 0;
+    for (stepIt = mySteps.begin(); stepIt != mySteps.end(); ++stepIt)
+      if (!this->hasReached(stepIt->second))
+      {
+        const double epsT = 1.0e-6*time.dt;
+        double t = stepIt == mySteps.begin() ? starTime : (stepIt-1)->second;
+        while (lstep < stepIt->first.size() && t+epsT < time.t)
+          t += stepIt->first[lstep++];
+        break;
+      }
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From bc90b4fbe0dc24031325dae43d6e32089407cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 088/190] fix: dimension of off-diagonal blocks with a complete
 upper triangle of three or more blocks

---
 src/ASM/BlockElmMats.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/BlockElmMats.C b/src/ASM/BlockElmMats.C
index 6e3fa26..ced4dff 100644
--- a/src/ASM/BlockElmMats.C
+++ b/src/ASM/BlockElmMats.C
@@ -51,11 +51,11 @@ bool BlockElmMats::redim (size_t blkIndex, size_t nen, size_t ncmp, char basis)
 bool BlockElmMats::redimOffDiag (size_t blkIndex, char symmetric)
 {
   size_t nDiagB = blockInfo.size();
-  if (blkIndex <= nDiagB || blkIndex > A.size())
+  if (blkIndex <= nDiagB || blkIndex >= A.size())
     return false; // Not an off-diagonal sub-matrix
 
   size_t kb = nDiagB;
-  bool symm = A.size()-1 < nDiagB*(nDiagB+1)/2;
+  bool symm = A.size()-1 <= nDiagB*(nDiagB+1)/2;
   if (symmFlag.empty())
     symmFlag.resize(nDiagB*(nDiagB-1) / (symm ? 2 : 1), 0);
   for (size_t ib = 0; ib < nDiagB; ib++)
-- 
2.43.0


From 2753fffa6155a652c6666a0f5b8e7aa13c6932ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 089/190] fix: right-hand-side vector of elements without mass
 in the HHT scheme

---
 src/ASM/HHTMats.C | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/ASM/HHTMats.C b/src/ASM/HHTMats.C
index 46a4c5c..fcc42d5 100644
--- a/src/ASM/HHTMats.C
+++ b/src/ASM/HHTMats.C
@@ -132,26 +132,22 @@ const Vector& HHTMats::getRHSVector () const
   double alphaPlus1 = 1.5 - gamma;
   size_t pa = vec.size()-1; // index to predicted acceleration vector (A)
   size_t iv = 1;            // index to current velocity vector (v)
-  if (haveMass)
+  if (!oldHHT && isPredictor && pa > 3*(vec.size()/3))
   {
-    if (oldHHT)
-    {
-      RHS *= alphaPlus1; // RHS = -(1+alphaH)*S_int
-      RHS.add(A[1]*acc, isPredictor ? 1.0 : -1.0); // RHS (+/-)= M*a
-    }
-    else if (isPredictor && pa > 3*(vec.size()/3))
-    {
+    if (haveMass)
       A[1].multiply(vec[pa]-acc,RHS); // RHS = M*(A-a)
-      iv = pa-1; // index to predicted element velocity vector (V)
+    else
+      RHS.fill(0.0);
+    iv = pa-1; // index to predicted element velocity vector (V)
 #if SP_DEBUG > 2
-      std::cout <<"S_inert = M*(A-a)"<< RHS;
+    std::cout <<"S_inert = M*(A-a)"<< RHS;
 #endif
-    }
-    else
-    {
-      RHS *= alphaPlus1; // RHS = -(1+alphaH)*S_int
-      RHS.add(A[1]*acc,-1.0); // RHS -= M*a
-    }
+  }
+  else
+  {
+    RHS *= alphaPlus1; // RHS = -(1+alphaH)*S_int
+    if (haveMass) // RHS (+/-)= M*a
+      RHS.add(A[1]*acc, oldHHT && isPredictor ? 1.0 : -1.0);
   }
 
   if (oldHHT && b.size() > 2)
-- 
2.43.0


From fc8495c3e93c9b05e862d8cc26a1b1a32c3fb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 090/190] fix: conservative and skew-symmetric convection with
 div-compatible discretizations

---
 Apps/Utils/CompatibleOperators.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/CompatibleOperators.C b/Apps/Utils/CompatibleOperators.C
index 89d7bcf..6fd86c3 100644
--- a/Apps/Utils/CompatibleOperators.C
+++ b/Apps/Utils/CompatibleOperators.C
@@ -63,7 +63,7 @@ void CompatibleOperators::Weak::Convection(std::vector<Matrix>& EM,
           EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(l), fe.basis(l), true, -U[k-1]*scale*fe.detJxW);
           if (k == l)
             for (size_t m = 1; m <= nsd; ++m)
-              EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, -U[m-1]*scale*fe.detJxW);
+              EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(m), fe.basis(l), true, -U[m-1]*scale*fe.detJxW);
           break;
         case WeakOperators::SKEWSYMMETRIC:
           EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.basis(l), true, 0.5*scale*fe.detJxW*dUdX(k,l));
@@ -71,7 +71,7 @@ void CompatibleOperators::Weak::Convection(std::vector<Matrix>& EM,
           if (k == l)
             for (size_t m = 1; m <= nsd; ++m) {
               EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, 0.5*scale*fe.detJxW*U[m-1]);
-              EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, -0.5*U[m-1]*scale*fe.detJxW);
+              EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(m), fe.basis(l), true, -0.5*U[m-1]*scale*fe.detJxW);
             }
       }
     }
-- 
2.43.0


From ad022a6e8b69c6a048a395f7f9262424204dc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 091/190] fix: block indices ignored by the div-compatible
 Laplacian

---
 Apps/Utils/CompatibleOperators.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/CompatibleOperators.C b/Apps/Utils/CompatibleOperators.C
index 6fd86c3..9debdf1 100644
--- a/Apps/Utils/CompatibleOperators.C
+++ b/Apps/Utils/CompatibleOperators.C
@@ -106,7 +106,8 @@ void CompatibleOperators::Weak::Laplacian (std::vector<Matrix>& EM,
 {
   size_t nsd = fe.grad(1).cols();
   for (size_t n = 1; n <= nsd; ++n)
-    EqualOrderOperators::Weak::Laplacian(EM[n], fe, scale, false, n);
+    EqualOrderOperators::Weak::Laplacian(EM[idx[n-1][n-1]], fe,
+                                         scale, false, n);
 
   for (size_t m = 1; m <= nsd && stress; m++)
     for (size_t n = m; n <= nsd; n++) {
-- 
2.43.0


From 512893664b4ed40aa574d1c1292df8a4c4b7b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 092/190] fix: transposed gradient in the advection residual

---
 Apps/Utils/EqualOrderOperators.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/EqualOrderOperators.C b/Apps/Utils/EqualOrderOperators.C
index e1b9c51..73b4515 100644
--- a/Apps/Utils/EqualOrderOperators.C
+++ b/Apps/Utils/EqualOrderOperators.C
@@ -272,8 +272,9 @@ void EqualOrderOperators::Residual::Advection (Vector& EV,
 {
   const size_t nsd = fe.grad(basis).cols();
 
+  const Vec3 conv = g*AC;
   for (size_t k = 1; k <= nsd; ++k)
-    EV.add(fe.basis(basis), (g[k-1]*AC)*scale*fe.detJxW, 0, 1, k-1, nsd);
+    EV.add(fe.basis(basis), conv[k-1]*scale*fe.detJxW, 0, 1, k-1, nsd);
 }
 
 
-- 
2.43.0


From c25a246421c5aaa0a689e5792ef08549130437ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 093/190] fix: transposed gradient in the Piola-mapped
 advection operator

---
 Apps/Utils/PiolaOperators.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/PiolaOperators.C b/Apps/Utils/PiolaOperators.C
index e045a68..29005f6 100644
--- a/Apps/Utils/PiolaOperators.C
+++ b/Apps/Utils/PiolaOperators.C
@@ -23,8 +23,8 @@ void AdvectionConvInt (Matrix& C,
 {
   Matrix G1(2, fe.dPdX.cols()), G2(2, fe.dPdX.cols());
   G1.fillRow(1, fe.dPdX.getRow(1).ptr());
-  G1.fillRow(2, fe.dPdX.getRow(3).ptr());
-  G2.fillRow(1, fe.dPdX.getRow(2).ptr());
+  G1.fillRow(2, fe.dPdX.getRow(2).ptr());
+  G2.fillRow(1, fe.dPdX.getRow(3).ptr());
   G2.fillRow(2, fe.dPdX.getRow(4).ptr());
   C.multiply(fe.P, G1, true, false, false, U[0] * scale * fe.detJxW);
   C.multiply(fe.P, G2, true, false, true,  U[1] * scale * fe.detJxW);
-- 
2.43.0


From efd9845b636a772b346cd595db46875fa5620a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 094/190] fix: lower blocks of non-symmetric Piola-mapped
 operators

---
 Apps/Utils/PiolaOperators.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/PiolaOperators.C b/Apps/Utils/PiolaOperators.C
index 29005f6..1d7df19 100644
--- a/Apps/Utils/PiolaOperators.C
+++ b/Apps/Utils/PiolaOperators.C
@@ -207,8 +207,8 @@ void PiolaOperators::Copy (Matrices& EM,
     return;
   size_t ofs = 1;
   for (size_t b = 1; b <= nsd; ++b) {
-    size_t ofs2 = ofs;
-    for (size_t d = b; d <= nsd; ++d) {
+    size_t ofs2 = 1;
+    for (size_t d = 1; d <= nsd; ++d) {
       if (!EM[idx[b-1][d-1]].empty())
         A.extractBlock(EM[idx[b-1][d-1]], ofs, ofs2, true);
       ofs2 += fe.basis(d).size();
-- 
2.43.0


From 22d8788a0a2cf404082458a413308d116fd3ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 095/190] fix: removal of elements from grids with mixed
 element types

---
 src/Utility/ElementBlock.C | 60 +++++++++++++++++++++-----------------
 src/Utility/ElementBlock.h |  3 ++
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/Utility/ElementBlock.C b/src/Utility/ElementBlock.C
index 0cc4f97..f7efa0a 100644
--- a/src/Utility/ElementBlock.C
+++ b/src/Utility/ElementBlock.C
@@ -130,32 +130,35 @@ bool ElementBlock::endOfElm (size_t& i)
     MMNPC[i++] = -1;
 
     if (i == MMNPC.size())
-    {
-      // Compute the internal element mapping due to that mixed element types
-      // are stored blockwise. Same logic as in the getElements() method.
-      elmIdx.resize(MINEX.size(),0);
-      size_t npc, iEx, iEl = 0;
-      for (size_t nenod : legalNENs)
+      this->initElmIdx();
+  }
+  return true;
+}
+
+
+void ElementBlock::initElmIdx ()
+{
+  // Compute the internal element mapping due to that mixed element types
+  // are stored blockwise. Same logic as in the getElements() method.
+  elmIdx.clear();
+  elmIdx.resize(MINEX.size(),0);
+  size_t npc, iEx, iEl = 0;
+  for (size_t nenod : legalNENs)
+  {
+    npc = iEx = 0;
+    for (int inod : MMNPC)
+      if (inod < 0)
       {
-        npc = iEx = 0;
-        std::vector<int>::const_iterator it, itb = MMNPC.begin();
-        for (it = MMNPC.begin(); it != MMNPC.end(); ++it)
-          if (*it < 0)
-          {
-            if (npc == nenod)
-              elmIdx[iEx] = iEl++;
-            itb = it + 1;
-            npc = 0;
-            ++iEx;
-          }
-          else
-            ++npc;
-        if (iEl >= MINEX.size())
-          break;
+        if (npc == nenod)
+          elmIdx[iEx] = iEl++;
+        npc = 0;
+        ++iEx;
       }
-    }
+      else
+        ++npc;
+    if (iEl >= MINEX.size())
+      break;
   }
-  return true;
 }
 
 
@@ -324,11 +327,13 @@ void ElementBlock::removeElement (int iel)
       else
       {
         size_t elm = 0;
-        for (size_t ip = 0; ip < MMNPC.size() && it2 == MMNPC.end(); ip++)
+        for (size_t ip = 0; ip < MMNPC.size() && elm <= i; ip++)
+        {
+          if (elm == i && it1 == MMNPC.end())
+            it1 = MMNPC.begin() + ip;
           if (MMNPC[ip] < 0 && ++elm == i+1)
             it2 = MMNPC.begin() + ip+1;
-          else if (elm == i && it1 == MMNPC.end())
-            it1 = MMNPC.begin() + ip;
+        }
       }
 
       MMNPC.erase(it1,it2);
@@ -336,6 +341,9 @@ void ElementBlock::removeElement (int iel)
     }
     else
       ++i;
+
+  if (nen == 0)
+    this->initElmIdx();
 }
 
 
diff --git a/src/Utility/ElementBlock.h b/src/Utility/ElementBlock.h
index 5c304ed..eaca275 100644
--- a/src/Utility/ElementBlock.h
+++ b/src/Utility/ElementBlock.h
@@ -121,6 +121,9 @@ protected:
   size_t            nen;   //!< Number of Element Nodes
 
 private:
+  //! \brief Initializes the internal element order in case of mixed types.
+  void initElmIdx();
+
   std::vector<size_t> elmIdx; //!< Internal element order in case of mixed types
 
 public:
-- 
2.43.0


From fcd02c9ace117951c3c42e587e24c70ac2e27b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 096/190] fix: merging of grids with different element types

---
 src/Utility/ElementBlock.C | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Utility/ElementBlock.C b/src/Utility/ElementBlock.C
index f7efa0a..3d0fcdb 100644
--- a/src/Utility/ElementBlock.C
+++ b/src/Utility/ElementBlock.C
@@ -204,8 +204,21 @@ void ElementBlock::merge (const ElementBlock* other,
     else
       nodeNums.push_back(cit - coord.begin());
 
+  if (nen > 0 && nen != other->nen)
+  {
+    // Different element types, switch to storage of mixed element types
+    for (size_t ip = MINEX.size()*nen; ip > 0; ip -= nen)
+      MMNPC.insert(MMNPC.begin()+ip,-1);
+    nen = 0;
+  }
+
+  size_t npc = 0;
   for (int inod : other->MMNPC)
+  {
     MMNPC.push_back(inod < 0 ? inod : nodeNums[inod]);
+    if (nen == 0 && other->nen > 0 && ++npc % other->nen == 0)
+      MMNPC.push_back(-1); // Mark the end of this element
+  }
 
   if (MINEX.empty())
     MINEX = other->MINEX;
@@ -215,6 +228,9 @@ void ElementBlock::merge (const ElementBlock* other,
     MINEX.reserve(MINEX.size()+other->MINEX.size());
     for (int iel : other->MINEX) MINEX.push_back(ielMax+iel);
   }
+
+  if (nen == 0)
+    this->initElmIdx();
 }
 
 
-- 
2.43.0


From b9ec9e8dc0f0d2fa2156f3bf8bbb5d0050d37bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 097/190] fix: Convergence control data shared by all nonlinear
 solution drivers

---
 src/SIM/MultiStepSIM.h | 3 +++
 src/SIM/NewmarkSIM.C   | 4 ----
 src/SIM/NonLinSIM.C    | 4 ----
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6c83dfd..e141632 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -208,6 +208,9 @@ protected:
 
   NormOp refNopt; //!< Reference norm option
   double refNorm; //!< Reference norm value used in convergence checks
+  double convTol  = 0.0; //!< Convergence tolerance of current time step
+  double prevNorm = 0.0; //!< Norm value of previous iteration
+  int    nIncrease = 0;  //!< Number of consecutive norm increases so far
   double rCond;   //!< Reciprocal condition number of the linear equation system
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..79d1b0e 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -543,10 +543,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..722fda8 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -413,10 +413,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
-- 
2.43.0


From ddcdc415f687605c9d352b28fcca24c829716834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 098/190] fix: Wrong velocity and acceleration when HHT
 converges without iterations

---
 src/SIM/HHTSIM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..2a1fe37 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -208,7 +208,7 @@ bool HHTSIM::correctStep (TimeStep& param, bool converged)
   const unsigned short int iV = 1;
   const unsigned short int iA = 2;
 
-  if (param.iter == 1 && !converged)
+  if (param.iter == (converged ? 0 : 1))
   {
     // V_n = v_n^1 = v_{n-1} - V_n
     // A_n = a_n^1 = a_{n-1} - A_n
-- 
2.43.0


From a08a45edce719eacb08a3c4f16c03c89f5402db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 099/190] fix: Distributed loads counted twice in the actual
 inertia force (HHT)

---
 src/ASM/HHTMats.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ASM/HHTMats.C b/src/ASM/HHTMats.C
index fcc42d5..d7605dc 100644
--- a/src/ASM/HHTMats.C
+++ b/src/ASM/HHTMats.C
@@ -94,9 +94,11 @@ const Vector& HHTMats::getRHSVector () const
     Vector& Fia = const_cast<Vector&>(b[1]);
 
     // Find the actual inertia force from the dynamic equilibrium equation
-    // (Fia = Fext - Fs - Fd) and store it in the second RHS vector Fia=b[1]
+    // (Fia = Fext - Fs - Fd) and store it in the second RHS vector Fia=b[1].
+    // Note: The external load of the previous step is added on system level,
+    // except when used together with NewmarkNLSIM.
     Fia = b.front(); // Fia = -Fs
-    if (b.size() > 2)
+    if (oldHHT && b.size() > 2)
       Fia.add(b[2]); // Fia = Fext - Fs
     if (alpha1 > 0.0 && haveMass)
       Fia.add(A[1]*vel,-alpha1); // Fia -= alpha1*M*v
-- 
2.43.0


From f8d87d14403e99faede5b1dd2b84122369294968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 100/190] fix: Restart of HHT and nonlinear Newmark simulations

---
 src/SIM/HHTSIM.C       | 27 +++++++++++++++++----------
 src/SIM/NewmarkNLSIM.C | 16 ++++++++++------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 2a1fe37..5d4af0e 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -281,7 +281,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -298,20 +298,27 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
+  // Note: The force vectors might not exist yet at the time of the restart
+  delete Finert;
+  Finert = nullptr;
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
+  delete Fext;
+  Fext = nullptr;
   sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
-
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  if (sit != data.end())
+  {
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..8a52fee 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,14 +251,18 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
+  // Note: The inertia force might not exist yet at the time of the restart
+  delete Finert;
+  Finert = nullptr;
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   return true;
 }
-- 
2.43.0


From 93e30f7907b2789739ca3988293728d57c64f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 101/190] fix: Line search yields an undefined solution when
 already in equilibrium

---
 src/SIM/NonLinSIM.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 722fda8..d697c97 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -347,6 +347,12 @@ bool NonLinSIM::lineSearch (TimeStep& param)
   model.setMode(SIM::RHS_ONLY,false);
 
   double s0 = residual.dot(linsol);
+  if (s0 == 0.0)
+  {
+    alpha = alphaO = 1.0; // Already in equilibrium
+    return true;
+  }
+
   double smin = fabs(s0);
   double cmin = 1.0;
   double ck = 1.0;
-- 
2.43.0


From ef1cf292e05cfda6e1ccf1fb60a7e620a2021260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 102/190] fix: interface forces left out the last DOF of the
 model

---
 src/SIM/SIMgeneric.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMgeneric.C b/src/SIM/SIMgeneric.C
index 80c6b5a..14182e8 100644
--- a/src/SIM/SIMgeneric.C
+++ b/src/SIM/SIMgeneric.C
@@ -93,7 +93,7 @@ RealArray SIMgeneric::getInterfaceForces (const RealArray& sf,
     std::cout << std::endl;
 #endif
     for (unsigned char i = 0; i < nsd; i++, dof.first++)
-      if (dof.first <= dof.second && dof.first < (int)sf.size())
+      if (dof.first <= dof.second && dof.first <= (int)sf.size())
         force[i] += w*sf[dof.first-1];
       else
         break;
-- 
2.43.0


From 8ba6dd4cd9d6226a00cde5594f0babd3c210142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 103/190] fix: NaN Aitken factor when the residual is unchanged
 in a coupled iteration

---
 Apps/Utils/SIMCoupledSI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMCoupledSI.h b/Apps/Utils/SIMCoupledSI.h
index 4181616..46f1ee5 100644
--- a/Apps/Utils/SIMCoupledSI.h
+++ b/Apps/Utils/SIMCoupledSI.h
@@ -95,7 +95,7 @@ public:
             Vector r1 = this->getAitkenResidual();
             r1 -= prevRes;
             omega *= -prevRes.dot(r1) / r1.dot(r1);
-            if (fabs(omega) < 1e-6) {
+            if (!(fabs(omega) >= 1e-6)) { // true also if omega is NaN
               std::cerr <<"\n  ** Relaxation weight "<< omega <<" too small,"
                         <<" resetting to default "<< omega0 << std::endl;
               omega = omega0;
-- 
2.43.0


From 0361cfefb9c59609c7241cedc07d8c26430ebcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 104/190] fix: resetting to an earlier step did not restore the
 time without step definitions

---
 src/SIM/TimeStep.C | 12 ++++++++++++
 src/SIM/TimeStep.h |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 8d67ea2..6e57c23 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -53,6 +53,7 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   iter = ts.iter;
 
   time = ts.time;
+  myState = ts.myState;
   const size_t iStep = TimeSteps::const_iterator(ts.stepIt) - ts.mySteps.begin();
   mySteps = ts.mySteps;
   stepIt = mySteps.begin() + iStep;
@@ -204,6 +205,14 @@ bool TimeStep::hasReached (double t) const
 bool TimeStep::reset (int istep)
 {
   if (mySteps.empty()) {
+    std::map<int,TimeDomain>::const_iterator it = myState.find(istep);
+    if (it != myState.end() && istep < step)
+    {
+      time.t   = it->second.t;
+      time.dt  = it->second.dt;
+      time.dtn = it->second.dtn;
+      time.CFL = it->second.CFL;
+    }
     step = istep;
     return true;
   }
@@ -224,6 +233,9 @@ bool TimeStep::reset (int istep)
 
 bool TimeStep::increment ()
 {
+  if (mySteps.empty())
+    myState[step] = time; // Record the state, in case of resetting to this step
+
   time.dtn = time.dt;
 
   if (maxCFL > 0.0 && time.CFL > 1.0e-12) {
diff --git a/src/SIM/TimeStep.h b/src/SIM/TimeStep.h
index e10d5ca..78cd194 100644
--- a/src/SIM/TimeStep.h
+++ b/src/SIM/TimeStep.h
@@ -93,6 +93,9 @@ private:
   TimeSteps           mySteps; //!< Time step definitions
   TimeSteps::iterator stepIt;  //!< Running iterator over the time steps
 
+  //! Time domain data at the end of each step (when no step definitions)
+  std::map<int,TimeDomain> myState;
+
   size_t lstep; //!< Local step counter, i.e., within current \a *stepIt
 };
 
-- 
2.43.0


From fe2a940bd7a9f37261efaf7df570d4f66be004f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 105/190] fix: an updated mesh was never exported if the
 refinement happened on a skipped step

---
 src/Utility/DataExporter.C | 6 ++++++
 src/Utility/DataExporter.h | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..e81521c 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -96,7 +96,10 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 {
   if (tp) {
     if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
+    {
+      m_geoUpd |= geoUpd; // the new geometry is written on next time level
       return true; // write only every m_ndump step
+    }
 
     if (m_last_step < 0)
       geoUpd = true; // always write geometry basis on first time level
@@ -113,6 +116,9 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
     }
   }
 
+  geoUpd |= m_geoUpd;
+  m_geoUpd = false;
+
   PROFILE1("DataExporter::dumpTimeLevel");
 
   ++m_level;
diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index a243b75..a28951b 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -81,7 +81,8 @@ public:
   //! \param[in] ndump Interval between dumps
   //! \param[in] level0 Time level to start dumping from (in case of restart)
   DataExporter(bool dynWriters = false, int ndump = 1, int level0 = 0) :
-    m_delete(dynWriters), m_ndump(ndump), m_level(level0-1), m_last_step(-1) {}
+    m_delete(dynWriters), m_ndump(ndump), m_level(level0-1), m_last_step(-1),
+    m_geoUpd(false) {}
 
   //! \brief The destructor deletes the writers if \a dynWriters was \e true.
   virtual ~DataExporter();
@@ -143,6 +144,7 @@ protected:
   int  m_ndump;     //!< Time level stride for dumping
   int  m_level;     //!< Current time level
   int  m_last_step; //!< Last time step we dumped for
+  bool m_geoUpd;    //!< If \e true, updated geometry is yet to be written
 };
 
 //! \brief Convenience type alias
-- 
2.43.0


From 09ea07e6027245c41f94e0af12bfcdf302b39ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 106/190] fix: uninitialized data pointer of fields registered
 for export

---
 src/Utility/DataExporter.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index e81521c..84ed76b 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -62,6 +62,7 @@ bool DataExporter::registerField (const std::string& name,
   entry.description = description;
   entry.field = field;
   entry.results = results;
+  entry.data = nullptr;
   entry.prefix = prefix;
   if (!prefix.empty())
     entry.prefix += ' ';
-- 
2.43.0


From b4f94d39347b149d652f8dc4946b64b9349363bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 107/190] fix: step counter advanced past the maximum number of
 steps

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 6e57c23..09198be 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -274,13 +274,14 @@ bool TimeStep::increment ()
       IFEM::cout <<"\n  Time integration completed."<< std::endl;
     return false;
   }
-  else if (step++ == maxStep && maxStep > 0)
+  else if (step == maxStep && maxStep > 0)
   {
     IFEM::cout <<"\n  ** Terminating, maximum number of time steps reached."
                << std::endl;
     return false;
   }
 
+  step++;
   niter = iter;
   time.t += time.dt;
 
-- 
2.43.0


From 7e6266bf4c4e8c3ced809c23ffa731f2454c3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 108/190] fix: slaves of multi-point constraints lost their
 masters' contribution in applyDirichlet

---
 src/LinAlg/SAM.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 016f569..3f3c0e6 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -831,6 +831,9 @@ bool SAM::applyDirichlet (Vector& dofVec) const
     {
       int ip = mpmceq[iceq-1];
       dofVec[idof] = ttcc[ip-1];
+      for (; ip < mpmceq[iceq]-1; ip++)
+        if (int jdof = mmceq[ip]; jdof > 0 && meqn[jdof-1] > 0)
+          dofVec[idof] += ttcc[ip]*dofVec[jdof-1];
     }
     else if (iceq == 0)
       dofVec[idof] = Real(0);
-- 
2.43.0


From f36812e8218bd3c0c375d447e9a3423edc51ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 109/190] fix: all-zero matrix in linear explicit Runge-Kutta
 when the first step is cut back or after a restart

---
 Apps/Utils/SIMExplicitRK.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRK.h b/Apps/Utils/SIMExplicitRK.h
index dcace82..a150398 100644
--- a/Apps/Utils/SIMExplicitRK.h
+++ b/Apps/Utils/SIMExplicitRK.h
@@ -122,7 +122,7 @@ public:
         return false;
 
       if (!solver.assembleSystem(time, Vectors(1, tmp),
-                                 !linear || (tp.step == 1 && i == 0)))
+                                 !linear || assemble))
         return false;
 
       // solve Mk = Au + f
-- 
2.43.0


From 4b1c956a5c33938444542a4845720e2149b69aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 110/190] fix: explicit multistep methods crashed or lacked the
 matrix when restarted

---
 Apps/Utils/SIMExplicitLMM.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Apps/Utils/SIMExplicitLMM.h b/Apps/Utils/SIMExplicitLMM.h
index 93e1852..8587e7e 100644
--- a/Apps/Utils/SIMExplicitLMM.h
+++ b/Apps/Utils/SIMExplicitLMM.h
@@ -83,7 +83,7 @@ public:
       return false;
 
     if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(1)),
-                               !linear || (tp.step == 1)))
+                               !linear || assemble))
       return false;
 
     loads[0].reset(solver.getRHSvector(0, true));
@@ -96,7 +96,10 @@ public:
        {251.0/720.0, -1274.0/720.0, 2616.0/720.0, -2774.0/720.0, 1901.0/720.0}
     };
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    // The order is limited by the number of previous loads available
+    int c_order = 0;
+    while (c_order < order-1 && loads[c_order+1])
+      ++c_order;
     const std::vector<double>& AB_coef = AB_coefs[c_order];
 
     SystemVector* rhs = solver.getRHSvector(0, false);
@@ -108,8 +111,10 @@ public:
     if (!solver.solveSystem(solver.getSolution()))
       return false;
 
-    if (linear)
+    if (linear) {
       solver.setMode(SIM::RHS_ONLY);
+      assemble = false;
+    }
 
     solver.getSolution() += solver.getSolution(1);
 
@@ -132,7 +137,6 @@ public:
   {
     // Evaluate fluxes for initial conditions.
     if (tp.step == 1) {
-      hasICs = true;
       for (int j = 2; j <= order; ++j) {
         std::stringstream str;
         str << fieldName << j;
@@ -149,7 +153,9 @@ public:
 
           loads[j-2].reset(solver.getRHSvector(0, true));
         } else {
-          hasICs = false;
+          // Not sufficient initial conditions, start with first order
+          for (std::unique_ptr<SystemVector>& load : loads)
+            load.reset();
           break;
         }
       }
@@ -204,8 +210,8 @@ protected:
   int order; //!< Order of method
   bool alone; //!< If true, this is a standalone solver
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
-  bool hasICs = false; //!< If true, start with full order
   bool linear = false; //!< If true, mass matrix is constant
+  bool assemble = true; //!< If true, assemble the mass matrix
 };
 
 }
-- 
2.43.0


From f16c11b414781c403bb7d0d3a2535d54b9fb4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 111/190] fix: implicit multistep methods: wrong loads from
 initial conditions, crash when restarted or failing

---
 Apps/Utils/SIMImplicitLMM.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..3cd058f 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -74,7 +74,10 @@ public:
        {1.0/24.0, -5.0/24, 19.0/24.0, 9.0/24.0},
        {-19.0/720.0, 106.0/720.0, -264.0/720.0, 646.0/720.0, 251.0/720.0}};
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    // The order is limited by the number of previous loads available
+    int c_order = 0;
+    while (c_order < order-1 && loads[c_order+1])
+      ++c_order;
     nSim.setCoefs(AM_coefs[c_order]);
 
     nSim.initSol(2);
@@ -101,24 +104,32 @@ public:
   {
     // Evaluate fluxes for initial conditions.
     if (tp.step == 1) {
-      hasICs = true;
+      bool hasICs = true;
       for (int j = 2; j <= order && hasICs; ++j)
         if (std::string fName = fieldName + std::to_string(j);
             solver.hasIC(fName)) {
           TimeDomain time(tp.time);
-          time.t = tp.time.t - j*tp.time.dt;
-          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
+          time.t = tp.time.t - (j-1)*tp.time.dt;
+          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-2))))
             return false;
 
           loads[j-2] = solver.getRHSvector(0, true);
         }
         else
           hasICs = false;
+
+      if (!hasICs) // Not sufficient initial conditions, start with first order
+        for (SystemVector*& load : loads)
+        {
+          delete load;
+          load = nullptr;
+        }
     }
 
     delete loads.back();
     for (int j = order-2; j >= 0; --j)
       loads[j+1] = loads[j];
+    loads.front() = nullptr;
 
     return solver.advanceStep(tp);
   }
@@ -197,7 +208,6 @@ protected:
   std::vector<SystemVector*> loads; //!< Unscaled load vectors
   int order; //!< Order of method
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
-  bool hasICs = false; //!< If true, start with full order
 };
 
 }
-- 
2.43.0


From 128fc4688e5f1a9facdf7c8c996b63dd9ce7f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 112/190] fix: order of the embedded Runge-Kutta methods

---
 Apps/Utils/TimeIntUtils.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Apps/Utils/TimeIntUtils.C b/Apps/Utils/TimeIntUtils.C
index 38992fc..4d764fa 100644
--- a/Apps/Utils/TimeIntUtils.C
+++ b/Apps/Utils/TimeIntUtils.C
@@ -65,12 +65,14 @@ int TimeIntegration::Order (Method method)
   case AM1:
   case BE:
   case EULER:
+  case HEUNEULER:
     return 1;
   case AB2:
   case AM2:
   case BDF2:
   case HEUN:
   case THETA:
+  case BOGACKISHAMPINE:
     return 2;
   case AB3:
   case AM3:
@@ -79,6 +81,7 @@ int TimeIntegration::Order (Method method)
   case AB4:
   case AM4:
   case RK4:
+  case FEHLBERG:
     return 4;
   case AB5:
     return 5;
-- 
2.43.0


From 92b999beda65cb882fd093b9fcc56f88dbfc8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 113/190] fix: HDF5Reader crashed or leaked handles when
 reading data that is missing

---
 src/Utility/HDF5Reader.C | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/Utility/HDF5Reader.C b/src/Utility/HDF5Reader.C
index 9d3b634..f532370 100644
--- a/src/Utility/HDF5Reader.C
+++ b/src/Utility/HDF5Reader.C
@@ -38,19 +38,33 @@ HDF5Reader::HDF5Reader (const std::string& name, const ProcessAdm& adm)
 */
 
 #ifdef HAS_HDF5
+static hid_t openSet(hid_t file, const std::string& path)
+{
+  hid_t set = -1;
+  H5E_BEGIN_TRY {
+    set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
+  } H5E_END_TRY;
+  return set;
+}
+
+
 template<class T>
 static bool hdf5Read(hid_t file, hid_t type,
                      const std::string& path, std::vector<T>& vec)
 {
-  hid_t set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
+  vec.clear();
+  hid_t set = openSet(file,path);
+  if (set < 0)
+    return false;
+
   hsize_t size = H5Dget_storage_size(set) / sizeof(T);
+  herr_t  stat = -1;
   if (size != 0) {
     vec.resize(size);
-    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
-    H5Dclose(set);
-    return true;
+    stat = H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
   }
-  return false;
+  H5Dclose(set);
+  return stat >= 0;
 }
 #endif
 
@@ -108,13 +122,19 @@ bool HDF5Reader::readString (const std::string& name, std::string& out)
   if (!this->openFile(H5F_ACC_RDONLY))
     return false;
 
-  hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  hid_t set = openSet(m_file,name);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
   hsize_t siz = H5Sget_simple_extent_npoints(space);
   out.resize(siz);
-  H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  herr_t stat = 0;
+  if (siz > 0)
+    stat = H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  H5Sclose(space);
   H5Dclose(set);
-  return true;
+  return stat >= 0;
 #else
   std::cerr << "HDF5Reader: compiled without HDF5 support, no data read" << std::endl;
   return false;
@@ -128,12 +148,17 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
   if (!this->openFile(H5F_ACC_RDONLY))
     return false;
 
-  hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  hid_t set = openSet(m_file,name);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
   hsize_t dims = H5Sget_simple_extent_ndims(space);
 
   if (dims != 3) {
     std::cerr << "HDF5Reader: Wrong dimension for field " << name << std::endl;
+    H5Sclose(space);
+    H5Dclose(set);
     return false;
   }
 
@@ -144,8 +169,11 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
   out.resize(ndim[0],ndim[1],ndim[2]);
 
   std::vector<double> test(ndim[0]*ndim[1]*ndim[2]);
-  H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,test.data());
+  herr_t stat = H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,test.data());
+  H5Sclose(space);
   H5Dclose(set);
+  if (stat < 0)
+    return false;
 
   auto it = test.begin();
   for (hsize_t i = 0; i < ndim[0]; ++i)
-- 
2.43.0


From b774510c4c85ae54d08e9def8c0d1b16e9b62f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 114/190] fix: real vectors were never written to the HDF5-file

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index fa495fa..c21cd5f 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -199,7 +199,7 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
-    this->writeArray(level,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
+    this->writeArray(group,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
   }
   else if (entry.second.field == DataExporter::INTVECTOR) {
     std::vector<int>* ivec = (std::vector<int>*)entry.second.data;
-- 
2.43.0


From 113a7db5a4c4c8e165e4a15b7d624dc221108474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 115/190] fix: gap in the time levels when appending to a
 HDF5-file

---
 src/Utility/HDF5Writer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c21cd5f..e41a218 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -65,8 +65,8 @@ int HDF5Writer::getLastTimeLevel ()
 #endif
 
   if (hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl); fid >= 0) {
-    for (bool ok = true; ok; result++)
-      ok = checkGroupExistence(fid, ("/" + std::to_string(result)).c_str());
+    while (checkGroupExistence(fid, ("/" + std::to_string(result)).c_str()))
+      result++;
     H5Fclose(fid);
   }
   else
-- 
2.43.0


From e5804099122bc1806fdc27c774c678f8ade98d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 116/190] fix: HDF5-file was truncated at each time level when
 its name included the extension

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index e41a218..07263ba 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -36,7 +36,7 @@
 
 HDF5Writer::HDF5Writer (const std::string& name, const ProcessAdm& adm,
                         bool append)
-  : DataWriter(name,adm,".hdf5"), HDF5Base(name+".hdf5", adm)
+  : DataWriter(name,adm,".hdf5"), HDF5Base(m_name,adm)
 {
 #ifdef HAS_HDF5
   struct stat temp;
-- 
2.43.0


From 154def17e41a4cee48b7223aa331d0d1f0b73e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 117/190] fix: element activation state was shared between all
 simulators written to HDF5

---
 src/Utility/HDF5Writer.C | 5 +++--
 src/Utility/HDF5Writer.h | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 07263ba..e5b842e 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -317,8 +317,9 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     field.fill(pchVec.ptr());
   };
 
-  static std::vector<size_t> old_count;
-  if ((results & DataExporter::ELEMENT_MASK) && old_count.empty())
+  // Number of active elements in each patch of this simulator when last written
+  std::vector<size_t>& old_count = m_active[sim];
+  if (results & DataExporter::ELEMENT_MASK)
     old_count.resize(sim->getNoPatches(),0);
 
   const IntegrandBase* prob = sim->getProblem();
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index 1507c44..bc69a2b 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -130,6 +130,9 @@ protected:
 
 private:
   unsigned int m_flag; //!< The file flags to open HDF5 file with
+
+  //! Number of active elements in each patch of the simulators at last output
+  std::map<const SIMbase*,std::vector<size_t>> m_active;
 #endif
 };
 
-- 
2.43.0


From 9ba9b27d5a6818ce0279348c84ecb0c4b44bd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 118/190] fix: restart data from earlier runs were kept instead
 of those written

---
 src/Utility/HDF5Restart.C | 21 ++++++++++++++++++++-
 src/Utility/HDF5Restart.h |  2 ++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index d41a9d0..685094f 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -18,6 +18,7 @@
 
 #ifdef HAS_HDF5
 #include <numeric>
+#include <vector>
 #include <sys/stat.h>
 #include <unistd.h>
 #include <string.h>
@@ -30,7 +31,8 @@
 
 HDF5Restart::HDF5Restart (const std::string& name, const ProcessAdm& adm,
                           int stride, int level0)
-  : HDF5Base(name, adm), m_stride(stride), m_level(level0-1), m_last(0)
+  : HDF5Base(name, adm), m_stride(stride), m_level(level0-1), m_last(0),
+    m_superseded(false)
 {
   if (m_hdf5_name.find('.') == std::string::npos)
     m_hdf5_name += ".hdf5";
@@ -55,6 +57,23 @@ bool HDF5Restart::writeData (const SerializeData& data)
   if (!this->openFile(flag))
     return false;
 
+  if (!m_superseded)
+  {
+    // Remove the data from earlier runs that this run will supersede, if any
+    std::vector<std::string> groups;
+    auto&& find_levels = [] (hid_t, const char* name, void* data) -> herr_t
+    {
+      static_cast<std::vector<std::string>*>(data)->push_back(name);
+      return 0;
+    };
+    int idx = 0;
+    H5Giterate(m_file, "/", &idx, find_levels, &groups);
+    for (const std::string& group : groups)
+      if (atoi(group.c_str()) > m_level)
+        H5Ldelete(m_file, group.c_str(), H5P_DEFAULT);
+    m_superseded = true;
+  }
+
   std::stringstream str;
   str << '/' << ++m_level;
   if (!checkGroupExistence(m_file,str.str().c_str()))
diff --git a/src/Utility/HDF5Restart.h b/src/Utility/HDF5Restart.h
index 7ac3216..db1769b 100644
--- a/src/Utility/HDF5Restart.h
+++ b/src/Utility/HDF5Restart.h
@@ -63,6 +63,8 @@ private:
   int m_stride; //!< Time step stride between outputs
   int m_level;  //!< Current time level for restart output
   int m_last;   //!< Last time step that was written
+
+  bool m_superseded; //!< \e true when data from earlier runs have been removed
 };
 
 #endif
-- 
2.43.0


From a902cfe24867425220a233c83a769eacfe8b434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 119/190] fix: memory and handles leaked when reading restart
 data

---
 src/Utility/HDF5Restart.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 685094f..3ac8924 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -165,13 +165,16 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
   hid_t setId = H5Dopen2(group_id,name,H5P_DEFAULT);
   if (setId < 0) return setId; // Result set not found
   hsize_t siz = H5Dget_storage_size(setId);
-  if (siz < 1) return 0; // Empty result set
-  char* cdata = new char[siz];
-  H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,cdata);
+  herr_t stat = 0;
+  if (siz > 0) // Skip empty result sets
+  {
+    std::string cdata(siz,'\0');
+    stat = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
+    if (stat >= 0) ctx->first[name] = cdata;
+  }
   H5Dclose(setId);
-  ctx->first[name] = std::string(cdata,siz);
 
-  return 0;
+  return stat < 0 ? stat : 0;
 }
 #endif
 
@@ -207,6 +210,7 @@ int HDF5Restart::readData (SerializeData& data, int level, bool basis)
   int idx = 0;
   read_restart_ctx ctx(data,basis);
   int it = H5Giterate(m_file, str.str().c_str(), &idx, read_restart_data, &ctx);
+  this->closeFile();
   return it < 0 ? it : level;
 #else
   std::cout <<"HDF5Writer: Compiled without HDF5 support, no data read."<< std::endl;
-- 
2.43.0


From 012362e6723f34d92e8b54b1e6e9d596e1a3c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 120/190] fix: file left open when a field without data is to
 be dumped

---
 src/Utility/DataExporter.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index 84ed76b..857674a 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -131,8 +131,10 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
   for (DataWriter* writer : m_writers) {
     writer->openFile(m_level);
     for (const std::pair<const std::string,DataExporter::FileEntry>& it : m_entry) {
-      if (!it.second.data)
+      if (!it.second.data) {
+        writer->closeFile(m_level);
         return false;
+      }
       switch (it.second.field) {
         case INTVECTOR:
         case VECTOR:
-- 
2.43.0


From dcccc18eca8ee5a6a089a2a663881594a190ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 121/190] fix: time-dependent fields were not found in the
 HDF5-file, and were lost beyond the last time level

---
 src/Utility/FieldFunctions.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 3c09030..ff2ddcd 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -80,9 +80,10 @@ int FieldFuncHDF5::findClosestLevel (double time) const
   while (ok)
   {
     std::stringstream str;
-    str << lastLevel+incLev << "/timeinfo/SIMbase-1";
-    ok = hdf5->readDouble(str.str(),t);
-    if (ok && fabs(time-t) >= fabs(time-lastTime))
+    str << lastLevel+incLev << "/timeinfo/";
+    ok = hdf5->readDouble(str.str()+"level",t) ||
+         hdf5->readDouble(str.str()+"SIMbase-1",t);
+    if (!ok || fabs(time-t) >= fabs(time-lastTime))
     {
 #ifdef SP_DEBUG
       std::cout <<"FieldFuncHDF5: New time level "<< lastLevel
-- 
2.43.0


From bd04cb40e087833d976efb5b5f57d1eca2a1d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 122/190] fix: projected solutions of all but the first patch
 were wrong in the HDF5-file

---
 src/Utility/HDF5Writer.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index e5b842e..6dcd62d 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -296,7 +296,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
   auto&& extractProjection=[sim,&projOfs](ASMbase* pch, const Vector& glbVec,
-                                          Matrix& field, bool lastProj = false)
+                                          Matrix& field)
   {
     size_t ncmp = sim->getProblem()->getNoFields(2);
     if (ncmp == 0)
@@ -308,7 +308,6 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
       pchVec.resize(ncmp * pch->getNoProjectionNodes());
       size_t projEnd = projOfs + pchVec.size();
       std::copy(glbVec.begin()+projOfs, glbVec.begin()+projEnd, pchVec.begin());
-      if (lastProj) projOfs = projEnd;
     }
     else
       sim->extractPatchSolution(glbVec,pchVec,pch,ncmp,1);
@@ -391,7 +390,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
           if (!proj->at(p).empty())
           {
             Matrix field;
-            extractProjection(pch, proj->at(p), field, p+1 == proj->size());
+            extractProjection(pch, proj->at(p), field);
             for (size_t j = 0; j < field.rows(); j++)
               if (!prob->suppressOutput(j,ASM::PROJECTED))
                 this->writeArray(gid, prob->getField2Name(j,it->second.c_str()),
@@ -427,6 +426,9 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
                              H5T_NATIVE_DOUBLE);
       }
 
+      if (sim->fieldProjections())
+        projOfs += prob->getNoFields(2) * pch->getNoProjectionNodes();
+
       if (eNorm)
         for (size_t k = 1; k <= eNorm->rows(); k++)
           if (sim->extractElmRes(*eNorm,values,k,loc-1,name))
-- 
2.43.0


From 85b11cede1ddbf2c73edadfa9937a81106a6aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 123/190] fix: restart file in a directory with a dot in its
 path got no extension

---
 src/Utility/HDF5Restart.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 3ac8924..4998f5d 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -34,7 +34,8 @@ HDF5Restart::HDF5Restart (const std::string& name, const ProcessAdm& adm,
   : HDF5Base(name, adm), m_stride(stride), m_level(level0-1), m_last(0),
     m_superseded(false)
 {
-  if (m_hdf5_name.find('.') == std::string::npos)
+  size_t slash = m_hdf5_name.find_last_of('/');
+  if (m_hdf5_name.find('.', slash+1) == std::string::npos) // slash+1 = 0 if no '/'
     m_hdf5_name += ".hdf5";
 }
 
-- 
2.43.0


From b3d70f73fc9868c0527310739c4969953519308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 124/190] fix: output and restart file options with a dot in
 the path gave other files, or crash

---
 src/SIM/SIMoptions.C | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/SIM/SIMoptions.C b/src/SIM/SIMoptions.C
index 38938ff..5f72d21 100644
--- a/src/SIM/SIMoptions.C
+++ b/src/SIM/SIMoptions.C
@@ -153,6 +153,17 @@ bool SIMoptions::parseDiscretizationTag (const tinyxml2::XMLElement* elem)
 }
 
 
+//! \brief Static helper removing the extension from a file name, if any.
+static std::string stripExtension (const std::string& fileName)
+{
+  size_t pos = fileName.find_last_of("./");
+  if (pos == std::string::npos || fileName[pos] == '/')
+    return fileName; // no extension
+
+  return fileName.substr(0,pos);
+}
+
+
 bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
 {
   const char* value = nullptr;
@@ -163,11 +174,8 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
       else if (!strcasecmp(elem->FirstChild()->Value(),"binary"))
         format = 1;
     }
-    if (utl::getAttribute(elem,"file",vtf)) {
-      size_t pos = vtf.find_last_of('.');
-      if (pos < vtf.size())
-        vtf.erase(pos);
-    }
+    if (utl::getAttribute(elem,"file",vtf))
+      vtf = stripExtension(vtf);
     if (utl::getAttribute(elem,"nviz",nViz[0]))
       nViz[2] = nViz[1] = nViz[0];
     utl::getAttribute(elem,"nu",nViz[0]);
@@ -185,12 +193,8 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
     restartInc = atoi(value);
 
   else if (!strcasecmp(elem->Value(),"hdf5")) {
-    if (elem->FirstChild()) {
-      hdf5 = elem->FirstChild()->Value();
-      size_t pos = hdf5.find_last_of('.');
-      if (pos < hdf5.size())
-        hdf5.erase(pos);
-    }
+    if (elem->FirstChild())
+      hdf5 = stripExtension(elem->FirstChild()->Value());
     else // use the default output file name
       hdf5 = "(default)";
   }
@@ -281,10 +285,8 @@ bool SIMoptions::dumpHDF5 (const char* defaultName)
   if (hdf5.empty())
     return false;
 
-  if (hdf5 == "(default)") {
-    hdf5 = defaultName;
-    hdf5.erase(hdf5.find_last_of("."));
-  }
+  if (hdf5 == "(default)")
+    hdf5 = stripExtension(defaultName);
 
   return true;
 }
@@ -342,20 +344,20 @@ bool SIMoptions::parseOldOptions (int argc, char** argv, int& i)
   else if (!strcmp(argv[i],"-hdf5"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      hdf5 = strtok(argv[++i],".");
+      hdf5 = stripExtension(argv[++i]);
     else // use the default output file name
       hdf5 = "(default)";
   }
   else if (!strcmp(argv[i],"-vtffile"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      vtf = strtok(argv[++i],".");
+      vtf = stripExtension(argv[++i]);
   }
   else if (!strcmp(argv[i],"-saveInc") && i < argc-1)
     dtSave = atof(argv[++i]);
   else if (!strcmp(argv[i],"-restart") && i < argc-1)
   {
-    restartFile = strtok(argv[++i],".");
+    restartFile = stripExtension(argv[++i]);
     if (i+1 < argc && argv[i+1][0] != '-')
       restartStep = atoi(argv[++i]);
   }
-- 
2.43.0


From c8db2fa06052b8ee3d497cc2fc232884bd798a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 125/190] fix: projected solutions without the primary or
 secondary solution were written to the wrong place in the HDF5-file

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 6dcd62d..b8e0de0 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -287,7 +287,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     this->addGroup(basis);
     if (eNorm || (results & DataExporter::ELEMENT_MASK))
       egroup.push_back(this->getGroup(basis + "/knotspan"));
-    if (exportSol && !sol->empty())
+    if ((exportSol && !sol->empty()) || proj)
       group.push_back(this->getGroup(basis + "/fields"));
   }
   if (proj && sim->fieldProjections())
-- 
2.43.0


From 154f92df45147e217df7506f2beeed0c36c57edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 126/190] fix: projected solutions on separate bases were lost
 in the HDF5-file unless the geometry was written too

---
 src/Utility/HDF5Writer.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index b8e0de0..2acf967 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -290,8 +290,10 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     if ((exportSol && !sol->empty()) || proj)
       group.push_back(this->getGroup(basis + "/fields"));
   }
-  if (proj && sim->fieldProjections())
+  if (proj && sim->fieldProjections()) {
+    this->addGroup(str + "-proj");
     group.push_back(this->getGroup(str + "-proj/fields"));
+  }
 
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
-- 
2.43.0


From e0700b92dd39ebd4a4a25d910f978607bd859c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 127/190] fix: buffer overflow in the control fifo, long and
 multiple messages were lost

---
 src/Utility/ControlFIFO.C | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..30bdd0b 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -53,27 +53,28 @@ void ControlFIFO::poll ()
   if (fifo == -1)
     return;
 
+  std::string data;
   char temp[2048];
-  temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
-  if (len < 0)
-    return;
+  for (int len; (len = read(fifo, temp, sizeof(temp))) > 0;)
+    data.append(temp, len);
 
-  temp[len] = '\0';
-  if (!strlen(temp))
+  if (data.empty())
     return;
 
   tinyxml2::XMLDocument doc;
-  doc.Parse(temp);
-  if (!doc.RootElement()) {
-    std::cerr <<" *** Invalid control data received:\n"<< temp << std::endl;
+  doc.Parse(data.c_str());
+  tinyxml2::XMLElement* root = doc.RootElement();
+  if (!root) {
+    std::cerr <<" *** Invalid control data received:\n"<< data << std::endl;
     return;
   }
 
-  tinyxml2::XMLElement* elem = doc.RootElement()->FirstChildElement();
-  for (; elem; elem = elem->NextSiblingElement())
-    if (callbacks.find(elem->Value()) != callbacks.end())
-      callbacks[elem->Value()]->OnControl(elem);
+  for (; root; root = root->NextSiblingElement()) {
+    tinyxml2::XMLElement* elem = root->FirstChildElement();
+    for (; elem; elem = elem->NextSiblingElement())
+      if (callbacks.find(elem->Value()) != callbacks.end())
+        callbacks[elem->Value()]->OnControl(elem);
+  }
 }
 
 
-- 
2.43.0


From 441aac807cad810bf0b7f23560f63e3875e04805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 128/190] fix: adaptive="false" enabled the adaptive simulator

---
 src/SIM/SIMargsBase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMargsBase.C b/src/SIM/SIMargsBase.C
index 47042bd..3c022b7 100644
--- a/src/SIM/SIMargsBase.C
+++ b/src/SIM/SIMargsBase.C
@@ -43,7 +43,7 @@ bool SIMargsBase::parse (const tinyxml2::XMLElement* elem)
 {
   if (!strcasecmp(elem->Value(),context))
     if (utl::getAttribute(elem,"adaptive",adap,false))
-      if (adap == '0' || tolower(adap) == 'n')
+      if (adap == '0' || tolower(adap) == 'n' || tolower(adap) == 'f')
         adap = 0;
 
   if (strcasecmp(elem->Value(),"geometry"))
-- 
2.43.0


From b9c3df412eaacb73053febb90962999110b1975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 129/190] fix: wrong or no elements selected for refinement:
 fractional percentages, limits met exactly, and crash on empty selections

---
 src/SIM/AdaptiveSetup.C | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..f600f45 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -296,8 +296,11 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     return 0; // Condition number limit reached
   }
 
+  // Note: The options are integers whereas the percentage may be fractional
+  const double percentage = betaFunc ? (*betaFunc)(iStep-1) : beta;
+
   prm.options.reserve(8);
-  prm.options.push_back(betaFunc ? (*betaFunc)(iStep-1) : beta);
+  prm.options.push_back(percentage);
   prm.options.push_back(knot_mult);
   prm.options.push_back(scheme);
   prm.options.push_back(linIndep);
@@ -386,14 +389,23 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   // The variable prm.elements will contain one of the following:
   // - list of elements to be refined (if fullspan or minspan)
   // - list of basis functions to be refined (if structured mesh)
-  const ErrorInfo info = errorLimits(error, prm.options[0], threshold);
+  const ErrorInfo info = errorLimits(error, percentage, threshold);
 
   if (threshold == NONE || threshold == SYMMETRIZED)
-    refineSize = ceil(error.size()*prm.options[0]/100.0);
-  else
-    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
+    refineSize = ceil(error.size()*percentage/100.0);
+  else // using index -1 here to include all entries equal to the limit
+    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,-1),
                                   std::greater_equal<DblIdx>()) - error.begin();
 
+  const char* str = scheme < ISOTROPIC_FUNCTION ? "elements":"basis functions";
+  if (refineSize > error.size())
+    refineSize = error.size();
+  else if (refineSize < 1)
+  {
+    IFEM::cout <<"\nNo "<< str <<" to refine."<< std::endl;
+    return 0;
+  }
+
   if (threshold == SYMMETRIZED)
   {
     double fErr = error[refineSize-1].first;
@@ -419,29 +431,28 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     }
   }
 
-  const char* str = scheme < ISOTROPIC_FUNCTION ? "elements":"basis functions";
   IFEM::cout <<"\nRefining "<< refineSize <<" "<< str
              <<" with errors in range ["<< error[refineSize-1].first
              <<","<< error.front().first <<"] ";
 
   switch (threshold) {
   case NONE:
-    IFEM::cout << prm.options[0] <<"% of all "<< str;
+    IFEM::cout << percentage <<"% of all "<< str;
     break;
   case SYMMETRIZED:
     IFEM::cout << 100.0*refineSize/error.size() <<"% of all "<< str;
     break;
   case MAXIMUM:
-    IFEM::cout << prm.options[0] <<"% of max error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of max error ("<< info.limit <<")";
     break;
   case AVERAGE:
-    IFEM::cout << prm.options[0] <<"% of average error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of average error ("<< info.limit <<")";
     break;
   case MINIMUM:
-    IFEM::cout << prm.options[0] <<"% of min error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of min error ("<< info.limit <<")";
     break;
   case DORFEL:
-    IFEM::cout << prm.options[0] <<"% of total error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of total error ("<< info.limit <<")";
     break;
   default:
     break;
@@ -559,15 +570,16 @@ AdaptiveSetup::errorLimits(const std::vector<DblIdx>& error,
   ErrorInfo result;
   switch (threshold) {
   case MAXIMUM: // beta percent of max error (less than 100%)
-    result.limit = error.front().first * beta*0.01;
+    result.limit = error.front().first * (beta*0.01);
     break;
   case AVERAGE: // beta percent of avg error (typical 100%)
     for (const DblIdx& e : error)
       result.sumErr += e.first;
-    result.limit = (result.sumErr/error.size()) * beta*0.01;
+    // The average can't exceed the maximum, but it might due to round-off
+    result.limit = std::min(result.sumErr/error.size(),error.front().first) * (beta*0.01);
     break;
   case MINIMUM: // beta percent of min error (more than 100%)
-    result.limit = error.back().first * beta*0.01;
+    result.limit = error.back().first * (beta*0.01);
     break;
   case DORFEL:
     result.limit = error.back().first;
-- 
2.43.0


From 811acd22534d0269cce0f794e8bbf0020ef6fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 130/190] fix: buffer overflow in the file names of refined
 meshes

---
 src/SIM/AdaptiveSetup.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f600f45..9fb8c46 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -541,7 +541,7 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh%2)
   {
     // Write all patches to the same file
-    char suffix[8];
+    char suffix[20];
     sprintf(suffix,"_%03d.lr",iStep);
     std::ofstream os(mshPrefix+suffix);
     model.dumpGeometry(os);
@@ -550,11 +550,11 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh > 2)
     for (ASMbase* pch : model.getFEModel())
     {
-      char patchFile[256];
+      char suffix[20];
+      sprintf(suffix,"_%03d",iStep);
+      std::string patchFile = mshPrefix + suffix;
       if (model.getNoPatches() > 1)
-        sprintf(patchFile,"%zu_%s_%03d",pch->idx+1,mshPrefix.c_str(),iStep);
-      else
-        sprintf(patchFile,"%s_%03d",mshPrefix.c_str(),iStep);
+        patchFile = std::to_string(pch->idx+1) + "_" + patchFile;
       dynamic_cast<ASMunstruct*>(pch)->storeMesh(patchFile,storeMesh/2);
     }
 
-- 
2.43.0


From 825e723e8a86a1c0c94e1e888cff96a71a083f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 131/190] fix: norms of wrong group when some projected
 solutions are not available

---
 src/ASM/GlbNorm.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASM/GlbNorm.C b/src/ASM/GlbNorm.C
index b566870..6c2520b 100644
--- a/src/ASM/GlbNorm.C
+++ b/src/ASM/GlbNorm.C
@@ -47,9 +47,9 @@ bool GlbNorm::assemble (const LocalIntegral* elmObj, int elmId)
   size_t i, j, k;
   for (i = j = k = 0; i < elVals.size(); i++)
   {
-    if (j >= myVals[k].size())
-      k++, j = 0;
-    if (k < myVals.size() && j < myVals[k].size())
+    while (k < myVals.size() && j >= myVals[k].size())
+      k++, j = 0; // proceed to next (non-empty) norm group
+    if (k < myVals.size())
       myVals[k][j++] += elVals[i];
     this->applyFinalOp(elVals[i]);
   }
-- 
2.43.0


From 7d63a6785172e5f06b311d11292d0a67ae1a7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 132/190] fix: boundary terms of norms missing for elements
 outside the last material region

---
 src/SIM/SIMbase.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1ca49c..01990de 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2030,6 +2030,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (!myModel[lp]->empty())
         ok = assembleNorms(norm,globalNorm,myModel[lp],1+lp);
 
+  norm->activateElmGroup();
   if (norm->hasBoundaryTerms())
     for (p = myProps.begin(); p != myProps.end() && ok; ++p)
       if (p->pcode == Property::NEUMANN)
-- 
2.43.0


From bcb8144454113600170bd462254dd29545a0c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 133/190] fix: wrong projected solution used in norms with
 several projections on separate bases

---
 src/SIM/SIMbase.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 01990de..4f77d21 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1893,15 +1893,23 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
     size_t nfld = myProblem->getNoFields(2);
     size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t iofs = 0; // Offset to the projected solution values of this patch
+    if (this->fieldProjections())
+      for (const ASMbase* p : myModel)
+        if (p == pch)
+          break;
+        else if (!p->empty() && !p->inActive(time.t))
+          iofs += p->getNoProjectionNodes()*nfld;
+
     for (size_t k = 0; k < ssol.size(); k++)
       if (ssol[k].empty())
         norm->getProjection(k).clear();
       else if (this->fieldProjections())
       {
         Vector c(nval);
-        std::copy(ssol[k].begin()+nCmp,ssol[k].begin()+nCmp+nval,c.begin());
+        if (!pch->inActive(time.t)) // no values for inactive patches
+          std::copy(ssol[k].begin()+iofs,ssol[k].begin()+iofs+nval,c.begin());
         norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-        nCmp += nval;
       }
       else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
       {
-- 
2.43.0


From 7b468f69cf0005c173d3db9169f7192d887e3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 134/190] fix: invalid parameters in global L2-projection of
 functions

---
 src/ASM/GlbL2projector.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASM/GlbL2projector.C b/src/ASM/GlbL2projector.C
index 3367335..20f611e 100644
--- a/src/ASM/GlbL2projector.C
+++ b/src/ASM/GlbL2projector.C
@@ -143,9 +143,9 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   std::array<RealArray,3> expanded;
   if (!dynamic_cast<const ASMunstruct*>(&m_patch))
   {
-    if (m_patch.getNoSpaceDim() == 2)
+    if (m_patch.getNoParamDim() == 2)
       gpar = expandTensorGrid2(gpar, expanded.data());
-    else if (m_patch.getNoSpaceDim() == 3)
+    else if (m_patch.getNoParamDim() == 3)
       gpar = expandTensorGrid3(gpar, expanded.data());
   }
 
@@ -158,8 +158,8 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   double param[3]; // Actual domain parameters to be used for evaluation
   Vec4   X(param,myTime);
   for (size_t i = 0; i < gpar[0].size(); ++i) {
-    for (size_t j = 0; j < 3 && j < m_patch.getNoSpaceDim(); ++j)
-      xi[j] = u[j][0] + gpar[j][i] / (u[j][1] - u[j][0]);
+    for (size_t j = 0; j < 3 && j < m_patch.getNoParamDim(); ++j)
+      xi[j] = (gpar[j][i] - u[j][0]) / (u[j][1] - u[j][0]);
     m_patch.evalPoint(xi, param, X);
     sField.fillColumn(i+1, m_func.getValue(X));
   }
-- 
2.43.0


From aacb3712f800169622b5b4713faa232b4f6425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 135/190] fix: nodal forces outside array bounds when some
 nodes are out of range

---
 src/ASM/GlbForceVec.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/GlbForceVec.C b/src/ASM/GlbForceVec.C
index 8814b3b..a703cfd 100644
--- a/src/ASM/GlbForceVec.C
+++ b/src/ASM/GlbForceVec.C
@@ -32,7 +32,7 @@ bool GlbForceVec::initNodeMap (const std::vector<int>& globalNodes, size_t nfc)
     else
       illegal++;
 
-  F.resize(nfc,nodeMap.size());
+  F.resize(nfc,nodeNum.size());
   if (illegal == 0) return true;
 
   std::cerr <<" *** GlbForceVec::initNodeMap: "<< illegal
-- 
2.43.0


From 5850928c4798e1302d53a816200c5ac9266929fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 136/190] fix: boundary terms of norms used the projected
 solution of another patch

---
 src/SIM/SIMbase.C | 81 +++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 4f77d21..4bc0768 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1845,10 +1845,47 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
   size_t nCmp = 0;
 
+  // Lambda function for extracting the projected solutions for a given patch
+  auto&& extractProjections = [this,&time,&ssol,&nCmp](NormBase* norm,
+                                                       const ASMbase* pch)
+  {
+    size_t nfld = myProblem->getNoFields(2);
+    size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t iofs = 0; // Offset to the projected solution values of this patch
+    if (this->fieldProjections())
+      for (const ASMbase* p : myModel)
+        if (p == pch)
+          break;
+        else if (!p->empty() && !p->inActive(time.t))
+          iofs += p->getNoProjectionNodes()*nfld;
+
+    for (size_t k = 0; k < ssol.size(); k++)
+      if (ssol[k].empty())
+        norm->getProjection(k).clear();
+      else if (this->fieldProjections())
+      {
+        Vector c(nval);
+        if (!pch->inActive(time.t)) // no values for inactive patches
+          std::copy(ssol[k].begin()+iofs,ssol[k].begin()+iofs+nval,c.begin());
+        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
+      }
+      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
+      {
+        // Mixed problem using first basis for projection,
+        // need a separate MADOF array with nCmp dofs per node
+        const IntVec& madof = this->getMADOF(1,nCmp);
+        pch->extractNodalVec(ssol[k],norm->getProjection(k),
+                             madof.data(),madof.size());
+      }
+      else
+        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+  };
+
   // Lambda function for assembling the interior norm terms for a given patch
-  auto&& assembleNorms = [this,time,psol,ssol,&nCmp](NormBase* norm,
-                                                     GlbNorm& integral,
-                                                     ASMbase* pch, int pidx)
+  auto&& assembleNorms = [this,time,psol,&extractProjections](NormBase* norm,
+                                                              GlbNorm& integral,
+                                                              ASMbase* pch,
+                                                              int pidx)
   {
     if (!integral.haveContributions(pidx,myProps))
       return true;
@@ -1891,37 +1928,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       }
     }
 
-    size_t nfld = myProblem->getNoFields(2);
-    size_t nval = pch->getNoProjectionNodes()*nfld;
-    size_t iofs = 0; // Offset to the projected solution values of this patch
-    if (this->fieldProjections())
-      for (const ASMbase* p : myModel)
-        if (p == pch)
-          break;
-        else if (!p->empty() && !p->inActive(time.t))
-          iofs += p->getNoProjectionNodes()*nfld;
-
-    for (size_t k = 0; k < ssol.size(); k++)
-      if (ssol[k].empty())
-        norm->getProjection(k).clear();
-      else if (this->fieldProjections())
-      {
-        Vector c(nval);
-        if (!pch->inActive(time.t)) // no values for inactive patches
-          std::copy(ssol[k].begin()+iofs,ssol[k].begin()+iofs+nval,c.begin());
-        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-      }
-      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
-      {
-        // Mixed problem using first basis for projection,
-        // need a separate MADOF array with nCmp dofs per node
-        const IntVec& madof = this->getMADOF(1,nCmp);
-        pch->extractNodalVec(ssol[k],norm->getProjection(k),
-                             madof.data(),madof.size());
-      }
-      else
-        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
-
+    extractProjections(norm,pch);
     norm->initForPatch(pch);
 
     if (mySol)
@@ -2050,7 +2057,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
@@ -2064,7 +2074,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
-- 
2.43.0


From 4770e42419e4d3dc3c39b90697753dfc487ff8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 137/190] fix: supernode sets lost for all superelements but
 the first

---
 src/ASM/ASMsupel.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMsupel.C b/src/ASM/ASMsupel.C
index fc3859a..aa34dad 100644
--- a/src/ASM/ASMsupel.C
+++ b/src/ASM/ASMsupel.C
@@ -114,8 +114,8 @@ bool ASMsupel::generateFEMTopology ()
   if (nodeSets.size() == 1 && nodeSets.front().second.empty())
   {
     // Define the set of supernodes for this patch
-    nodeSets.front().second.resize(nnod);
-    std::iota(nodeSets.front().second.begin(),nodeSets.front().second.end(),1);
+    // as global node numbers, see ASMbase::convertNodeSets()
+    nodeSets.front().second = myMLGN;
   }
 
   return true;
-- 
2.43.0


From 9de3c18162d9ef128ba6a3c0e7d6c9301ad52389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 138/190] fix: supernode set ignored for superelements without
 a transformation matrix

---
 src/SIM/SIMsupel.C | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMsupel.C b/src/SIM/SIMsupel.C
index 12a5443..833498f 100644
--- a/src/SIM/SIMsupel.C
+++ b/src/SIM/SIMsupel.C
@@ -85,12 +85,13 @@ bool SIMsupel::parse (const tinyxml2::XMLElement* elem)
 
   // Apply the superelement transformation and assign supernode set name
   if (result && !sup.MVP.empty())
-    if ((result = myModel.back()->transform(sup.MVP)) && !supNodeSet.empty())
-    {
-      int topIdx = myModel.back()->parseNodeSet(supNodeSet,nullptr);
-      if (topIdx > 0)
-        myEntitys[supNodeSet].insert(TopItem(myModel.size(),topIdx,4));
-    }
+    result = myModel.back()->transform(sup.MVP);
+  if (result && !supNodeSet.empty())
+  {
+    int topIdx = myModel.back()->parseNodeSet(supNodeSet,nullptr);
+    if (topIdx > 0)
+      myEntitys[supNodeSet].insert(TopItem(myModel.size(),topIdx,4));
+  }
 
   if (result)
     mySups.push_back(sup);
-- 
2.43.0


From 1ac7c664526d31aba2e26180892c2c0ce5c077bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 139/190] fix: superelement refused when its data ends without
 a new line

---
 src/ASM/ASMsupel.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMsupel.C b/src/ASM/ASMsupel.C
index aa34dad..ff9eae7 100644
--- a/src/ASM/ASMsupel.C
+++ b/src/ASM/ASMsupel.C
@@ -79,7 +79,7 @@ bool ASMsupel::read (std::istream& is)
       }
     }
 
-  return readMat == 7 && is.good();
+  return readMat == 7 && !is.fail();
 }
 
 
-- 
2.43.0


From ec722e109975741d8edf0ead6c4b3598db9f8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 140/190] fix: array bounds in transformation of matrices with
 incomplete blocks

---
 src/LinAlg/MatVec.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/MatVec.C b/src/LinAlg/MatVec.C
index 98c1472..be70b41 100644
--- a/src/LinAlg/MatVec.C
+++ b/src/LinAlg/MatVec.C
@@ -89,7 +89,7 @@ bool utl::transform (Matrix& A, const Matrix& Tn)
 {
   size_t M = A.rows();
   size_t N = Tn.rows();
-  if (M < A.cols() || Tn.cols() < N || M < N)
+  if (M < A.cols() || Tn.cols() < N || M < N || M%N > 0)
     return false;
 
   Matrix B(N,N);
@@ -128,7 +128,7 @@ bool utl::transform (Vector& V, const Matrix& Tn, bool transpose)
 {
   size_t M = V.size();
   size_t N = Tn.rows();
-  if (Tn.cols() < N || M < N)
+  if (Tn.cols() < N || M < N || M%N > 0)
     return false;
 
   Vector WA(N);
-- 
2.43.0


From 31e0a4d97ea8043d28ccc810c27fe3080ca0974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 141/190] fix: data race when flagging non-zero equations from
 several threads

---
 src/LinAlg/SystemMatrix.C | 2 ++
 src/LinAlg/SystemMatrix.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SystemMatrix.C b/src/LinAlg/SystemMatrix.C
index 20f1ea1..29d168f 100644
--- a/src/LinAlg/SystemMatrix.C
+++ b/src/LinAlg/SystemMatrix.C
@@ -184,6 +184,7 @@ void SystemMatrix::initNonZeroEqs ()
 bool SystemMatrix::flagNonZeroEq (int ieq)
 {
   if (nonZeroEqs.size() == 1)
+#pragma omp atomic write
     nonZeroEqs.front() = true;
   else if (ieq == 0)
     std::fill(nonZeroEqs.begin(),nonZeroEqs.end(),true);
@@ -199,6 +200,7 @@ bool SystemMatrix::flagNonZeroEq (int ieq)
 bool SystemMatrix::flagNonZeroEqs (const SAM& sam, const IntVec& meq)
 {
   if (nonZeroEqs.size() == 1)
+#pragma omp atomic write
     nonZeroEqs.front() = true;
   else
   {
diff --git a/src/LinAlg/SystemMatrix.h b/src/LinAlg/SystemMatrix.h
index d73439f..a5a0aa0 100644
--- a/src/LinAlg/SystemMatrix.h
+++ b/src/LinAlg/SystemMatrix.h
@@ -384,7 +384,7 @@ protected:
   }
 
 private:
-  std::vector<bool> nonZeroEqs; //!< Flags equations with non-zero contributions
+  std::vector<char> nonZeroEqs; //!< Flags equations with non-zero contributions
 };
 
 #endif
-- 
2.43.0


From a4202245405d58400246329206798902e313474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 142/190] fix: data race on the error counter of the function
 expressions

---
 src/Utility/ExprFunctions.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index fa5b793..da2eea8 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -91,6 +91,7 @@ void ExprException (const ExprEval::Exception& exc, const char* task,
     std::cerr <<": Unknown exception";
   }
   std::cerr << std::endl;
+#pragma omp atomic
   EvalFuncScalar<Real>::numError++;
 }
 
-- 
2.43.0


From 02a514986c698ac01102c49ec80a93a333bc0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 143/190] fix: sparse matrix left scaled by SuperLU after
 solving

---
 src/LinAlg/SparseMatrix.C | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 8590818..4b37bd8 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1262,6 +1262,19 @@ bool SparseMatrix::solveSLUx (Vector& B, Real* rcond)
          slu->R, slu->C, &slu->L, &slu->U, work, lwork, &Bmat, &Xmat,
          &slu->rpg, &slu->rcond, ferr, berr, &Glu, &mem_usage, &stat, &ierr);
 
+  if (!factored && slu->equed != 'N')
+  {
+    // Undo the equilibration scaling of the system matrix itself
+    const bool rowScaled = slu->equed == 'R' || slu->equed == 'B';
+    const bool colScaled = slu->equed == 'C' || slu->equed == 'B';
+    for (size_t j = 0; j < ncol; j++)
+      for (int i = IA[j]; i < IA[j+1]; i++)
+      {
+        if (rowScaled) A[i] /= slu->R[JA[i]];
+        if (colScaled) A[i] /= slu->C[j];
+      }
+  }
+
   B.swap(X);
 
   if (printSLUstat)
-- 
2.43.0


From bde6d0895a01874c44aa4554fe0c9690f7658751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 144/190] fix: stack overflow in multiplication with large
 sparse matrices

---
 src/LinAlg/SparseMatrix.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 4b37bd8..6c5d14f 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -591,11 +591,18 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
   else if (solver == SUPERLU || solver == UMFPACK) {
-    double* y = Cptr->ptr();
-#pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
+#pragma omp parallel
+    {
+      // The thread-private result vectors must be allocated on the heap,
+      // as they may be too large for the stack (of the worker threads)
+      Vector y(nrow);
+#pragma omp for schedule(static)
       for (size_t j = 1; j <= ncol; j++)
         for (int i = IA[j-1]; i < IA[j]; i++)
           y[JA[i]] += A[i]*(*Bptr)(j);
+#pragma omp critical
+      Cptr->Vector::add(y);
+    }
   }
   else // Row-oriented format with 1-based indices
 #pragma omp parallel for schedule(static)
-- 
2.43.0


From 09ddcec633c5c0ad6f5c1864473436f413f3dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 145/190] fix: out of bounds when reading column-oriented
 rectangular matrices

---
 src/LinAlg/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/matrix.h b/src/LinAlg/matrix.h
index a30e5e3..4484be9 100644
--- a/src/LinAlg/matrix.h
+++ b/src/LinAlg/matrix.h
@@ -1884,6 +1884,7 @@ namespace utl //! General utility classes and functions.
       s >> m >> n;
     }
     A.resize(m,n);
+    if (columnori) std::swap(m,n); // the outer loop is over the columns
     for (size_t i = 1; i <= m; i++)
     {
       while (s.get(c) && isspace(c));
-- 
2.43.0


From be98537b18070c050afa9a6fc31c39780c44573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 146/190] fix: mode shapes not mass-normalized

---
 src/SIM/SIMbase.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 4bc0768..802b31e 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2267,6 +2267,7 @@ bool Mode::orthonormalize (const SystemMatrix& mat)
     return false;
   }
 
+  scale = sqrt(scale);
   IFEM::cout <<"   * Mode shape "<< eigNo;
   if (fabs(scale-1.0) < 1.0e-16)
     IFEM::cout <<" is already orthonormal."<< std::endl;
-- 
2.43.0


From 0f66cb94540abf19bd4d911c4ab51ed02db7ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 147/190] fix: out of bounds in static condensation of
 non-existing matrix

---
 src/ASM/AlgEqSystem.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 7bd9260..4da8b6e 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -355,7 +355,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
-- 
2.43.0


From 27a58f9e47efaa4c3154d8148bdf25c0f6a75523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:18 +0000
Subject: [PATCH 148/190] fix: topology set type inherited from the previous
 set

---
 src/SIM/SIMinput.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 0a2c6a1..d6fddb6 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -228,12 +228,13 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
 
   else if (!strcasecmp(elem->Value(),"topologysets"))
   {
-    std::string name, type;
+    std::string name;
     const tinyxml2::XMLElement* set = elem->FirstChildElement("set");
     for (; set; set = set->NextSiblingElement("set"))
       if (utl::getAttribute(set,"name",name))
       {
         int idim = 3;
+        std::string type;
         utl::getAttribute(set,"type",type,true);
         bool nodes0 = type == "nodes0";
         if (type == "volume")
-- 
2.43.0


From 4b5c5df52b25688c1f45f2396eeec0149a41ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:18 +0000
Subject: [PATCH 149/190] fix: prescribed values on 1D end points ignored with
 direct evaluation

---
 src/SIM/SIM1D.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SIM/SIM1D.C b/src/SIM/SIM1D.C
index ce699a0..870c066 100644
--- a/src/SIM/SIM1D.C
+++ b/src/SIM/SIM1D.C
@@ -499,13 +499,13 @@ bool SIM1D::addConstraint (int patch, int lndx, int ldim, int dirs, int code,
   if (ldim == 0) // Vertex constraints
     switch (lndx)
       {
-      case  1: pch->constrainNode(0.0,dirs,code); break;
-      case  2: pch->constrainNode(1.0,dirs,code); break;
+      case  1: pch->constrainNode(0.0,dirs,abs(code)); break;
+      case  2: pch->constrainNode(1.0,dirs,abs(code)); break;
       case -1:
-        ngnod += pch->constrainEndLocal(0,dirs,code);
+        ngnod += pch->constrainEndLocal(0,dirs,abs(code));
         break;
       case -2:
-        ngnod += pch->constrainEndLocal(1,dirs,code);
+        ngnod += pch->constrainEndLocal(1,dirs,abs(code));
         break;
       default:
         return error("vertex index",lndx,true);
-- 
2.43.0


From 9428457cb7f83a83da41da968b2fa2ebe7a30e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 150/190] fix: traction expressions without blanks taken as
 constants

---
 src/Utility/Functions.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index c2b7a0c..d90a26d 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -1088,7 +1088,7 @@ TractionFunc* utl::parseTracFunc (const std::string& func,
   RealFunc* f = nullptr;
   if (!func.empty())
   {
-    if (type == "linear")
+    if (type == "linear" || type == "expression" || type == "chebyshev")
       f = parseRealFunc(func,type);
     else if (type == "constant" ||
              func.find_first_of("\t ") == std::string::npos)
-- 
2.43.0


From b97ea4fb978caa4e07060a0bc1f1acf0b200fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 151/190] fix: zero-based node sets incremented once for each
 set item

---
 src/ASM/ASMbase.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index d0a9b7d..6291d31 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -2019,10 +2019,12 @@ int ASMbase::parseNodeSet (const std::string& setName, const char* cset,
     nodeSets.emplace_back(setName,IntVec());
   }
 
-  utl::parseIntegers(nodeSets[iset].second,cset);
+  IntVec& nodes = nodeSets[iset].second;
+  const size_t nOld = nodes.size();
+  utl::parseIntegers(nodes,cset);
   if (assumeZeroBased)
-    for (int& n : nodeSets[iset].second)
-      ++n;
+    for (size_t i = nOld; i < nodes.size(); i++)
+      ++nodes[i];
 
   return 1+iset;
 }
-- 
2.43.0


From 804edc85794869ccda02db8714ecd0c63f6e7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 152/190] fix: Neumann order ignored for open boundaries

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index d6fddb6..549aff7 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -492,7 +492,7 @@ bool SIMinput::parseBCTag (const tinyxml2::XMLElement* elem)
       for (; i < myProps.size(); i++)
         // But not for edge boundaries in 3D
         if (ASMbase* pch = this->getPatch(myProps[i].patch); pch)
-          if (myProps[i].ldim+1 == pch->getNoParamDim())
+          if (abs(myProps[i].ldim)+1 == pch->getNoParamDim())
             myProps[i].lindx += 10*(order-1);
     }
 
-- 
2.43.0


From ce1e1263627d42a1caf396fc5660106abc462cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 153/190] fix: default geometry truncated to 6 digits

---
 src/SIM/ModelGenerator.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/ModelGenerator.C b/src/SIM/ModelGenerator.C
index 06b9275..7103633 100644
--- a/src/SIM/ModelGenerator.C
+++ b/src/SIM/ModelGenerator.C
@@ -31,6 +31,7 @@ static std::string parseKnots (const tinyxml2::XMLElement* geo, int num)
 {
   std::string min = "umin", max = "umax";
   std::stringstream str;
+  str.precision(16);
   for (int i = 0; i < num; ++i, ++min[0], ++max[0]) {
     double pmin = 0.0, pmax = 1.0;
     if (utl::getAttribute(geo,min.c_str(),pmin) |
@@ -96,7 +97,7 @@ std::string DefaultGeometry1D::createG2 (int nsd, bool rational) const
     if (utl::getAttribute(geo,"L",L))
       IFEM::cout <<"\n\tLength = "<< L;
     Xend += L;
-    std::stringstream os; os << Xend;
+    std::stringstream os; os.precision(16); os << Xend;
     g2.append(os.str());
     for (d = 1; d < nsd; d++)
       g2.append(" 0");
@@ -155,6 +156,7 @@ std::string DefaultGeometry2D::createG2 (int nsd, bool rational) const
   Ly *= scale;
 
   std::stringstream str;
+  str.precision(16);
   str << X0.x <<" "<< X0.y;
   if (nsd > 2) str <<" 0.0";
   if (rational) str <<" 1.0";
@@ -259,6 +261,7 @@ std::string DefaultGeometry3D::createG2 (int, bool rational) const
   for (size_t i = 0; i < nodes.size(); i += 3)
   {
     std::stringstream str;
+    str.precision(16);
     for (size_t j = 0; j < 3; j++)
       str << nodes[i+j] <<" ";
     g2.append(str.str());
-- 
2.43.0


From af9cc8551f91d44c7cc06198c57512405bd93b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 154/190] fix: default geometry ignored the transverse origin

---
 src/SIM/ModelGenerator.C | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/SIM/ModelGenerator.C b/src/SIM/ModelGenerator.C
index 7103633..29be751 100644
--- a/src/SIM/ModelGenerator.C
+++ b/src/SIM/ModelGenerator.C
@@ -94,13 +94,15 @@ std::string DefaultGeometry1D::createG2 (int nsd, bool rational) const
   {
     double Xend, L = 1.0;
     std::stringstream is(X0); is >> Xend;
+    Vec3 Xi; // The other coordinates are the same as in the starting point
+    for (d = 1; d < nsd; d++) is >> Xi[d];
     if (utl::getAttribute(geo,"L",L))
       IFEM::cout <<"\n\tLength = "<< L;
     Xend += L;
     std::stringstream os; os.precision(16); os << Xend;
-    g2.append(os.str());
     for (d = 1; d < nsd; d++)
-      g2.append(" 0");
+      os <<" "<< Xi[d];
+    g2.append(os.str());
   }
   g2.append(rational ? " 1.0\n" : "\n");
 
@@ -158,22 +160,22 @@ std::string DefaultGeometry2D::createG2 (int nsd, bool rational) const
   std::stringstream str;
   str.precision(16);
   str << X0.x <<" "<< X0.y;
-  if (nsd > 2) str <<" 0.0";
+  if (nsd > 2) str <<" "<< X0.z;
   if (rational) str <<" 1.0";
   g2.append(str.str());
   str.str("");
   str <<"\n"<< X0.x+Lx <<" "<< X0.y;
-  if (nsd > 2) str <<" 0.0";
+  if (nsd > 2) str <<" "<< X0.z;
   if (rational) str <<" 1.0";
   g2.append(str.str());
   str.str("");
   str <<"\n"<< X0.x <<" "<< X0.y+Ly;
-  if (nsd > 2) str <<" 0.0";
+  if (nsd > 2) str <<" "<< X0.z;
   if (rational) str <<" 1.0";
   g2.append(str.str());
   str.str("");
   str <<"\n"<< X0.x+Lx <<" "<< X0.y+Ly;
-  if (nsd > 2) str <<" 0.0";
+  if (nsd > 2) str <<" "<< X0.z;
   if (rational) str <<" 1.0";
   g2.append(str.str());
   g2.append("\n");
-- 
2.43.0


From 6eb44e96109da530b6fa58fd45847fb24c4dd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 155/190] fix: invalid initial conditions crash

---
 src/SIM/SIMbase.C  | 2 +-
 src/SIM/SIMinput.C | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 802b31e..6b123a7 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2529,7 +2529,7 @@ bool SIMbase::project (RealArray& values, const FunctionBase* f,
                 <<" into a multi-dimensional field."<< std::endl;
       return false;
     }
-    else if (iField < nFields)
+    else if (iField >= 0 && iField < nFields)
     {
       // Interleave
       size_t i, k = iField;
diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 549aff7..540579c 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1820,8 +1820,11 @@ bool SIMinput::setInitialConditions (SIMdependency* fieldHolder)
                  <<"\nfrom "<< ic.file_field <<" function";
       RealFunc* fn = utl::parseRealFunc(ic.function,ic.file_field);
       IFEM::cout << std::endl;
-      result &= this->project(*field,fn,ic.basis,ic.component-1,
-                              this->getNoFields(ic.basis));
+      if (fn)
+        result &= this->project(*field,fn,ic.basis,ic.component-1,
+                                this->getNoFields(ic.basis));
+      else
+        result = false;
       delete fn;
     }
 
-- 
2.43.0


From 9f1bf110129da52eee75fe46612d8f56f892956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 156/190] fix: crash on reversed patch range

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 540579c..ac33b03 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1044,7 +1044,7 @@ bool SIMinput::parsePatchList (const tinyxml2::XMLElement* elem,
     uppatch = myModel.size();
   utl::getAttribute(elem,"upperpatch",uppatch);
 
-  if (lowpatch < 1 || uppatch > nGlPatches)
+  if (lowpatch < 1 || uppatch > nGlPatches || lowpatch > uppatch)
   {
     std::cerr <<" *** SIMinput::parsePatchList: Invalid patch indices, lower="
               << lowpatch <<" upper="<< uppatch <<"."<< std::endl;
-- 
2.43.0


From 3b570dda64dc78ed1c44455361974a856634da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 157/190] fix: elements duplicated or lost when thread groups
 are calculated again

---
 src/Utility/ThreadGroups.C | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Utility/ThreadGroups.C b/src/Utility/ThreadGroups.C
index 79de268..f284b32 100644
--- a/src/Utility/ThreadGroups.C
+++ b/src/Utility/ThreadGroups.C
@@ -56,7 +56,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneGroup(nel);
   else {
-    tg[0].resize(1, elms.front() >= 0 ? elms : IntVec{});
+    tg[0].assign(1, elms.front() >= 0 ? elms : IntVec{});
     tg[1].resize(0);
   }
 }
@@ -67,7 +67,7 @@ void ThreadGroups::oneStripe (size_t nel)
   tg[0].resize(nel);
   tg[1].resize(0);
   for (size_t iel = 0; iel < nel; iel++)
-    tg[0][iel].resize(1,iel);
+    tg[0][iel].assign(1,iel);
 }
 
 
@@ -76,7 +76,7 @@ void ThreadGroups::oneStripe (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneStripe(nel);
   else {
-    tg[0].resize(elms.size());
+    tg[0].assign(elms.size(),IntVec{});
     tg[1].resize(0);
     if (elms.front() >= 0)
       for (size_t iel = 0; iel < elms.size(); ++iel)
@@ -163,6 +163,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -233,6 +234,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -330,6 +332,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -403,6 +406,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int nel3, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
-- 
2.43.0


From f8f8cf8d0b95ec6408f52c13c29085b45c0153b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 158/190] fix: result file without extension in a folder with a
 period in its name

---
 src/SIM/SIMoutput.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index f46f994..dc3cb52 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -82,7 +82,9 @@ void SIMoutput::setPointResultFile (const std::string& filename, bool dumpCoord)
   std::string& myPtFile = myPoints.back().first;
 
   // Append extension .dat if nothing yet
-  if (myPtFile.find_last_of('.') == std::string::npos)
+  size_t idot  = myPtFile.find_last_of('.');
+  size_t slash = myPtFile.find_last_of('/');
+  if (idot == std::string::npos || (slash != std::string::npos && idot < slash))
     myPtFile.append(".dat");
   IFEM::cout <<"\tOutput file: "<< myPtFile << std::endl;
 
-- 
2.43.0


From 635fa6d8540f05b7d03c381ce1a8cce49ea61d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 159/190] fix: result point written twice for lines with
 coinciding end points

---
 src/SIM/SIMoutput.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index dc3cb52..d033141 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -199,8 +199,11 @@ bool SIMoutput::parseOutputTag (const tinyxml2::XMLElement* elem)
       addPoint(thePoint);
     }
 
-    memcpy(thePoint.u,u1,3*sizeof(double));
-    addPoint(thePoint);
+    if (npt > 1)
+    {
+      memcpy(thePoint.u,u1,3*sizeof(double));
+      addPoint(thePoint);
+    }
 
     IFEM::cout <<"\tLine "<< j <<": P"<< thePoint.patch
                <<" npt = "<< npt <<" xi =";
-- 
2.43.0


From 34fa3baa26fa2a9627a531a42363f92feb38a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 160/190] fix: reaction forces at result points are those of
 another node

---
 src/SIM/SIMoutput.C | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index d033141..da0c3f1 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2259,6 +2259,10 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
     std::ios::fmtflags oldF = os.flags(std::ios::scientific | std::ios::right);
     for (size_t j = 0; j < points.size()+elms.size(); j++)
     {
+      int nodeId = 0; // Global node number of this result point, if any
+      if (j < points.size() && points[j] > 0)
+        nodeId = pch->getNodeID(points[j]);
+
       if (!formatted)
         os << time <<" ";
       else if (j >= points.size())
@@ -2266,10 +2270,7 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       else if (points[j] < 0)
         os <<"  Point #"<< -points[j];
       else
-      {
-        points[j] = pch->getNodeID(points[j]);
-        os <<"  Node #"<< points[j];
-      }
+        os <<"  Node #"<< nodeId;
 
       bool newLine = false;
       // Convenience lambda returning proper newline char before identifier.
@@ -2319,10 +2320,10 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
         if (!sol3.empty()) newLine = true;
       }
 
-      if (reactionForces && points[j] > 0)
+      if (reactionForces && nodeId > 0)
       {
         Vector rf; // print nodal reaction forces for nodes with prescribed DOFs
-        if (mySam->getNodalReactions(points[j],*reactionForces,rf))
+        if (mySam->getNodalReactions(nodeId,*reactionForces,rf))
         {
           if (formatted)
             os << newLineChr() <<"reac =";
-- 
2.43.0


From d87740e7edebc0ace266e208cab375c14bc2830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 161/190] fix: mixed nodal and element result points

---
 src/SIM/SIMoutput.C | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index da0c3f1..ebec009 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2276,11 +2276,19 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       // Convenience lambda returning proper newline char before identifier.
       auto&& newLineChr = [&newLine]() { return newLine ? "\n\t\t" : ":\t"; };
 
-      if (formatted && !sol1.empty())
+      // Columns of the primary and secondary solution for this point.
+      // With element results, there are no secondary results at the nodes.
+      size_t col1 = 1+j, col2 = 1+j;
+      if (!elms.empty())
+        col2 = j < points.size() ? 0 : 1+j - points.size();
+      bool haveSol1 = col1 <= sol1.cols();
+      bool haveSol2 = col2 > 0 && col2 <= sol2.cols();
+
+      if (formatted && haveSol1)
         os << newLineChr() <<"sol1 =";
-      for (size_t i = 1; i <= sol1.rows(); i++)
-        os << std::setw(flWidth) << utl::trunc(sol1(i,j+1));
-      if (!sol1.empty()) newLine = true;
+      for (size_t i = 1; i <= sol1.rows() && haveSol1; i++)
+        os << std::setw(flWidth) << utl::trunc(sol1(i,col1));
+      if (haveSol1) newLine = true;
 
       if (j < Xp.size())
       {
@@ -2297,11 +2305,11 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       }
 
       int isol = 1;
-      for (size_t i = 1; i <= sol2.rows(); i++)
+      for (size_t i = 1; i <= sol2.rows() && haveSol2; i++)
       {
         if (formatted && i%myProblem->getNo2ndSolPerLine() == 1)
           os << newLineChr() <<"sol"<< ++isol <<" =";
-        os << std::setw(flWidth) << utl::trunc(sol2(i,j+1));
+        os << std::setw(flWidth) << utl::trunc(sol2(i,col2));
         newLine = true;
       }
 
@@ -2405,7 +2413,7 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
   if (opt.discretization >= ASM::Spline)
     // Evaluate the primary solution variables
     ok = patch->evalSolution(tmp,patchSol,params.data(),false);
-  else if (!elms.empty())
+  else if (points.empty() && !elms.empty())
     ok = true; // Skip element center primary solution evaluation for now
   else if (points.empty())
     // Evaluate the primary solution variables at all element centers
-- 
2.43.0


From 17e1c913d34e72a00c72602a888837b81fcea310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 162/190] fix: element number in result point output is the
 local one

---
 src/SIM/SIMoutput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index ebec009..3a148a9 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2266,7 +2266,7 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       if (!formatted)
         os << time <<" ";
       else if (j >= points.size())
-        os <<"  Element #"<< elms[j-points.size()];
+        os <<"  Element #"<< pch->getElmID(elms[j-points.size()]);
       else if (points[j] < 0)
         os <<"  Point #"<< -points[j];
       else
-- 
2.43.0


From 822d6a2a51e6bd3ba35045d5983aa65fa995ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 163/190] fix: grid output of velocities in multi-patch models

---
 src/SIM/SIMoutput.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 3a148a9..3c0e25a 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2430,8 +2430,8 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
     for (size_t i = 0; i < myProblem->getNoFields(1); i++)
       compNames->push_back(myProblem->getField1Name(i));
 
-  if (ok)
-    ok = augmentColumns(sol1,tmp);
+  Matrix psol1; // All primary solution quantities of this patch
+  std::swap(psol1,tmp);
 
   if (psol.size() > 2 && (opt.discretization >= ASM::Spline || !points.empty()))
     // Extract nodal point velocity and acceleration
@@ -2444,7 +2444,7 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
       else
         ok = patch->getSolution(tmp,locVec,points);
       if (ok)
-        ok = sol1.augmentRows(tmp);
+        ok = psol1.augmentRows(tmp);
       if (ok && getNames)
       {
         const char* velacc = idx == 1 ? "velocity" : "acceleration";
@@ -2455,6 +2455,9 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
       }
     }
 
+  if (ok)
+    ok = augmentColumns(sol1,psol1);
+
   if (myProblem->getNoFields(2) < 1 || !ok)
     return ok; // no secondary solution variables
 
-- 
2.43.0


From 041039bf40c5ca231d9fd1447b49a16d7b6cbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 164/190] fix: result point numbers in nodal vector output of
 multi-patch models

---
 src/SIM/SIMoutput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 3c0e25a..37dfde9 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2542,7 +2542,7 @@ bool SIMoutput::dumpVector (const Vector& vsol, const char* fname,
       // Find all evaluation points within this patch, if any
       std::array<RealArray,3> params;
       IntVec points;
-      int jPoint = iPoint;
+      int jPoint = 1;
       for (const ResultPoint& pt : rptp.second)
       {
         if (pt.patch == pch->idx+1)
-- 
2.43.0


From 198edc9606c3c5a8a7201ec11395b7946fcb3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 165/190] fix: solution output of models with varying number of
 nodal DOFs

---
 src/SIM/SIMoutput.C | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 37dfde9..73eee60 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2187,12 +2187,14 @@ bool SIMoutput::dumpSolution (const Vector& psol, utl::LogStream& os) const
     for (size_t k = 0; k < nf; k++)
     {
       os << myProblem->getField1Name(k,"# FE");
+      size_t idof = k;
       for (size_t j = 1; j <= pch->getNoNodes(); j++)
       {
-        std::pair<int,int> dofs = mySam->getNodeDOFs(j);
-        int idof = dofs.first+k;
-        if (idof <= dofs.second)
-          os <<"\n"<< utl::trunc(patchSol[idof-1]);
+        std::pair<int,int> dofs = mySam->getNodeDOFs(pch->getNodeID(j));
+        size_t nndof = dofs.second+1 - dofs.first;
+        if (k < nndof)
+          os <<"\n"<< utl::trunc(patchSol[idof]);
+        idof += nndof;
       }
       os << std::endl;
     }
-- 
2.43.0


From 0148e610174ad230e3842305b077dbdb36913ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:13 +0000
Subject: [PATCH 166/190] fix: solution output of problems without secondary
 solution

---
 src/SIM/SIMoutput.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 73eee60..1836c11 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2199,6 +2199,9 @@ bool SIMoutput::dumpSolution (const Vector& psol, utl::LogStream& os) const
       os << std::endl;
     }
 
+    if (myProblem->getNoFields(2) < 1)
+      continue; // no secondary solution variables
+
     // Evaluate secondary solution variables
     if (!this->initPatchForEvaluation(pch->idx+1))
       return false;
-- 
2.43.0


From 775f45de73af49a852f50c0d3c5be43b7b486fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 167/190] fix: load vector in DOF-order with multi-point
 constraints

---
 src/SIM/SIMbase.C | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 6b123a7..eeb76dd 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1439,6 +1439,15 @@ bool SIMbase::extractLoadVec (Vector& loadVec, size_t idx, const char* hd) const
   if (!b || !mySam->expandSolution(*b,loadVec,0.0))
     return false;
 
+  // The dependent DOFs do not carry any load, it is transferred to their masters
+  for (int inod = 1; inod <= mySam->getNoNodes(); inod++)
+  {
+    std::pair<int,int> dofs = mySam->getNodeDOFs(inod);
+    for (int idof = dofs.first; idof <= dofs.second; idof++)
+      if (mySam->getEquation(inod,idof-dofs.first+1) <= 0)
+        loadVec(idof) = 0.0;
+  }
+
 #if SP_DEBUG > 1
   mySam->printVector(std::cout,loadVec,"\nLoad vector");
 #endif
-- 
2.43.0


From cb235a7a2f6ff1798d1598dfbd0ccc3b9faf02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 168/190] fix: modal damping ignored without Rayleigh damping

---
 src/SIM/SIMmodal.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMmodal.C b/src/SIM/SIMmodal.C
index dc2f1bf..923dee1 100644
--- a/src/SIM/SIMmodal.C
+++ b/src/SIM/SIMmodal.C
@@ -184,7 +184,10 @@ bool SIMmodal::assembleModalSystem (const TimeDomain& time, const Vectors& mSol,
     if (beta > 0.0)
     {
       myElmMat = new NewmarkMats(0.0,0.0,beta,gamma);
-      myElmMat->resize(alpha1 > 0.0 || alpha2 > 0.0 ? 4 : 3, 1);
+      bool haveDamping = alpha1 > 0.0 || alpha2 > 0.0;
+      for (const Mode& mode : myModes)
+        haveDamping |= mode.damping > 0.0;
+      myElmMat->resize(haveDamping ? 4 : 3, 1);
     }
     else // quasi-static simulation
     {
-- 
2.43.0


From c5141ac19d2b6107bbf3f993fa55c6efeeeaed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 169/190] fix: modal damping lost in restart

---
 src/SIM/SIMmodal.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SIM/SIMmodal.C b/src/SIM/SIMmodal.C
index 923dee1..20be7c9 100644
--- a/src/SIM/SIMmodal.C
+++ b/src/SIM/SIMmodal.C
@@ -271,6 +271,8 @@ bool SIMmodal::saveModes (std::map<std::string,std::string>& data) const
       archive(mode.eigVal);
       archive(mode.eigVec);
     }
+    for (const Mode& mode : myModes)
+      archive(mode.damping);
   }
   data["ModalSIM"] = str.str();
   return true;
@@ -297,6 +299,9 @@ bool SIMmodal::restoreModes (const std::map<std::string,std::string>& data)
       archive(mode.eigVal);
       archive(mode.eigVec);
     }
+    if (str.peek() != EOF) // not present in older restart files
+      for (Mode& mode : myModes)
+        archive(mode.damping);
     return true;
   }
 #endif
-- 
2.43.0


From 251bcf3cd0f2ec39d6ae818def713ddbbac4682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 170/190] fix: standard eigenvalue problems without a second
 matrix

---
 src/Eig/EigSolver.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index f87ba0e..fbc223d 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -138,7 +138,10 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
   if (ierr < 2) return ierr == 1;
 
   A->compressPattern();
-  B->compressPattern();
+  if (B)
+    B->compressPattern();
+  else if (mode > 2)
+    return false; // the generalized problems need two matrices
 
   K = A;
   M = B;
-- 
2.43.0


From 8431d7fc491570f006fd3e990f28d94b4ae197e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:24 +0000
Subject: [PATCH 171/190] fix: eigenmode combinations with negative amplitudes

---
 src/SIM/EigenModeSIM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 9043d7f..6ccb118 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -92,7 +92,7 @@ void EigenModeSIM::printProblem (bool stopInputTimer) const
   bool multiModes = false;
   IFEM::cout <<"Eigenmode combination: u(x,t) =";
   for (size_t i = 0; i < amplitude.size(); i++)
-    if (amplitude[i] > epsZ)
+    if (fabs(amplitude[i]) > epsZ)
     {
       IFEM::cout << (multiModes ? "\n                              + ":" ");
       if (fabs(amplitude[i]-1.0) > epsZ)
@@ -167,7 +167,7 @@ SIM::ConvStatus EigenModeSIM::solveStep (TimeStep& param, SIM::SolutionMode,
 
   solution.front().fill(0.0);
   for (size_t i = 0; i < amplitude.size() && i < modes.size(); i++)
-    if (amplitude[i] > epsZ)
+    if (fabs(amplitude[i]) > epsZ)
       solution.front().add(modes[i].eigVec,amplitude[i]*sin(modes[i].eigVal*t));
 
   return this->solutionNorms(param.time,zero_tolerance,outPrec) ?
-- 
2.43.0


From 0277c35964cc83bca85817c7f149bc38b4d55271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:29 +0000
Subject: [PATCH 172/190] fix: frequency of a list of eigenmodes only applied
 to the last one

---
 src/SIM/EigenModeSIM.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 6ccb118..9c4a9ad 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -61,6 +61,9 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       utl::parseIntegers(modes,value);
       utl::getAttribute(child,"scale",scale);
       std::sort(modes.begin(),modes.end());
+      if (modes.empty() || modes.front() < 1)
+        continue; // Ignore empty lists and non-existing modes
+
       imode = modes.back();
       if (imode > amplitude.size())
         amplitude.resize(imode,0.0);
@@ -70,7 +73,7 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       {
         amplitude[mode-1] = scale;
         if (freq > epsZ)
-          omega[imode-1] = 2.0*M_PI*freq;
+          omega[mode-1] = 2.0*M_PI*freq;
       }
     }
   }
-- 
2.43.0


From 13793c5342672fb76025aee4582816fddeb806ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:13 +0000
Subject: [PATCH 173/190] fix: equation system of coupled simulators with
 constrained DOFs

---
 src/ASM/SAMpatch.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 9ddcb21..3770b33 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -313,6 +313,7 @@ bool SAMpatch::initConstraintEqs ()
                   << idof <<" ("<< (*cit)->getSlave()
                   <<").\n          This dof is already marked as "
                   << (msc[idof-1] == 0 ? "FIXED." : "SLAVE.") << std::endl;
+	(*cit)->iceq = -1;
 	ip--;
 	nceq--;
 	continue;
@@ -447,8 +448,9 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   // Reinitialize some model size parameters
   nnod += that->nnod;
   nel  += that->nel;
-  nceq += that->nceq;
-  neq   = 0;
+  nceq  = neq = nspdof = nmmnpc = nmmceq = 0;
+  for (const ASMbase* pch : model)
+    nceq += pch->getNoMPCs();
 
   if (!nodeType.empty())
     nodeType.resize(nnod,'0');
-- 
2.43.0


From 6071998889c1fbff645e2c417f34accec40ab68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:13 +0000
Subject: [PATCH 174/190] fix: DOF types of coupled simulators with common
 nodes

---
 src/ASM/SAMpatch.C | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 3770b33..b84e659 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -446,6 +446,8 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   }
 
   // Reinitialize some model size parameters
+  const int nnod1 = nnod;
+  const int ndof1 = ndof;
   nnod += that->nnod;
   nel  += that->nel;
   nceq  = neq = nspdof = nmmnpc = nmmceq = 0;
@@ -455,21 +457,26 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   if (!nodeType.empty())
     nodeType.resize(nnod,'0');
 
-  if (!dof_type.empty() || !that->dof_type.empty())
-  {
-    if (dof_type.empty())
-      dof_type.resize(ndof,'D');
-    if (!that->dof_type.empty())
-      dof_type.insert(dof_type.end(),
-                      that->dof_type.begin(),that->dof_type.end());
-  }
-
   // Reinitialize the node/dof arrays (madof,msc) and compute ndof
   delete[] madof;
   delete[] msc;
   if (!this->initNodeDofs({}))
     return false;
 
+  if (!dof_type.empty() || !that->dof_type.empty())
+  {
+    dof_type.resize(ndof1,'D');
+    for (int n = 0; n < that->nnod; n++)
+      if (madof[nnod1+n] == madof[nnod1+n+1])
+        continue; // This node is replaced by a node of this SAM object
+      else if (that->dof_type.empty())
+        dof_type.insert(dof_type.end(),that->madof[n+1]-that->madof[n],'D');
+      else
+        dof_type.insert(dof_type.end(),
+                        that->dof_type.begin()+that->madof[n]-1,
+                        that->dof_type.begin()+that->madof[n+1]-1);
+  }
+
   IFEM::cout <<"\n\n >>> SAM model summary <<<"
              <<"\nNumber of elements    "<< nel
              <<"\nNumber of nodes       "<< nnod
-- 
2.43.0


From a651b73b9fe9ca2f8d208334444be4edb64ec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:13 +0000
Subject: [PATCH 175/190] fix: couplings from a simulator to a preceding one,
 and between more than two

---
 src/SIM/SIMmultiCpl.C | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMmultiCpl.C b/src/SIM/SIMmultiCpl.C
index 9188461..20fbc50 100644
--- a/src/SIM/SIMmultiCpl.C
+++ b/src/SIM/SIMmultiCpl.C
@@ -109,6 +109,15 @@ bool SIMmultiCpl::preprocessC (const IntVec& ignored, bool fixDup, double time0)
   // Process the inter-sim couplings
   int misMatch = 0;
   std::map<int,int> cplNodes;
+
+  // Lambda function returning the node that actually represents a given node.
+  auto&& represent = [&cplNodes](int node)
+  {
+    std::map<int,int>::const_iterator it = cplNodes.find(node);
+    for (; it != cplNodes.end(); it = cplNodes.find(node)) node = it->second;
+    return node;
+  };
+
   for (const SIMcoupling& cpl : myCpl)
   {
     IntVec mNodes, sNodes;
@@ -128,7 +137,14 @@ bool SIMmultiCpl::preprocessC (const IntVec& ignored, bool fixDup, double time0)
       Vec3 Xm = cpl.mstSim->getNodeCoord(mNodes[i]-nSubNodes[cpl.mstSim]);
       Vec3 Xs = cpl.slvSim->getNodeCoord(sNodes[i]-nSubNodes[cpl.slvSim]);
       if (Xm.equal(Xs,1.0e-4))
-        cplNodes[sNodes[i]] = mNodes[i];
+      {
+        // The node of the simulator being merged first is always the one
+        // to keep, since only those of the succeeding one are renumbered
+        int mNode = represent(mNodes[i]);
+        int sNode = represent(sNodes[i]);
+        if (mNode != sNode)
+          cplNodes[std::max(mNode,sNode)] = std::min(mNode,sNode);
+      }
       else
       {
         misMatch++;
@@ -141,6 +157,10 @@ bool SIMmultiCpl::preprocessC (const IntVec& ignored, bool fixDup, double time0)
   if (misMatch > 0)
     return false;
 
+  // Resolve the coupling chains, as each node is renumbered only once
+  for (std::pair<const int,int>& cp : cplNodes)
+    cp.second = represent(cp.second);
+
   IFEM::cout <<"\nCoupling node mapping:";
   for (const std::pair<const int,int>& cp : cplNodes)
     IFEM::cout <<"\n\t"<< cp.first <<" -> "<< cp.second;
-- 
2.43.0


From 24fb130daeae11a6acd78bef3d6bd62568b0de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:38 +0000
Subject: [PATCH 176/190] fix: multi-point constraints with masters constrained
 in another simulator

---
 src/ASM/SAMpatch.C | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index b84e659..bd9214f 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -15,6 +15,7 @@
 #include "ASMbase.h"
 #include "MPC.h"
 #include "IFEM.h"
+#include <algorithm>
 #include <functional>
 
 
@@ -445,6 +446,24 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
     model.push_back(pch);
   }
 
+  // Some master DOFs may now be slaves in constraints of another SAM object
+  MPCSet allMPCs;
+  for (const ASMbase* pch : model)
+    allMPCs.insert(pch->begin_MPC(),pch->end_MPC());
+
+  for (MPC* mpc : allMPCs)
+    for (size_t i = 0; i < mpc->getNoMaster(); i++)
+    {
+      const int node = mpc->getMaster(i).node;
+      const int ldof = mpc->getMaster(i).dof;
+      MPC master(node,ldof);
+      if (MPCIter chain = allMPCs.find(&master); chain != allMPCs.end())
+        if (std::none_of(model.begin(), model.end(),
+                         [node,ldof](const ASMbase* pch)
+                         { return pch->isFixed(node,ldof); }))
+          mpc->updateMaster(i,*chain);
+    }
+
   // Reinitialize some model size parameters
   const int nnod1 = nnod;
   const int ndof1 = ndof;
-- 
2.43.0


From 18eeea87413f0be7bc515579ff9c448f6cbe3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 177/190] fix: uninitialized node and element numbers when
 reading matlab files

---
 src/ASM/ASMutils.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index fa5176a..d992840 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -70,7 +70,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     {
       while (readLine(cline))
       {
-        int id; Vec3 X;
+        int id = 0; Vec3 X;
         std::istringstream(cline) >> id >> X;
 #if SP_DEBUG > 1
         std::cout << id <<": "<< X << std::endl;
@@ -93,7 +93,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     {
       while (readLine(cline))
       {
-        int id, node;
+        int id = 0, node;
         IntVec mnpc; mnpc.reserve(4);
         std::istringstream selem(cline);
         selem >> id >> node;
-- 
2.43.0


From 9a01e575f940d99c00ff8946aad7617f8d64fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 178/190] fix: fixed status of nodes asked for by global
 number, and of nodes shared by patches

---
 src/SIM/SIMbase.C | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index eeb76dd..45f3c52 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1686,11 +1686,16 @@ Vec4 SIMbase::getNodeCoord (int inod) const
 
 bool SIMbase::isFixed (int inod, int dof) const
 {
+  bool found = false;
   for (ASMbase* pch : myModel)
-    if (size_t node = pch->getNodeIndex(inod,true); node > 0)
-      return pch->isFixed(node,dof,true);
+    if (pch->getNodeIndex(inod,true) > 0)
+    {
+      found = true;
+      if (pch->isFixed(inod,dof,true))
+        return true;
+    }
 
-  return true;
+  return !found;
 }
 
 
-- 
2.43.0


From a5916b4b8c42d1e0e2ad467d300d98321e545e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 179/190] fix: solution of newly active nodes that are shared
 with patches without element activation

---
 src/SIM/SIMbase.C | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 45f3c52..dd07bf7 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1033,14 +1033,13 @@ void SIMbase::updateForNewElements (Vector& solution, const TimeDomain& time,
   // Find all elements and nodes that were active in the previous time step
   IntSet oldElms, oldNodes;
   for (ASMbase* pch : myModel)
-    if (pch->getElementActivator())
-      for (size_t iel = 1; iel <= pch->getNoElms(true); iel++)
-        if (pch->isElementActive(iel-1,time.t-time.dt))
-        {
-          oldElms.insert(pch->getElmID(iel));
-          for (int inod : pch->getElementNodes(iel))
-            oldNodes.insert(pch->getNodeID(1+inod));
-        }
+    for (size_t iel = 1; iel <= pch->getNoElms(true); iel++)
+      if (pch->isElementActive(iel-1,time.t-time.dt))
+      {
+        oldElms.insert(pch->getElmID(iel));
+        for (int inod : pch->getElementNodes(iel))
+          oldNodes.insert(pch->getNodeID(1+inod));
+      }
 
   // Find the newly activated elements and assign solution values to
   // the nodes of those elements that were inactive in the previous step
-- 
2.43.0


From 69fcd83a79256285cb893c0ebd3ccda5a31a7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 180/190] fix: unique nodes, with coordinates, of property sets
 that cover whole patches

---
 src/SIM/SIMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index dd07bf7..9e611b1 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1114,6 +1114,7 @@ void SIMbase::getBoundaryNodes (int pcode, IntVec& glbNodes, Vec3Vec* XYZ) const
   glbNodes.clear();
   if (XYZ) XYZ->clear();
 
+  IntSet unique;
   for (const Property& prop : myProps)
     if (abs(prop.pindx) == pcode)
     {
@@ -1130,7 +1131,7 @@ void SIMbase::getBoundaryNodes (int pcode, IntVec& glbNodes, Vec3Vec* XYZ) const
       else if (abs(prop.ldim) == pch->getNoParamDim())
         // The boundary and the patch are of same dimension
         for (size_t node = 1; node <= pch->getNoNodes(); node++)
-          glbNodes.push_back(pch->getNodeID(node));
+          nodes.push_back(pch->getNodeID(node));
       else if (prop.ldim == 4)
       {
         // The boundary nodes are stored explicitly
@@ -1142,7 +1143,7 @@ void SIMbase::getBoundaryNodes (int pcode, IntVec& glbNodes, Vec3Vec* XYZ) const
 
       // Ensure the global node numbers are unique if more than one patch
       for (int nodeId : nodes)
-        if (std::find(glbNodes.begin(),glbNodes.end(),nodeId) == glbNodes.end())
+        if (unique.insert(nodeId).second)
         {
           glbNodes.push_back(nodeId);
           if (XYZ)
-- 
2.43.0


From ef30a1ac117297b578192f21d634ea844fc65c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:10 +0000
Subject: [PATCH 181/190] fix: stack overflow when printing norms in dynamics
 with more than six DOFs per node

---
 src/SIM/NewmarkSIM.C | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 79d1b0e..6b077e6 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -26,7 +26,8 @@ const char* NewmarkSIM::inputContext = "newmarksolver";
 namespace
 {
   //! \brief Helper function printing out the max values of a solution vector.
-  void printMax (size_t n, const size_t* iMax, const double* vMax,
+  void printMax (size_t n, const std::vector<size_t>& iMax,
+                 const std::vector<double>& vMax,
                  const char* label, utl::LogStream& os)
   {
     for (size_t d = 0; d < n; d++)
@@ -239,9 +240,9 @@ bool NewmarkSIM::initAcc (double zero_tolerance, std::streamsize outPrec)
     return true;
 
   const size_t nf = model.getNoFields(1);
-  size_t kMax[6];
-  double aMax[6];
-  double accL2 = model.solutionNorms(accVec, aMax, kMax, nf);
+  std::vector<size_t> kMax(nf > 3 ? nf : 3);
+  std::vector<double> aMax(nf > 3 ? nf : 3);
+  double accL2 = model.solutionNorms(accVec, aMax.data(), kMax.data(), nf);
 
   utl::LogStream& cout = model.getProcessAdm().cout;
   std::streamsize stdPrec = outPrec > 0 ? cout.precision(outPrec) : 0;
@@ -615,12 +616,16 @@ bool NewmarkSIM::solutionNorms (const TimeDomain&,
     return true;
 
   const size_t nf = model.getNoFields(1);
-  size_t iMax[6], jMax[6], kMax[6];
-  double dMax[6], vMax[6], aMax[6];
+  const size_t nMax = nf > 3 ? nf : 3;
+  std::vector<size_t> iMax(nMax), jMax(nMax), kMax(nMax);
+  std::vector<double> dMax(nMax), vMax(nMax), aMax(nMax);
   double velL2 = -1.0, accL2 = -1.0;
-  double disL2 = model.solutionNorms(newSol.front(), dMax, iMax, nf);
-  if (newSol.size() > 1) velL2 = model.solutionNorms(newSol[1], vMax, jMax, nf);
-  if (newSol.size() > 2) accL2 = model.solutionNorms(newSol[2], aMax, kMax, nf);
+  double disL2 = model.solutionNorms(newSol.front(),
+                                     dMax.data(), iMax.data(), nf);
+  if (newSol.size() > 1)
+    velL2 = model.solutionNorms(newSol[1], vMax.data(), jMax.data(), nf);
+  if (newSol.size() > 2)
+    accL2 = model.solutionNorms(newSol[2], aMax.data(), kMax.data(), nf);
 
   utl::LogStream& cout = model.getProcessAdm().cout;
   std::streamsize stdPrec = outPrec > 0 ? cout.precision(outPrec) : 0;
-- 
2.43.0


From d20d78fabe769541ac4ea1760a74868ccc2f111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:28 +0000
Subject: [PATCH 182/190] fix: initial conditions from different geometry
 levels of the same result file

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index ac33b03..2391427 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1751,9 +1751,9 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
     if (!adm.dd.isPartitioned() || adm.getProcId() == 0) {
       // Load basis
       CharVec nf(1,this->getNoFields(it.basis));
-      PatchVec& basisVec = basisMap[it.file_basis];
       std::stringstream str;
       str << it.geo_level << "/" << it.file_basis << "/basis";
+      PatchVec& basisVec = basisMap[str.str()];
       int nPatches = hdf5reader.getFieldSize(str.str());
       if (basisVec.empty())
         for (int i = 0; i < nPatches; i++)
-- 
2.43.0


From a5511ce37333c97ddc6bc6a7c1f3555c22a18e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:21 +0000
Subject: [PATCH 183/190] fix: moment resultants of cross sections not aligned
 with the global axes

---
 src/ASM/DualField.C | 6 ++++++
 src/ASM/DualField.h | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ASM/DualField.C b/src/ASM/DualField.C
index 8475b95..c3fdba1 100644
--- a/src/ASM/DualField.C
+++ b/src/ASM/DualField.C
@@ -57,6 +57,12 @@ DualRealFunc::DualRealFunc (const utl::Point& o, const Vec3Pair& d, ASMbase* p,
 }
 
 
+double DualRealFunc::ecc (const Vec3& X, int i) const
+{
+  return (X-X0)*(i == 1 ? normal : (i == 2 ? tangent : this->z()));
+}
+
+
 bool DualRealFunc::initPatch (size_t idx)
 {
   if (!patch)
diff --git a/src/ASM/DualField.h b/src/ASM/DualField.h
index ad8b450..f6c5df7 100644
--- a/src/ASM/DualField.h
+++ b/src/ASM/DualField.h
@@ -73,8 +73,9 @@ public:
   //! \brief Returns the local Z (2nd tangent) direction of the cross section.
   Vec3 z() const { return Vec3(normal,tangent); }
 
-  //! \brief Returns the offset from the cross section origin \ b X0.
-  double ecc(const Vec3& X, int i) const { return X(i) - X0(i); }
+  //! \brief Returns the offset from the cross section origin \b X0
+  //! in the local direction \a i of the cross section.
+  double ecc(const Vec3& X, int i) const;
   //! \brief Returns the function value at the given point.
   //! \param[in] X Spatial evaluation point
   //! \param[in] ignoreDomain If \e true, the function is evaluated without
-- 
2.43.0


From 8119dd7bca65e71a0026f7fbc2416590877686ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:21 +0000
Subject: [PATCH 184/190] fix: crash when specifying a dual cross section
 function in a 1D model

---
 src/SIM/SIMinput.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 2391427..195c3a4 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -868,6 +868,12 @@ FunctionBase* SIMinput::parseDualTag (const tinyxml2::XMLElement* elem,
     else
       extrFunc.push_back(new DualVecFunc(comp,X0,normal,XZp,depth,width,pch));
   }
+  else
+  {
+    std::cerr <<" *** SIMinput::parseDualTag: Cross sections are only available"
+              <<" in 2D and 3D."<< std::endl;
+    return nullptr;
+  }
 
   double weight = 0.0;
   utl::getAttribute(elem,"weight",weight);
-- 
2.43.0


From 089f13d1ea9039d201103621deec55324986a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:37 +0000
Subject: [PATCH 185/190] fix: crash in subdomain partitioning when nothing is
 left for the last subdomain

---
 src/ASM/DomainDecomposition.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 8e2735c..a69b7c6 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -352,7 +352,7 @@ DomainDecomposition::calcSubdomains1D (size_t nel1, size_t g1, size_t overlap)
     size_t ofs1 = 0;
     for (size_t gu = 0; gu < g1; ++gu) {
       if (gu == g1 - 1)
-        nel1_sub = nel1 - ofs1;
+        nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
       subdomains[gu].reserve(nel1_sub);
       for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
         subdomains[gu].push_back(ofs1 + i);
@@ -384,12 +384,12 @@ DomainDecomposition::calcSubdomains2D (size_t nel1, size_t nel2,
     size_t ofs2 = 0;
     for (size_t gv = 0; gv < g2; ++gv) {
       if (gv == g2 - 1)
-        nel2_sub = nel2 - ofs2;
+        nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
       size_t nel1_sub = floor(double(nel1)/g1 + 1);
       size_t ofs1 = 0;
       for (size_t gu = 0; gu < g1; ++gu, ++g) {
         if (gu == g1 - 1)
-          nel1_sub = nel1-ofs1;
+          nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
 
         subdomains[g].reserve(nel1_sub*nel2_sub);
         for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
@@ -426,17 +426,17 @@ DomainDecomposition::calcSubdomains3D (size_t nel1, size_t nel2, size_t nel3,
     size_t nel3_sub = floor(double(nel3)/g3+1);
     for (size_t gw = 0; gw < g3; ++gw) {
       if (gw == g3 - 1)
-        nel3_sub = nel3-ofs3;
+        nel3_sub = nel3 > ofs3 ? nel3 - ofs3 : 0;
       size_t ofs2 = 0;
       size_t nel2_sub = floor(double(nel2)/g2+1);
       for (size_t gv = 0; gv < g2; ++gv) {
         if (gv == g2 - 1)
-          nel2_sub = nel2-ofs2;
+          nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
         size_t ofs1 = 0;
         size_t nel1_sub = floor(double(nel1)/g1+1);
         for (size_t gu = 0; gu < g1; ++gu, ++g) {
           if (gu == g1 - 1)
-            nel1_sub = nel1-ofs1;
+            nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
           subdomains[g].reserve(nel1_sub*nel2_sub*nel3_sub);
           for (size_t k = 0; k < nel3_sub && ofs3 + k < nel3; ++k)
             for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
-- 
2.43.0


From b079548136d0533c8b063159c8e8856795f634b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:37 +0000
Subject: [PATCH 186/190] fix: Schwarz subdomains of equation blocks defined by
 solution components

---
 src/ASM/DomainDecomposition.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index a69b7c6..662aeb0 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -306,7 +306,8 @@ DomainDecomposition::getSubdomains (int nx, int ny, int nz,
               for (int eqn : eqns) {
                 if (eqn > 0) {
                   auto geq = blocks[block+1].G2LEQ.find(eqn);
-                  result[d].insert(geq->second);
+                  if (geq != blocks[block+1].G2LEQ.end())
+                    result[d].insert(geq->second);
                 }
               }
             }
-- 
2.43.0


From 522816db41e8fc3337078c25ee20cf666c794839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:15 +0000
Subject: [PATCH 187/190] fix: crash in the Schwarz preconditioners when a
 subdomain has no equations

---
 src/LinAlg/ISTLSolParams.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LinAlg/ISTLSolParams.C b/src/LinAlg/ISTLSolParams.C
index a5582a3..212cc55 100644
--- a/src/LinAlg/ISTLSolParams.C
+++ b/src/LinAlg/ISTLSolParams.C
@@ -21,6 +21,8 @@
 #include <dune/istl/paamg/fastamg.hh>
 #include <dune/istl/paamg/twolevelmethod.hh>
 
+#include <algorithm>
+
 
 namespace ISTL {
 
@@ -417,6 +419,9 @@ ISTL::Preconditioner* ISTLSolParams::setupPCInternal(ISTL::Mat& A,
     nz = std::max(1ul, nz);
     int overlap = solParams.getBlock(block).getIntValue("asm_overlap");
     auto locSubdDofs = adm.dd.getSubdomains(nx, ny, nz, overlap, block);
+    locSubdDofs.erase(std::remove_if(locSubdDofs.begin(), locSubdDofs.end(),
+                                     [](const auto& eqs) { return eqs.empty(); }),
+                      locSubdDofs.end());
 
     if (prec == "asmlu") {
       ISTL::ASMLU::subdomain_vector ddofs(locSubdDofs.size());
-- 
2.43.0


From 6f07d599bce5db6ddb22133e608c0c5bdb028f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:49 +0000
Subject: [PATCH 188/190] fix: wrong prescribed values and missing tangent when
 iterating on linear problems

---
 src/SIM/NonLinSIM.C | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index d697c97..f1f4659 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -302,12 +302,18 @@ SIM::ConvStatus NonLinSIM::solveStep (TimeStep& param,
 
 SIM::ConvStatus NonLinSIM::solveIteration (TimeStep& param)
 {
-  if (param.iter == 0 && !model.updateDirichlet(param.time.t,&solution.front()))
-    return SIM::FAILURE;
+  if (param.iter == 0 || iteNorm <= NONE)
+  {
+    if (fromIni) // Always solve from initial configuration
+      solution.front().fill(0.0);
+
+    if (!model.updateDirichlet(param.time.t,&solution.front()))
+      return SIM::FAILURE;
+  }
   else if (param.iter == 1 && !model.updateDirichlet())
     return SIM::FAILURE;
 
-  bool newTangent = param.iter <= nupdat;
+  bool newTangent = param.iter <= nupdat || iteNorm == NONE_UPTAN;
   model.setMode(newTangent ? SIM::STATIC : SIM::RHS_ONLY, false);
   if (!this->assembleSystem(param.time,solution,newTangent))
     return SIM::FAILURE;
-- 
2.43.0


From 7d3100d0735d75dab0269d1913a08a5c97fd16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:14 +0000
Subject: [PATCH 189/190] fix: the duplicated nodes field must refer to the
 renumbered nodes

---
 src/SIM/SIMbase.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 9e611b1..e9c9749 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -560,6 +560,12 @@ int SIMbase::renumberNodes (bool renumMNPC)
   for (ASMbase* pch : myModel)
     ok &= pch->renumberNodes(*g2l, myLoc2Glb, renumMNPC ? -1 : 0, &myDegenElm);
 
+  std::set<int> dupNodes;
+  for (int node : myDupNodes)
+    if (std::map<int,int>::const_iterator it = g2l->find(node); it != g2l->end())
+      dupNodes.insert(it->second);
+  myDupNodes.swap(dupNodes);
+
   return ok ? ngnod : -ngnod;
 }
 
-- 
2.43.0


From b98dec8d6eec03ad71fcfe812e51f2daf0558472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:09 +0000
Subject: [PATCH 190/190] fix: skip inactive patches in all field output to
 VTF, like in the geometry output

---
 src/SIM/SIMoutput.C | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 1836c11..17d35de 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -992,8 +992,8 @@ bool SIMoutput::writeGlvV (const RealArray& vec, const char* fieldName,
   {
     if (!this->extractNodeVec(vec,lovec,pch,ncmp,empty))
       return false;
-    else if (pch->empty())
-      continue; // skip empty patches
+    else if (pch->empty() || pch->inActive())
+      continue; // skip empty and inactive patches
 
     if (msgLevel > 1)
       IFEM::cout <<"Writing vector field for patch "<< pch->idx+1 << std::endl;
@@ -1035,8 +1035,8 @@ bool SIMoutput::writeGlvS (const Vector& scl, const char* fieldName,
   int geomID = myGeomID;
   for (const ASMbase* pch : myModel)
   {
-    if (pch->empty())
-      continue; // skip empty patches
+    if (pch->empty() || pch->inActive())
+      continue; // skip empty and inactive patches
 
     int ncmp = scl.size() / this->getNoNodes(basis);
     this->extractPatchSolution(scl,lovec,pch,ncmp,basis);
@@ -1686,8 +1686,8 @@ bool SIMoutput::writeGlvF (const RealFunc& f, const char* fname,
   {
     if (state && !this->extractNodeVec(*state,lovec,pch,0,empty))
       return false;
-    else if (pch->empty())
-      continue; // skip empty patches
+    else if (pch->empty() || pch->inActive())
+      continue; // skip empty and inactive patches
 
     ++geomID;
     if (patch && pch != patch) continue; // skip all except patch
@@ -1751,8 +1751,8 @@ bool SIMoutput::writeGlvM (const Mode& mode, bool freq, int& nBlock)
   {
     if (!this->extractNodeVec(mode.eigVec,displ,pch,0,empty))
       return false;
-    else if (pch->empty())
-      continue; // skip empty patches
+    else if (pch->empty() || pch->inActive())
+      continue; // skip empty and inactive patches
 
     if (myModel.size() > 2 && msgLevel > 1)
       IFEM::cout <<"."<< std::flush;
@@ -1968,7 +1968,9 @@ bool SIMoutput::writeGlvE (const Vector& field, int iStep, int& nBlock,
     if (pch->empty())
       continue; // skip empty patches
 
-    ++geomID;
+    const bool hasGeometry = !pch->inActive();
+    if (hasGeometry) ++geomID;
+
     if (!field.empty())
     {
       pch->extractElmRes(field,lVec,firstIndex);
@@ -1980,6 +1982,9 @@ bool SIMoutput::writeGlvE (const Vector& field, int iStep, int& nBlock,
       }
     }
 
+    if (!hasGeometry)
+      continue; // skip inactive patches
+
     if (msgLevel > 1)
       IFEM::cout <<"Writing element field '"<< name <<"' for patch "
                  << pch->idx+1 << std::endl;
-- 
2.43.0

