From 1ed227b62ae18bb3d8bccceed95179fcb3b99de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 01/26] fix: initialise the state of LinearSolver

check_error, save_errs and the convergence state were read without ever having
been assigned. The error is only compared to the tolerance if it is computed.
---
 src/base/solve/LinearSolver.cpp |  2 +-
 src/base/solve/LinearSolver.hpp | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/solve/LinearSolver.cpp b/src/base/solve/LinearSolver.cpp
index cbf0e1c..9c8b729 100644
--- a/src/base/solve/LinearSolver.cpp
+++ b/src/base/solve/LinearSolver.cpp
@@ -96,7 +96,7 @@ void LinearSolver :: Solve (BaseVector &x, const BaseVector &b, BaseVector &res,
     if (master && print)
       { do_output(); }
 
-    if (check_error)
+    if (check_err)
       { converged = ( curr_err < rtol * init_err ); }
   }
 
diff --git a/src/base/solve/LinearSolver.hpp b/src/base/solve/LinearSolver.hpp
index a5d5ac3..1c816db 100644
--- a/src/base/solve/LinearSolver.hpp
+++ b/src/base/solve/LinearSolver.hpp
@@ -37,20 +37,20 @@ protected:
   shared_ptr<BaseMatrix> A;
 
   int max_steps;    // max. number of steps to do on this level
-  bool check_error; // do we even check for error
+  bool check_error = true; // do we even check for error
   double rtol;      // (relative) error tolerance
   bool print;       // write output
-  bool save_errs;   // do we save the errors
+  bool save_errs = false; // do we save the errors
   string prefix;    // output prefix to make it more readable
 
-  double init_err;  // initial error
-  double curr_err;  // current error
-  int curr_iter;    // current iteration
+  double init_err = -1.0; // initial error
+  double curr_err = -1.0; // current error
+  int curr_iter = -1; // current iteration
 
   shared_ptr<BaseVector> work_res, work_x;
 
-  bool converged;
-  int needed_steps;
+  bool converged = false;
+  int needed_steps = -1;
   Array<double> errors;
 
 public:
-- 
2.43.0


From 932b8c6cd1b5512ad4361215763d9e6278011500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 02/26] fix: enter the collective part of Logger::PrintToFile
 on all ranks

With log level EXTRA, Logger::Finalize reduces over the communicator, but only
rank 0 reached it when the log was written to a file.
---
 src/base/factory/base_factory.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index aaa27f7..60d841e 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -192,10 +192,11 @@ void BaseAMGFactory::Logger::PrintLog (ostream & out)
 
 void BaseAMGFactory::Logger::PrintToFile (string file_name)
 {
-  if (comm.Rank() == 0) {
-    ofstream out(file_name, ios::out);
-    PrintLog(out);
-  }
+  // PrintLog is collective, only rank 0 writes
+  ofstream out;
+  if (comm.Rank() == 0)
+    { out.open(file_name, ios::out); }
+  PrintLog(out);
 } // Logger::PrintToFile
 
 /** END Logger **/
-- 
2.43.0


From 6a6a35d465bb0e983c55c39023a376cfe5a23340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 03/26] fix: leave AMGMatrix::GetBF on all ranks when the input
 is rejected

---
 src/base/solve/amg_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..307d08d 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -477,8 +477,8 @@ namespace amg
           case(5) : { cerr << "global DOFs on level " << level << " < " << dof << endl; break; }
           default : { break; }
           }
-          return;
         }
+        return;
       }
     }
 
-- 
2.43.0


From 6cb0749911f2e636db0289ff6216d023a8b758f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 04/26] fix: AMGMatrix::GetBF accepted indices one past the end

---
 src/base/solve/amg_matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index 307d08d..9659242 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -453,16 +453,16 @@ namespace amg
 
     { // Check if input is OK
       int input_notok = 0;
-      if ( (arank < 0) || (arank > gcomm.Size()) )
+      if ( (arank < 0) || (arank >= gcomm.Size()) )
       	{ input_notok = 1; }
-      if ( have_lev && (comp > lev_bs) )
+      if ( have_lev && ( (comp < 0) || (comp >= lev_bs) ) )
 	      { input_notok = 2; }
       if ( (gcomm.Rank() == arank) && (!have_lev) ) // e.g contracted out
 	      { input_notok = 3; }
       if (have_lev) {
-        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof > lev_uDofs.GetND()) )
+        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof >= lev_uDofs.GetND()) )
           { input_notok = 4; }
-        if ( (arank == 0) && (dof > lev_uDofs.GetNDGlob()) )
+        if ( (arank == 0) && (dof >= lev_uDofs.GetNDGlob()) )
           { input_notok = 5; }
       }
       input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
-- 
2.43.0


From 3c28b93d6873730afa1dd9c2ca98ed5b22cdd794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 05/26] fix: sparse matrix sends must not move buffers of
 messages in flight

NgsAMG_Comm::ISend(SparseMatrixTM) appended the width to an array whose earlier
entries could still be in the process of being sent.
---
 src/base/distributed/mpiwrap_extension.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index cf87fa6..9640318 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -1,6 +1,8 @@
 #ifndef FILE_MPIWRAP_EXTENSION
 #define FILE_MPIWRAP_EXTENSION
 
+#include <list>
+
 #include <base.hpp>
 
 namespace amg
@@ -125,10 +127,10 @@ Bcast(tab.AsArray(), root);
 
 private:
   INLINE Timer<TTracing, TTiming>& thack_isend_spm () const { static Timer t("ISend SPM"); return t; }
-  mutable Array<size_t> hacky_w_buffer;
+  mutable std::list<size_t> hacky_w_buffer; // entries must not move while they are being sent
 public:
   void cleanup_hacky_w_buffer ()
-  { hacky_w_buffer = Array<size_t>(0); }
+  { hacky_w_buffer.clear(); }
   template<typename T, typename T2 = decltype(GetMPIType<T>())>
   NG_MPI_Request ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag) const {
 #ifdef PARALLEL
@@ -137,8 +139,8 @@ public:
     RegionTimer rt(thack_isend_spm());
     size_t H = spm.Height(); // size_t W = spm.Width();
     // if (H != W) throw Exception("cant rly deal with H!=W ISend"); // need to send W, need temporary mem
-    hacky_w_buffer.Append(spm.Width());
-    auto& W = hacky_w_buffer.Last();
+    hacky_w_buffer.push_back(spm.Width());
+    auto& W = hacky_w_buffer.back();
     NG_MPI_Request req = ISend (W, dest, tag);
     NG_MPI_Request_free(&req);
     req = ISend (spm.GetFirstArray(), dest, tag);
-- 
2.43.0


From 7de2535b9c63ceac2127ab6f7a954bea66fa92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 06/26] fix: SpecOpt copy constructor must take over the
 default option

---
 src/base/utils/SpecOpt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..2890ac4 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -23,7 +23,7 @@ public:
   SpecOpt (OC _default_opt) : default_opt(_default_opt), spec_opt(0) { ; }
   SpecOpt (OC _default_opt, Array<OC> & _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
   SpecOpt (OC _default_opt, Array<OC> _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
-  SpecOpt (const SpecOpt<OC> & other) : default_opt(default_opt), spec_opt(other.spec_opt) { ; }
+  SpecOpt (const SpecOpt<OC> & other) : default_opt(other.default_opt), spec_opt(other.spec_opt) { ; }
   SpecOpt (SpecOpt<OC> && other) : default_opt(other.default_opt), spec_opt(move(other.spec_opt)) { ; }
   SpecOpt (const Flags & flags, OC defopt, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
     : SpecOpt(defopt)
-- 
2.43.0


From c085b4f7555bc144236d0c6c2d454ca2b14d37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 07/26] fix: comparison of Stokes edge data must not assign

---
 src/stokes/hdiv/hdiv_stokes_mesh.hpp | 2 +-
 src/stokes/ncfes/nc_stokes_mesh.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stokes/hdiv/hdiv_stokes_mesh.hpp b/src/stokes/hdiv/hdiv_stokes_mesh.hpp
index 6052697..5cc5c45 100644
--- a/src/stokes/hdiv/hdiv_stokes_mesh.hpp
+++ b/src/stokes/hdiv/hdiv_stokes_mesh.hpp
@@ -36,7 +36,7 @@ struct HDivStokesEData
   INLINE void operator = (double x) { edi = x; edj = x; flow = x; }
   INLINE void operator = (const HDivStokesEData<DIM, MAX_DOFS, TED> & other) { edi = other.edi; edj = other.edj; flow = other.flow; }
   INLINE void operator += (const HDivStokesEData<DIM, MAX_DOFS, TED> & other) { edi += other.edi; edj += other.edj; flow += other.flow; }
-  INLINE void operator == (const HDivStokesEData<DIM, MAX_DOFS, TED> & other) { return (edi == other.edi) && (edj == other.edj) && (flow = other.flow); }
+  INLINE bool operator == (const HDivStokesEData<DIM, MAX_DOFS, TED> & other) { return (edi == other.edi) && (edj == other.edj) && (flow == other.flow); }
 }; // struct HDivStokesEData
 
 template<int DIM, int MAX_DOFS, class TED>
diff --git a/src/stokes/ncfes/nc_stokes_mesh.hpp b/src/stokes/ncfes/nc_stokes_mesh.hpp
index ea5c395..6d307f8 100644
--- a/src/stokes/ncfes/nc_stokes_mesh.hpp
+++ b/src/stokes/ncfes/nc_stokes_mesh.hpp
@@ -36,7 +36,7 @@ struct StokesEData
   INLINE void operator = (double x) { edi = x; edj = x; flow = x; }
   INLINE void operator = (const StokesEData<DIM, BS, TED> & other) { edi = other.edi; edj = other.edj; flow = other.flow; }
   INLINE void operator += (const StokesEData<DIM, BS, TED> & other) { edi += other.edi; edj += other.edj; flow += other.flow; }
-  INLINE void operator == (const StokesEData<DIM, BS, TED> & other) { return (edi == other.edi) && (edj == other.edj) && (flow = other.flow); }
+  INLINE bool operator == (const StokesEData<DIM, BS, TED> & other) { return (edi == other.edi) && (edj == other.edj) && (flow == other.flow); }
 }; // struct StokesEData
 
 template<int DIM, int BS, class TED>
-- 
2.43.0


From 817469ce75e14a90615fce41ea1c6f0799327d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 08/26] fix: hold the mutex wherever BackgroundMPIThread state
 is used

---
 src/base/smoothers/hybrid_base_smoother.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..d9d1bda 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -26,16 +26,23 @@ public:
     t = make_unique<std::thread>([this](){ this->thread_fpf(); });
   } // BackgroundMPIThread (..)
 
-  ~BackgroundMPIThread () { thread_ready = true; end_thread = true; cv.notify_one(); t->join(); }
+  ~BackgroundMPIThread ()
+  {
+    {
+      std::lock_guard<std::mutex> lk(glob_mut);
+      thread_ready = true; end_thread = true;
+    }
+    cv.notify_one(); t->join();
+  }
 
   void thread_fpf () {
 #ifdef USE_TAU
     TAU_REGISTER_THREAD();
     TAU_PROFILE_SET_NODE(NgMPI_Comm(NG_MPI_COMM_WORLD).Rank());
 #endif
-    while( !end_thread ) {
 // cout << "--- ulock" << endl;
-std::unique_lock<std::mutex> lk(glob_mut);
+    std::unique_lock<std::mutex> lk(glob_mut);
+    while( !end_thread ) {
 // cout << "--- wait" << endl;
 cv.wait(lk, [&](){ return thread_ready; });
 // cout << "--- woke up,  " << thread_ready << " " << thread_done << " " << end_thread << endl;
-- 
2.43.0


From 9f0eb8ffa12d069e7904abce9f7d6c4b990e2be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 09/26] fix: x is not zero anymore after the range smoother of
 HiptMairSmoother::SmoothBack

---
 src/base/smoothers/base_smoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..348d937 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -292,6 +292,8 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
     RegionTimer rt(tr);
 
     smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From 6d22ea8a9ae37f8f809daa6c5551843685c0057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 10/26] fix: HybridDISmoother must correct x and keep the
 residual up to date

---
 src/base/smoothers/hybrid_smoother.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index 1b9cc4b..c53f82a 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -290,9 +290,12 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  if (stage == SMOOTH_STAGE::EX_PART)
   {
-    x = (*loc_inv) * b;
+    // x keeps its values on rows this rank is not master of
+    res  = b;
+    res -= (*this->GetHybridA().GetM()) * x;
+    x   += (*loc_inv) * res;
   }
 } // HybridDISmoother::SmoothStageRHS
 
@@ -307,9 +310,12 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  if (stage == SMOOTH_STAGE::EX_PART)
   {
-    x += (*loc_inv) * res;
+    auto dx = x.CreateVector();
+    *dx  = (*loc_inv) * res;
+    x   += *dx;
+    res -= (*this->GetHybridA().GetM()) * *dx;
   }
 } // HybridDISmoother::SmoothStageRes
 
-- 
2.43.0


From 33a35d7088e44f23ad322209fc4d5789b60b2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 11/26] fix: HybridDISmoother passed its options to the wrong
 base class parameters

---
 src/base/smoothers/hybrid_smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index c53f82a..2658fe7 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -236,7 +236,7 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
                   shared_ptr<BitArray> _freedofs,
                   bool overlap,
                   bool NG_MPI_thread)
-  : HybridSmoother<TM>(_A, overlap, NG_MPI_thread, 1)
+  : HybridSmoother<TM>(_A, 1, NG_MPI_thread, overlap)
 {
   Array<TM> mod_diag = this->CalcModDiag(nullptr);
 
-- 
2.43.0


From 41eb193e0fdf2476a01b0a3f276a4423baeaec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 12/26] fix: HybridGSSmoother passed its options to the wrong
 base class parameters

---
 src/base/smoothers/gssmoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..7e1abc2 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -609,7 +609,7 @@ HybridGSSmoother (shared_ptr<BaseMatrix> _A,
                   bool _in_thread,
                   bool _symm_loc,
                   int _nsteps_loc)
-  : HybridSmoother<TM>(_A, _overlap, _in_thread, _nsteps_loc)
+  : HybridSmoother<TM>(_A, _nsteps_loc, _in_thread, _overlap)
   , subset(_subset)
   , pinv(_pinv)
   , symm_loc(_symm_loc)
-- 
2.43.0


From c76871aff180d0028149e636cd6a90315c66a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 13/26] fix: ToSparseMatrix ignored the tolerance it was given

---
 src/base/utils/python_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/python_utils.cpp b/src/base/utils/python_utils.cpp
index bdc8d16..f4ab64b 100644
--- a/src/base/utils/python_utils.cpp
+++ b/src/base/utils/python_utils.cpp
@@ -42,7 +42,7 @@ void ExportUtils (py::module &m)
     auto spA = BaseMatrixToSparse(A);
     if (compress)
     {
-      spA = CompressAGeneric(spA);
+      spA = CompressAGeneric(spA, compressTol);
     }
     return spA;
   },
-- 
2.43.0


From f42eb84a92db475c19550dfd6ebd741ca9bfbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 14/26] fix: option aaf_scale was read under a misspelled key

---
 src/base/factory/base_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index 60d841e..f725216 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -29,7 +29,7 @@ void BaseAMGFactory::Options::SetFromFlags (const Flags & flags, string prefix)
 
   set_num(aaf, "aaf");
   set_num(first_aaf, "first_aaf");
-  set_num(aaf_scale, "aafaaf_scale");
+  set_num(aaf_scale, "aaf_scale");
 
   set_bool(enable_redist, "enable_redist");
   set_num(rdaf, "rdaf");
-- 
2.43.0


From a8498c8567212164f84256c47c3617fb0217b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 15/26] fix: Stokes preconditioners dropped weight_mat when set
 up from a BilinearForm

---
 src/stokes/common/python_stokes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stokes/common/python_stokes.hpp b/src/stokes/common/python_stokes.hpp
index c6a026a..ffd8da8 100644
--- a/src/stokes/common/python_stokes.hpp
+++ b/src/stokes/common/python_stokes.hpp
@@ -16,7 +16,7 @@ INLINE void ExportStokesAMGClass(py::module &m, string name, string desc, LAM la
                               shared_ptr<BaseMatrix> wmat,
                               py::kwargs kwargs) {
         auto flags = CreateFlagsFromKwArgs(kwargs, py::none());
-        return make_shared<STOKES_PC>(bfa, flags, "noname-pre", nullptr);
+        return make_shared<STOKES_PC>(bfa, flags, "noname-pre", nullptr, wmat);
       }),
       py::arg("blf"),
       py::arg("weight_mat")=nullptr
-- 
2.43.0


From 2c9f219f0331610d8ef6fcbe0fd908ad1475135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 16/26] fix: check_aux_mats of the finest level decided for all
 levels

---
 src/base/factory/vertex_factory_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..82e70b9 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -611,7 +611,7 @@ MapLevel (FlatArray<shared_ptr<BaseDOFMapStep>> dofSteps,
 {
   auto & O = static_cast<Options&>(*options);
 
-  if ( O.check_aux_mats.GetOpt(0) )
+  if ( O.check_aux_mats.GetOpt(fLev->level) )
   {
     shared_ptr<BaseMatrix> A    = nullptr;
     shared_ptr<BaseMatrix> Ahat = nullptr;
-- 
2.43.0


From 01dc2118760dd333bd20a7f4f3cfd6f33a48d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 17/26] fix: smoothing backward with several local steps was
 not the adjoint of smoothing forward

---
 src/base/smoothers/hybrid_base_smoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index d9d1bda..7ce079a 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -560,9 +560,9 @@ CallStageKernelsImpl(BaseVector       &x,
 
     xZero = false; // cannot use x ZIG any more from this point on
 
-    callSM(EX_PART);
-
     callSM(P1);
+
+    callSM(EX_PART);
   }
 
   /**
-- 
2.43.0


From e267822b26504752e8af4a47567ca5ce210c39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 18/26] fix: symm_loc smoothers smoothed B,FB,F instead of
 F,FB,B when run backward

---
 src/base/smoothers/block_gssmoother.cpp | 24 ++++++++++++++++++------
 src/base/smoothers/gssmoother.cpp       | 10 ++++++++--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 2b4f7ac..fe24f0a 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -704,8 +704,11 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
     if ( symm_loc )
     {
       // SYMM:      F,-,F / -,FB,- / B,-,B
-      
-      switch(stage)
+      //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+      auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                               ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
+
+      switch(symmStage)
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -772,8 +775,11 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
     if ( symm_loc )
     {
       // SYMM:      F,-,F / -,FB,- / B,-,B
-      
-      switch(stage)
+      //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+      auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                               ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
+
+      switch(symmStage)
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -823,8 +829,11 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
     if ( symm_loc )
     {
       // SYMM:      F,-,F / -,FB,- / B,-,B
+      //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+      auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                               ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
 
-      switch(stage)
+      switch(symmStage)
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -872,8 +881,11 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
     if ( symm_loc )
     {
       // SYMM:      F,-,F / -,FB,- / B,-,B
+      //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+      auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                               ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
 
-      switch(stage)
+      switch(symmStage)
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 7e1abc2..517239f 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -721,8 +721,11 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
   if ( symm_loc )
   {
     // SYMM:      F,-,F / -,FB,- / B,-,B
+    //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+    auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                             ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
 
-    switch(stage)
+    switch(symmStage)
     {
       case(SMOOTH_STAGE::LOC_PART_1):
       {
@@ -800,8 +803,11 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
   if ( symm_loc )
   {
     // SYMM:      F,-,F / -,FB,- / B,-,B
+    //            backward runs the parts in reverse order, it also has to smooth F with the first and B with the last
+    auto const symmStage = ( direction == FORWARD || stage == SMOOTH_STAGE::EX_PART ) ? stage :
+                             ( stage == SMOOTH_STAGE::LOC_PART_1 ) ? SMOOTH_STAGE::LOC_PART_2 : SMOOTH_STAGE::LOC_PART_1;
 
-    switch(stage)
+    switch(symmStage)
     {
       case(SMOOTH_STAGE::LOC_PART_1):
       {
-- 
2.43.0


From 9c0fc40f9f3812544c6562f32ca3b44cff409269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 19/26] fix: HiptMairSmoother without DT overwrote D by its
 transpose

---
 src/base/smoothers/python_smoothers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/python_smoothers.cpp b/src/base/smoothers/python_smoothers.cpp
index 29db025..3450182 100644
--- a/src/base/smoothers/python_smoothers.cpp
+++ b/src/base/smoothers/python_smoothers.cpp
@@ -130,7 +130,7 @@ void ExportSmoothers (py::module & m)
           shared_ptr<BaseMatrix> pot_mat, shared_ptr<BaseMatrix> range_mat,
           shared_ptr<BaseMatrix> D, shared_ptr<BaseMatrix> DT) {
           if (DT == nullptr)
-            { D = make_shared<Transpose>(D); }
+            { DT = make_shared<Transpose>(D); }
           return make_shared<HiptMairSmoother>(pot_smoother, range_smoother, pot_mat, range_mat, D, DT);
         }),
         py::arg("pot_smoother"),
-- 
2.43.0


From 4ab799878fd72ebe110075007d93a3863c5e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 20/26] fix: HybridBaseSmoother: distribute the residual before
 its local part is updated

---
 src/base/smoothers/hybrid_base_smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index 7ce079a..17902c2 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -326,7 +326,7 @@ SmoothImplRES (BaseVector       &x,
 
   // most of the time status is correct here and this is a noop
   x.Cumulate();
-  // res.Distribute(); // no! can use it if cumulated (so basically never)
+  res.Distribute();
 
   gx.SetParallelStatus(DISTRIBUTED);
 
-- 
2.43.0


From 6f4cbc7ea283c9beb72a374d95b1828647d4d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 21/26] fix: GSS4 took the diagonal from the row number inside
 the subset instead of the dof

---
 src/base/smoothers/gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 517239f..f00a2fb 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -428,7 +428,7 @@ GSS4<TM> :: GSS4 (shared_ptr<SparseMatrix<TM>> A, FlatArray<TM> repl_diag, share
       if (repl_diag.Size())
         { dinv[i] = repl_diag[xdofs[i]]; }
       else
-        { dinv[i] = ncA(i, i); } // yeah, that is correct
+        { dinv[i] = ncA(i, xdofs[i]); } // rows are compressed, columns are not
       if (pinv)
         { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
       else
@@ -517,7 +517,7 @@ void GSS4<TM> :: CalcDiags ()
   ParallelForRange (IntRange(dinv.Size()), [&] ( IntRange r ) {
 LocalHeap lh = glh.Split();
 for (auto i : r) {
-  dinv[i] = ncA(i, i);
+  dinv[i] = ncA(i, xdofs[i]);
   if (pinv)
     { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
   else
-- 
2.43.0


From 2f829e16c3f47c6743934c3d4093c69e932404a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 22/26] fix: BSmoother2: residual updates of single blocks take
 the transposed entries of their own row

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..6c69aac 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -373,8 +373,8 @@ namespace amg
       { bigres(dnr) = 0.0; }
     // res -= L x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
-- 
2.43.0


From 64ec39486f75fa62074785ff403529bd66a92ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 23/26] fix: BSmoother2 without overlap: zero start used the
 sweep of the wrong direction, update was not initialised

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 6c69aac..1502be9 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -719,8 +719,9 @@ namespace amg
       if (update_res)
       { // writes res-A*update = b-Ax_new into "res" vector
         *myresb = res;
-        // for omega!=1, need to zero out update-vec
+        // rows that are in no block have no update; also needed for omega != 1,
         //   even then, not really sure this works?
+        *update = 0;
         if (symm)
           { Smooth_SYMM_CR(groups, *update, *myresb, res, steps, true); }
         else
@@ -763,9 +764,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From 7edd48858fb08f6abc83579139f355470463096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 24/26] fix: BSmoother2::SmoothGroups ignored the direction

---
 src/base/smoothers/loc_block_gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..a59363b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -239,9 +239,9 @@ namespace amg
   {
     RegionTimer rt(SG_thack());
     if (blocks_no)
-      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
     else
-      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
   } // BSmoother2<TM> :: SmoothGroups
 
 
-- 
2.43.0


From 05195dcfe4123a0ee2a8bbc1a2260030b58a921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 25/26] fix: BSmoother2::MultAdd_Sysmat counted rows of
 overlapping blocks more than once

---
 src/base/smoothers/loc_block_gssmoother.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index a59363b..a9006d6 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -307,9 +307,17 @@ namespace amg
 	});
     }
     else {
-      IterateBlocks(allgroups, false, [&](auto block_nr, auto & hx, auto & hy) {
-	  blocks[block_nr].MultAdd_mat(s, hx, fx, hy, fy);
+      // rows can be in more than one block but count only once
+      VVector<TV> ax(height);
+      ax.template FV<typename mat_traits<TV>::TSCAL>() = 0.0;
+      auto fax = ax.FV();
+      IterateBlocks(allgroups, false, [&](auto block_nr, auto & hxmax, auto & hymax) {
+	  int n = blocks[block_nr].dofnrs.Size();
+	  FlatVector<TV> hx = hxmax.Range(0, n);
+	  FlatVector<TV> hy = hymax.Range(0, n);
+	  blocks[block_nr].Mult_mat(hx, fx, hy, fax);
 	});
+      fy += s * fax;
     }
   } // BSmoother2::MultAdd
 
-- 
2.43.0


From 2ba602a4e9a048a5231ece81bf6dd2ffecede61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:48 +0000
Subject: [PATCH 26/26] fix: Block2SparseMatrix: column offsets, width and
 entries of the rows of the fused matrix

---
 src/base/linalg/utils_sparseLA.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..c995656 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -602,15 +602,15 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
-- 
2.43.0

