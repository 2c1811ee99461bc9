From a94dc60d099521543cc583ac6a3f9b4fce026e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:56 +0000
Subject: [PATCH 01/12] fix: reject zero and restart from one when searching a
 generator in FqElementTable

---
 src/fq_element_table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..fe57b39 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -63,6 +63,7 @@ FqElementTable(
     is_gen = true;
 
     this->fq_elements.clear();
+    fq_nmod_one(a, this->fq_ctx);
 
     auto b = new fq_nmod_struct;
     fq_nmod_init(b, this->fq_ctx);
@@ -73,7 +74,8 @@ FqElementTable(
     fq_nmod_mul(a, a, gen, this->fq_ctx);
 
     for (size_t ix=1; ix<this->prime_power_pred; ++ix) {
-      if ( fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx) ) {
+      if ( fq_nmod_is_zero(a, this->fq_ctx)
+           || fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx) ) {
         is_gen = false;
         for ( auto fq : this->fq_elements ) {
           fq_nmod_clear(fq, this->fq_ctx);
-- 
2.43.0


From c66a4ff47e870a34f03656145f28b774526bad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 02/12] fix: do not add an empty block when reading a record

---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..1a714c4 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,8 +123,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From c2939ed03677dff89688b68ce277d5576dfaec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 03/12] fix: copy the counters of Count::ValueType instead of
 sharing their limbs

---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..bac4909 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -75,6 +75,11 @@ class Count
         fmpz_set_ui(this->counter, counter);
       };
 
+      ValueType(const ValueType & other)
+      {
+        fmpz_init_set(this->counter, other.counter);
+      };
+
       ValueType(const Count & count)
       {
         fmpz_init(this->counter);
@@ -83,6 +88,12 @@ class Count
 
       ValueType(const string & str);
 
+      ValueType & operator=(const ValueType & other)
+      {
+        fmpz_set(this->counter, other.counter);
+        return *this;
+      };
+
       ~ValueType()
       {
         fmpz_clear(this->counter);
-- 
2.43.0


From 0fc80f20bfc245841367264c63044b16771f22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 04/12] fix: reduce the coefficients of a single curve modulo
 the prime

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..39083cd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -54,7 +54,7 @@ single_curve_fp(
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From fe736108e4c05ceebf9b37b3203e1cddd9d92eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 05/12] fix: do not overflow when tabulating the powers of the
 generator for primes above 65536

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 39083cd..283ec0a 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,7 +49,7 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
-- 
2.43.0


From c4f9ca5042f0f129e983ba3f9ec128fbdd1979f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:14 +0000
Subject: [PATCH 06/12] fix: accept configurations without WithMarkedPoint, as
 documented

---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From 97ff06fbd2e0ad25dfa66f3685a202764b1d495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:14 +0000
Subject: [PATCH 07/12] fix: read the parameters of a configuration as the
 unsigned numbers they are

---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0


From 6fd70c8b73e56958431428c2c926f5dfed4042b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 08/12] fix: record blocks only after their data has been
 written completely

---
 src/executables/merger.cc | 14 ++++++++---
 src/store/file_store.cc   | 49 ++++++++++++++++++++++++++++++++++++---
 src/store/file_store.hh   |  2 ++
 3 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..b3b3ac1 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -25,6 +25,8 @@
 #include <boost/program_options.hpp>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <tuple>
 #include <vector>
 
 #include "store/curve_data.hh"
@@ -156,9 +158,15 @@ merge(
     store.extract( fstream(store_file.native(), ios_base::in) );
   }
 
-  // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  stringstream record_stream, store_stream;
+  FileStore::insert(record_stream, record);
+  store.insert(store_stream);
+
+  if ( !FileStore::write( record_output_file, store_output_file,
+                          make_tuple(record_stream.str(), store_stream.str()) ) ) {
+    cerr << "could not write output files" << endl;
+    return 1;
+  }
 
   return 0;
 }
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1a714c4..fe13aad 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -21,6 +21,7 @@
 ===============================================================================*/
 
 #include <fstream>
+#include <iostream>
 #include <random>
 
 #include "store/file_store.hh"
@@ -68,9 +69,51 @@ save(
   path path_record, path_store;
   tie(path_record, path_store) = this->new_filenames();
 
-  // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  if ( !FileStore::write(path_record, path_store, record_store) )
+    cerr << "FileStore::save: could not write " << path_store
+         << "; the blocks it belongs to are not recorded" << endl;
+}
+
+bool
+FileStore::
+write(
+    const path & path_record,
+    const path & path_store,
+    const tuple<string, string> & record_store
+    )
+{
+  auto write_file = []( const path & filepath, const string & content ) {
+    fstream stream(filepath.native(), ios_base::out);
+    stream << content << flush;
+    stream.close();
+    return !stream.fail();
+  };
+
+  boost::system::error_code error;
+
+  // no record may exist while the store is incomplete
+  remove(path_record, error);
+  if ( error )
+    return false;
+
+  if ( !write_file(path_store, get<1>(record_store)) ) {
+    remove(path_store, error);
+    return false;
+  }
+
+  // save record second as a witness to successful writing; it is written
+  // elsewhere first, so that it appears only once it is complete
+  path path_tmp(path_record);
+  path_tmp += ".tmp";
+  if ( write_file(path_tmp, get<0>(record_store)) ) {
+    rename(path_tmp, path_record, error);
+    if ( !error )
+      return true;
+  }
+
+  remove(path_tmp, error);
+  remove(path_store, error);
+  return false;
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index 035bb2c..8e6183b 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -57,6 +57,8 @@ class FileStore
     }
 
     void save( tuple<string, string> record_store );
+    static bool write( const path & path_record, const path & path_store,
+                       const tuple<string, string> & record_store );
     tuple<path, path> new_filenames();
 
     inline
-- 
2.43.0


From b23c37d80fcfe2e91242bf4a8b8e21033dc6064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:45 +0000
Subject: [PATCH 09/12] fix: do not lose wake-ups of worker threads

---
 src/threaded/thread.cc | 37 ++++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..314b099 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,25 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // wait on the mutex that protects the data, so that no
+      // notification gets lost between checking them and waiting
+      unique_lock<mutex> data_lock(thread->data_mutex);
+      while ( !thread->shutting_down && thread->blocks.empty() )
+        thread->main_cond_var.wait(data_lock);
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From ab8eac8a71d0cf21df03ab5e4d6474faf16270a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:13 +0000
Subject: [PATCH 10/12] fix: pass coefficients and counts to the OpenCL kernels
 with the types and lifetime the curve has

Counting with OpenCL did not compile, and the coefficients were read by a
non-blocking write after the vector holding them had been destroyed.
---
 src/opencl/kernel_evaluation.cc | 2 +-
 src/opencl/kernel_evaluation.hh | 3 ++-
 src/opencl/kernel_reduction.cc  | 2 +-
 src/opencl/kernel_reduction.hh  | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 88050c0..1524b44 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -85,7 +85,7 @@ OpenCLKernelEvaluation(
 void
 OpenCLKernelEvaluation::
 enqueue(
-    vector<int> poly_coeff_exponents
+    const vector<unsigned int> & poly_coeff_exponents
     )
 {
   cl_int status;
diff --git a/src/opencl/kernel_evaluation.hh b/src/opencl/kernel_evaluation.hh
index 6b88f14..ff048da 100644
--- a/src/opencl/kernel_evaluation.hh
+++ b/src/opencl/kernel_evaluation.hh
@@ -40,7 +40,8 @@ class OpenCLKernelEvaluation
   public:
     OpenCLKernelEvaluation(const ReductionTable & table, unsigned int degree);
 
-    void enqueue(vector<int> poly_coeff_exponents);
+    // the coefficients must remain available until the queue has been waited for
+    void enqueue(const vector<unsigned int> & poly_coeff_exponents);
 
   private:
     unsigned int prime_power_pred;
diff --git a/src/opencl/kernel_reduction.cc b/src/opencl/kernel_reduction.cc
index 17a8106..1e35f5d 100644
--- a/src/opencl/kernel_reduction.cc
+++ b/src/opencl/kernel_reduction.cc
@@ -130,7 +130,7 @@ _reduce(
 void
 OpenCLKernelReduction::
 reduce(
-    map<unsigned int, tuple<int,int>> & nmb_points
+    map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points
     )
 {
   get<0>(nmb_points[this->prime_exponent]) +=
diff --git a/src/opencl/kernel_reduction.hh b/src/opencl/kernel_reduction.hh
index 8507c8d..841e746 100644
--- a/src/opencl/kernel_reduction.hh
+++ b/src/opencl/kernel_reduction.hh
@@ -44,7 +44,7 @@ class OpenCLKernelReduction
   public:
     OpenCLKernelReduction(const ReductionTable & table);
 
-    void reduce(map<unsigned int, tuple<int,int>> & nmb_points);
+    void reduce(map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points);
 
   private:
     unsigned int prime_exponent;
-- 
2.43.0


From b120e563ec347b4085fab91999a9fad28b5c34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:13 +0000
Subject: [PATCH 11/12] fix: create the OpenCL buffers of a reduction table
 that takes over its interface

The parameter has been moved from when it is tested.
---
 src/reduction_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduction_table.cc b/src/reduction_table.cc
index e80ebed..bfb93ef 100644
--- a/src/reduction_table.cc
+++ b/src/reduction_table.cc
@@ -52,7 +52,7 @@ ReductionTable(
 {
   this->compute_tables();
 #ifdef WITH_OPENCL
-  if ( opencl ) {
+  if ( this->opencl ) {
     this->_buffer_evaluation = make_shared<OpenCLBufferEvaluation>(*this);
     this->_kernel_reduction = make_shared<OpenCLKernelReduction>(*this);
   }
-- 
2.43.0


From d7610687acaa5decf05d4854707d3c8ab145e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:13 +0000
Subject: [PATCH 12/12] fix: end the other MPI processes when the main process
 ends early

They waited for the initialization of the worker pool forever.
---
 src/executables/mpi.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..d108cad 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -85,16 +85,20 @@ main(
 
   if ( options_map.count("help") ) {
     cerr << visible_options;
+    // the other processes wait for the initialization of the worker pool
+    mpi_environment.abort(0);
     return 0;
   }
 
   if ( !options_map.count("config-file") ) {
     cerr << "configuration file required" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
   if ( !options_map.count("output-path") ) {
     cerr << "output path required" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
@@ -102,6 +106,7 @@ main(
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
@@ -109,6 +114,7 @@ main(
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
@@ -123,6 +129,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
+      mpi_environment.abort(1);
       return 1;
     }
   }
-- 
2.43.0

