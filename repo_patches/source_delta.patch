From a5915d6cd54b46103298f1420238b5dc251f1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:28 +0000
Subject: [PATCH 01/33] fix: ipf must not reference marginals converted to
 temporary arrays

---
 src/module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..16c2b9d 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -189,7 +189,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
     const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
     const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    // must copy: ma may be a temporary (e.g. if converted from another type) that doesn't outlive this loop
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From d30c852fbe31a4c426cbeacb5650d007c2127c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:05 +0000
Subject: [PATCH 02/33] fix: read numpy arrays in any memory layout as
 row-major

---
 src/module.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index 16c2b9d..26b77e4 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,6 +20,10 @@ using namespace py::literals;
 
 namespace hl {
 
+// numpy arrays are read as contiguous row-major storage, so any other layout has to be converted on the way in
+template<typename T>
+using carray_t = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template<typename T>
 T* begin(py::array_t<T>& a)
 {
@@ -35,21 +39,21 @@ T* end(py::array_t<T>& a)
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const carray_t<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const carray_t<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,7 +75,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const carray_t<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
@@ -85,7 +89,7 @@ py::array_t<T> fromNDArray(const NDArray<T>& a)
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const carray_t<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(carray_t<double> frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const carray_t<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const carray_t<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<double> ma = mlist[i].cast<carray_t<double>>();
     indices[i] = toVector<int64_t>(ia);
     // must copy: ma may be a temporary (e.g. if converted from another type) that doesn't outlive this loop
     marginals.push_back(toNDArray<double>(ma));
@@ -219,8 +223,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -240,7 +244,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const carray_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -253,8 +257,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -325,7 +329,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::carray_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From 76c83fb97997e7b49a8527d82dfe7af3d6eb443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:36 +0000
Subject: [PATCH 03/33] fix: report failure to allocate a Sobol sequence
 instead of dereferencing null

---
 src/Sobol.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..c7a3d3e 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -2,6 +2,7 @@
 #include "Log.h"
 
 #include <limits>
+#include <new>
 #include <stdexcept>
 #include <cstdint>
 
@@ -14,6 +15,8 @@ Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) //
   }
 
   m_s = nlopt_sobol_create(dim);
+  if (!m_s)
+    throw std::bad_alloc();
   if (nSkip > 0)
     skip(nSkip);
 }
@@ -50,8 +53,11 @@ void Sobol::skip(uint32_t n)
 
 void Sobol::reset(uint32_t nSkip)
 {
+  SobolData* s = nlopt_sobol_create(m_dim);
+  if (!s)
+    throw std::bad_alloc();
   nlopt_sobol_destroy(m_s);
-  m_s = nlopt_sobol_create(m_dim);
+  m_s = s;
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From 1f611698020f6d4c80ea5ca9d4eb7486d243886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 04/33] fix: Sobol reset must not return values left over from
 before the reset

---
 src/Sobol.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index c7a3d3e..4c83550 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -58,6 +58,8 @@ void Sobol::reset(uint32_t nSkip)
     throw std::bad_alloc();
   nlopt_sobol_destroy(m_s);
   m_s = s;
+  // discard any unused values of the current point
+  m_pos = m_dim;
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From afead15e3304c5b67c673ff04a1ecbd9011afb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:47 +0000
Subject: [PATCH 05/33] fix: skipping more than 2^31 Sobol points must not
 overflow and loop forever

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..4279a7e 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -231,7 +231,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
   if (s)
   {
 	  uint32_t k = 1;
-	  while (k*2 < n) k *= 2;
+	  while ((uint64_t)k*2 < n) k *= 2;
 	  while (k-- > 0) sobol_gen(s, x);
   }
 }
-- 
2.43.0


From ce1c474baae248c5580a5ac8f720ceda9c3d740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 06/33] fix: exhausted SobolSequence must raise StopIteration

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 26b77e4..b324a44 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -148,7 +148,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From fcdebe3118676ec1cd19ed3d116c62787372ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:16 +0000
Subject: [PATCH 07/33] fix: qisi must honour the skips argument

---
 src/QISI.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..8bf6e31 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -64,13 +64,12 @@ void getIndex(const NDArray<double>& p, const std::vector<uint32_t>& r, Index& i
 
 
 QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
-: Microsynthesis(indices, marginals), m_sobolSeq(m_dim),
+: Microsynthesis(indices, marginals), m_sobolSeq(m_dim, skips),
   m_chiSq(std::numeric_limits<double>::quiet_NaN()),
   m_pValue(std::numeric_limits<double>::quiet_NaN()),
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
-  m_sobolSeq.skip(skips);
 }
 
 // control state of Sobol via arg?
@@ -101,11 +100,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From 9db4e9ea7fc173e3f1ad75d453d5fa20a95768cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 08/33] fix: reject negative or oversized skips rather than
 truncating them

---
 src/QIS.cpp      | 2 +-
 src/QISI.cpp     | 2 +-
 src/Sobol.cpp    | 9 +++++++++
 src/Sobol.h      | 3 +++
 src/rcpp_api.cpp | 2 +-
 5 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..aa930f3 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -159,7 +159,7 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
-  m_sobolSeq.skip(skips);
+  m_sobolSeq.skip(Sobol::checkedSkips(skips));
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
   computeStateValues();
diff --git a/src/QISI.cpp b/src/QISI.cpp
index 8bf6e31..008420a 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -64,7 +64,7 @@ void getIndex(const NDArray<double>& p, const std::vector<uint32_t>& r, Index& i
 
 
 QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
-: Microsynthesis(indices, marginals), m_sobolSeq(m_dim, skips),
+: Microsynthesis(indices, marginals), m_sobolSeq(m_dim, Sobol::checkedSkips(skips)),
   m_chiSq(std::numeric_limits<double>::quiet_NaN()),
   m_pValue(std::numeric_limits<double>::quiet_NaN()),
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 4c83550..08c2caa 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -64,6 +64,15 @@ void Sobol::reset(uint32_t nSkip)
     skip(nSkip);
 }
 
+uint32_t Sobol::checkedSkips(int64_t nSkip)
+{
+  if (nSkip < 0 || nSkip > std::numeric_limits<uint32_t>::max())
+  {
+    throw std::range_error("skips %% is not in valid range [0,2^32-1]"s % nSkip);
+  }
+  return static_cast<uint32_t>(nSkip);
+}
+
 uint32_t Sobol::dim() const
 {
   return m_dim;
diff --git a/src/Sobol.h b/src/Sobol.h
index 895ddf8..e62ba72 100644
--- a/src/Sobol.h
+++ b/src/Sobol.h
@@ -39,6 +39,9 @@ public:
 
   void reset(uint32_t nSkip = 0u);
 
+  // Validates a number of points to skip that originates from a wider and/or signed type
+  static uint32_t checkedSkips(int64_t nSkip);
+
   uint32_t dim() const;
 
   uint32_t min() const;
diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..46e7849 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -456,7 +456,7 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 
   NumericMatrix m(n, dim);
 
-  Sobol s(dim, skip);
+  Sobol s(dim, Sobol::checkedSkips(skip));
 
   for (int j = 0; j <n ; ++j)
     for (int i = 0; i < dim; ++i)
-- 
2.43.0


From d1220ea2db13c6aa5db785a9e0cd71e322e7d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:47 +0000
Subject: [PATCH 09/33] fix: reject marginals that repeat a dimension instead
 of looping forever

---
 src/Microsynthesis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..beb8d17 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -44,6 +44,9 @@ public:
       {
         int64_t dim = m_indices[k][j];
         int64_t size = m_marginals[k].size(j);
+        // each dimension can only appear once in a marginal
+        if (std::find(m_indices[k].begin(), m_indices[k].begin() + j, dim) != m_indices[k].begin() + j)
+          throw std::runtime_error("dimension %% is repeated in index %%"s % dim % k);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
         if (posit == dim_sizes.end())
-- 
2.43.0


From 630f2aece80639b3a34f1d198ce4a82ea0e80e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:19 +0000
Subject: [PATCH 10/33] fix: reject arrays with no dimensions, no elements or
 too many elements

---
 src/NDArray.h | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..91b0b23 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <stdexcept>
+#include <limits>
 
 #include <vector>
 #if __cplusplus <= 201703l
@@ -37,16 +38,8 @@ public:
 
   // Construct with storage managed by some other object
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
-    : m_dim(sizes.size()), m_sizes(sizes)
+    : m_dim(sizes.size()), m_sizes(sizes), m_storageSize(checkedStorageSize(sizes))
   {
-    assert(m_sizes.size());
-    m_storageSize = sizes[0];
-    assert(m_storageSize < MaxSize);
-    for (size_t i = 1; i < m_dim; ++i)
-    {
-      assert(sizes[i] < MaxSize);
-      m_storageSize *= sizes[i];
-    }
     computeOffsets();
 
     m_data = storage;
@@ -113,17 +106,12 @@ public:
   {
     if (m_owned)
     {
-      m_dim = sizes.size();
+      size_t newStorageSize = checkedStorageSize(sizes);
       size_t oldStorageSize = m_storageSize;
 
+      m_dim = sizes.size();
       m_sizes = sizes;
-      m_storageSize = sizes[0];
-      assert(m_storageSize < MaxSize);
-      for (size_t i = 1; i < m_dim; ++i)
-      {
-        assert(sizes[i] < MaxSize);
-        m_storageSize *= sizes[i];
-      }
+      m_storageSize = newStorageSize;
 
       // no realloc if storageSize already big enough
       if (m_storageSize > oldStorageSize)
@@ -202,6 +190,23 @@ public:
 
 private:
 
+  // the number of elements implied by sizes. There must be at least one dimension, and at least one element in each
+  static size_t checkedStorageSize(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty())
+      throw std::runtime_error("array must have at least one dimension");
+    size_t storageSize = 1;
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      if (sizes[i] < 1)
+        throw std::runtime_error("array must have at least one element in each dimension");
+      if (sizes[i] > MaxSize || storageSize > std::numeric_limits<int64_t>::max() / sizeof(T) / sizes[i])
+        throw std::runtime_error("array is too large");
+      storageSize *= sizes[i];
+    }
+    return storageSize;
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From a58e16206517da7623b93340a45acbd4ed1350cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:12 +0000
Subject: [PATCH 11/33] fix: ipf and qisi must not loop forever when a marginal
 spans every dimension

---
 src/Index.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..4532601 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,9 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // with nothing to iterate over there is only one (empty) state
+  if (m_dim == 0)
+    m_atEnd = true;
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
-- 
2.43.0


From 6576bb01d0434f06adb5a4110aba16ba34e6af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 12/33] fix: flatten must reject negative counts rather than
 write out of bounds

---
 src/NDArrayUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..a752615 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -204,6 +204,9 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
 template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
+  if (min(t) < 0)
+    throw std::runtime_error("cannot list a population containing negative counts");
+
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
-- 
2.43.0


From ad3c47eac1a6b9a072af4f19baa4a03ed4dffee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 13/33] fix: reject distributions containing invalid
 probabilities rather than looping

---
 src/Integerise.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..11f48df 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -23,6 +23,13 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
 {
   const size_t n = p.size();
+  if (n == 0)
+    throw std::runtime_error("cannot integerise an empty distribution");
+  for (double x: p)
+  {
+    if (!(x >= 0.0) || std::isinf(x))
+      throw std::runtime_error("value %% is not a valid probability"s % x);
+  }
   std::vector<int> f(n);
   std::vector<double> r(n);
 
-- 
2.43.0


From 73215b34a2b448173d6e918692541a17fe051ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:54 +0000
Subject: [PATCH 14/33] fix: 1-d integerise must round the total population,
 not truncate it

---
 src/Integerise.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 11f48df..d24f657 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -62,16 +62,21 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   // construct 1-d integer marginals in each dim
   size_t dim = m_seed.dim();
   // check total population is integral (or close)
-  checked_round(sum(m_seed));
+  const int64_t total = checked_round(sum(m_seed));
 
   // 1-d special case: use prob2IntFreq
   if (dim == 1)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    if (total > std::numeric_limits<int>::max())
+      throw std::runtime_error("Total value %% is too large"s % total);
+    int pop = total;
     // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (pop != 0)
+    {
+      for (auto& x: p) x /= pop;
+    }
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From 6d21ba65b1f2cf975205eafb8efc469426a4a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 15/33] fix: states that can't be occupied must not make the
 chi-squared statistic NaN

---
 src/StatFuncs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..3ee4553 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // states that are neither expected nor sampled don't contribute
+    if (sample[index] == 0 && reference[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From 41e65dbe39d9f0664d8fc6a81bb46454f2571fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 16/33] fix: expectation of an empty population must be 0, not
 NaN

---
 src/QIS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index aa930f3..f67aae4 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -165,7 +165,7 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  double scale = m_population > 0 ? double(m_population) / sum(m_stateValues) : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
-- 
2.43.0


From e424b6a52f6730130619781158b936a171223565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 17/33] fix: failure to allocate when resizing an array must
 not leave a dangling pointer

---
 src/NDArray.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index 91b0b23..ccfa7ab 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -107,18 +107,18 @@ public:
     if (m_owned)
     {
       size_t newStorageSize = checkedStorageSize(sizes);
-      size_t oldStorageSize = m_storageSize;
-
-      m_dim = sizes.size();
-      m_sizes = sizes;
-      m_storageSize = newStorageSize;
 
       // no realloc if storageSize already big enough
-      if (m_storageSize > oldStorageSize)
+      if (newStorageSize > m_storageSize)
       {
+        // allocate first: if this throws the existing storage must remain intact
+        T* p = allocate(newStorageSize);
         deallocate(m_data);
-        m_data = allocate(m_storageSize);
+        m_data = p;
       }
+      m_dim = sizes.size();
+      m_sizes = sizes;
+      m_storageSize = newStorageSize;
       computeOffsets();
     }
     else
-- 
2.43.0


From 29a34a74b13a427a96fabd2af77de57949721817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:59 +0000
Subject: [PATCH 18/33] fix: R front end must not read beyond the end of
 mismatched indices, marginals or seed

---
 src/rcpp_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 46e7849..47513b2 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,6 +77,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
+    if (static_cast<size_t>(iv.size()) != colMajorSizes.size())
+      throw std::runtime_error("mismatch between dimensions of index and marginal " + std::to_string(i+1));
     for (size_t j = 0; j < colMajorSizes.size(); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
@@ -92,6 +94,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("mismatch between number of seed dimensions and marginals");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
-- 
2.43.0


From 854b6378ac6b2c10acea450e17268388cd8b9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 19/33] fix: R flatten must not read beyond the end of the
 category names

---
 src/rcpp_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 47513b2..95d0e41 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -489,6 +489,9 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
   int64_t pop = sum(a);
 
+  if (static_cast<size_t>(categoryNames.size()) < a.dim())
+    throw std::runtime_error("a category name is required for every dimension");
+
   // for R indices start at 1
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
-- 
2.43.0


From 11921885b4bd8c6c4e52bcf892a5dfd8c5dd08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:38 +0000
Subject: [PATCH 20/33] fix: qisi and integerise must return an approximate
 population rather than fail part way through

---
 src/QISI.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 008420a..d0c3c7f 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -125,8 +125,11 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
     print(m_ipfSolution.rawData(), m_ipfSolution.storageSize(), m_ipfSolution.sizes()[0]);
 #endif
     --m_ipfSolution[main_index];
-    if (m_ipfSolution[main_index] < 0.0)
+    if (m_ipfSolution[main_index] < 0.0 && m_conv)
       recomputeIPF(seed);
+    // if the marginals can no longer be met, revert to the initial solution so that the (approximate) population can be completed
+    if (m_ipfSolution[main_index] <= 0.0 && (!m_conv || sum(m_ipfSolution) <= 0.0))
+      NDArray<double>::copy(m_expectedStateOccupancy, m_ipfSolution);
   }
   m_chiSq = ::chiSq(m_array, m_expectedStateOccupancy);
 
-- 
2.43.0


From 58470049b04f2aefe1bdd68ed88b3b873069425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 21/33] fix: arrays must not leak their storage when
 construction runs out of memory

---
 src/NDArray.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/NDArray.h b/src/NDArray.h
index ccfa7ab..3e5f2c4 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -108,6 +108,10 @@ public:
     {
       size_t newStorageSize = checkedStorageSize(sizes);
 
+      // nothing may throw once storage is allocated, in a constructor it would never be released
+      m_sizes.reserve(sizes.size());
+      m_offsets.reserve(sizes.size());
+
       // no realloc if storageSize already big enough
       if (newStorageSize > m_storageSize)
       {
-- 
2.43.0


From 4ea73e800bf20d64492be68cb813f03599e0ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 22/33] fix: integerise must reject a negative total rather
 than return negative counts

---
 src/Integerise.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index d24f657..e774788 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -69,8 +69,8 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    if (total > std::numeric_limits<int>::max())
-      throw std::runtime_error("Total value %% is too large"s % total);
+    if (total < 0 || total > std::numeric_limits<int>::max())
+      throw std::runtime_error("Total value %% is negative or too large"s % total);
     int pop = total;
     // convert to probabilities
     if (pop != 0)
-- 
2.43.0


From 88b6f0ad4d8ef57c47793493d3d4ad56b897d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 23/33] fix: SobolSequence must reject dimensions of 2^32 or
 more rather than truncate them

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index b324a44..421a56f 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -137,7 +137,7 @@ py::tuple integerise1d(carray_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From 2272008dbb660199da0ac7b55de02ea411485c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 24/33] fix: SobolSequence must not lose a point when memory
 runs out while returning it

---
 src/module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 421a56f..ce5deee 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -142,10 +142,12 @@ public:
   py::array_t<double> next()
   {
     py::array_t<double> sequence(m_sobol.dim());
+    // nothing may fail once the point has been taken, or it would be lost
+    double* const values = begin(sequence);
     try
     {
       const std::vector<uint32_t>& buf = m_sobol.buf();
-      std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
+      std::transform(buf.cbegin(), buf.cend(), values, [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
     catch(const std::out_of_range&)
-- 
2.43.0


From b5d8298790247e7f13c6b3f599de4172ed96b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:21 +0000
Subject: [PATCH 25/33] fix: do not take a buffer view to reach an array's
 data, which leaks when memory runs out

---
 src/module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index ce5deee..2393a8b 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -28,28 +28,28 @@ template<typename T>
 T* begin(py::array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
-  return (T*)a.request().ptr;
+  return a.mutable_data();
 }
 
 template<typename T>
 T* end(py::array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
-  return (T*)a.request().ptr + a.size();
+  return a.mutable_data() + a.size();
 }
 
 template<typename T>
 const T* cbegin(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
-  return (const T*)a.request().ptr;
+  return a.data();
 }
 
 template<typename T>
 const T* cend(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
-  return (const T*)a.request().ptr + a.size();
+  return a.data() + a.size();
 }
 
 template<typename T>
-- 
2.43.0


From e0000b618f88b49b865851300a0ea189add7e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 26/33] fix: ipf, qisi and integerise must reject seeds with
 negative or non-finite values

---
 src/IPF.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..147b500 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -44,6 +44,11 @@ public:
       if (seed.sizes()[d] != this->m_array.sizes()[d])
         throw std::runtime_error("seed dimensions %% are inconsistent with that implied by marginals (%%)"s % seed.sizes() % this->m_array.sizes());
     }
+    for (const double* p = seed.rawData(); p != seed.rawData() + seed.storageSize(); ++p)
+    {
+      if (!(*p >= 0.0) || std::isinf(*p))
+        throw std::runtime_error("seed value %% is not valid: values must be finite and non-negative"s % *p);
+    }
 
     Index index_main(this->m_array.sizes());
 
-- 
2.43.0


From 8c90976db2e18cef2103e21a7b6c3aa09bca619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 27/33] fix: check the dimension and length of a Sobol sequence
 before allocating anything of that size

---
 src/Sobol.cpp    | 16 ++++++++++------
 src/Sobol.h      |  3 +++
 src/rcpp_api.cpp |  5 +++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 08c2caa..6aef2d9 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -7,13 +7,8 @@
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(checkedDim(dim)), m_buf(m_dim), m_pos(m_dim) // ensures m_buf gets populated on 1st access
 {
-  if (dim < 1 || dim > 1111)
-  {
-    throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
-  }
-
   m_s = nlopt_sobol_create(dim);
   if (!m_s)
     throw std::bad_alloc();
@@ -64,6 +59,15 @@ void Sobol::reset(uint32_t nSkip)
     skip(nSkip);
 }
 
+uint32_t Sobol::checkedDim(int64_t dim)
+{
+  if (dim < 1 || dim > 1111)
+  {
+    throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
+  }
+  return static_cast<uint32_t>(dim);
+}
+
 uint32_t Sobol::checkedSkips(int64_t nSkip)
 {
   if (nSkip < 0 || nSkip > std::numeric_limits<uint32_t>::max())
diff --git a/src/Sobol.h b/src/Sobol.h
index e62ba72..867bd07 100644
--- a/src/Sobol.h
+++ b/src/Sobol.h
@@ -42,6 +42,9 @@ public:
   // Validates a number of points to skip that originates from a wider and/or signed type
   static uint32_t checkedSkips(int64_t nSkip);
 
+  // Validates a dimension before anything of that size is allocated
+  static uint32_t checkedDim(int64_t dim);
+
   uint32_t dim() const;
 
   uint32_t min() const;
diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 95d0e41..1cf471f 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -458,6 +458,11 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  // R raises its own errors without unwinding, so don't let it see bad sizes
+  Sobol::checkedDim(dim);
+  if (n < 0)
+    throw std::range_error("number of points cannot be negative");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, Sobol::checkedSkips(skip));
-- 
2.43.0


From 7087bad675a43cb6754516889f1ed10cb46d788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 28/33] fix: the expectation of qis must not overflow when
 there are many marginals

---
 src/QIS.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index f67aae4..0538f15 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -3,6 +3,9 @@
 #include "Index.h"
 #include "StatFuncs.h"
 
+#include <algorithm>
+#include <cmath>
+
 // uncomment to sample from a (dynamic) state array rather than directly from marginals (can be slower for high dimensionality)
 //#define USE_STATE_SAMPLING
 
@@ -332,13 +335,28 @@ void QIS::computeStateValues()
 
   std::vector<MappedIndex> mappings = makeMarginalMappings(index_main);
 
+  // only relative values matter: exponents are kept apart so that the product of many marginals can't overflow
+  NDArray<int64_t> exponents(m_array.sizes());
+  int64_t maxExponent = 0;
+
   m_stateValues.assign(1.0);
   for (; !index_main.end(); ++index_main)
   {
+    exponents[index_main] = 0;
     for (size_t k = 0; k < m_marginals.size(); ++k)
     {
-      m_stateValues[index_main] *= m_marginals[k][mappings[k]];
+      int exponent;
+      m_stateValues[index_main] = std::frexp(m_stateValues[index_main] * m_marginals[k][mappings[k]], &exponent);
+      exponents[index_main] += exponent;
     }
+    if (m_stateValues[index_main] != 0.0)
+      maxExponent = std::max(maxExponent, exponents[index_main]);
+  }
+
+  const int64_t shift = std::max<int64_t>(maxExponent - 512, 0);
+  for (Index index(m_array.sizes()); !index.end(); ++index)
+  {
+    m_stateValues[index] = std::ldexp(m_stateValues[index], static_cast<int>(exponents[index] - shift));
   }
 }
 
-- 
2.43.0


From 00f61a2fff1b07de161325f3392ef78c5c02884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 29/33] fix: flatten must not write beyond its result when the
 sum of the counts overflows

---
 src/NDArrayUtils.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index a752615..4b6e97e 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -206,6 +206,14 @@ std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int
 {
   if (min(t) < 0)
     throw std::runtime_error("cannot list a population containing negative counts");
+  // the counts must not exceed pop, including when their sum is too large to represent
+  size_t remaining = pop;
+  for (Index i(t.sizes()); !i.end(); ++i)
+  {
+    if (static_cast<size_t>(t[i]) > remaining)
+      throw std::runtime_error("population is too large to be listed");
+    remaining -= static_cast<size_t>(t[i]);
+  }
 
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
-- 
2.43.0


From d44829042f99e57332b3fb82af4229ea2c1c1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 30/33] fix: integerise must not ignore shares whose sum
 overflows

---
 src/module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index 2393a8b..e664fae 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -121,6 +121,10 @@ py::tuple integerise1d(carray_t<double> frac_a, int pop)
   // convert py::array_t to vector and normalise it to get probabilities
   std::vector<double> prob = toVector(frac_a);
   double sum = std::accumulate(prob.begin(), prob.end(), 0.0);
+  if (std::isinf(sum))
+  {
+    throw py::value_error("the sum of the values is too large");
+  }
   for (double& p: prob) {
     p /= sum;
   }
-- 
2.43.0


From 3e5839ddb2aac9a030a59a7c054795fdea54a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 31/33] fix: reject marginals whose total is not finite or
 overflows the population

---
 src/Microsynthesis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index beb8d17..6c81b31 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -214,6 +214,13 @@ protected:
     // more validation
 
     // check marginal sums all the same (round to nearest)
+    // populations must be representable (this also rejects values that aren't finite)
+    for (size_t i = 0; i < m_marginals.size(); ++i)
+    {
+      const double total = std::accumulate(m_marginals[i].begin(), m_marginals[i].end(), 0.0);
+      if (!(total < 4611686018427387904.0)) // 2^62
+        throw std::runtime_error("population %% at index %% is not finite or too large"s % total % i);
+    }
     m_population = static_cast<int64_t>(sum(m_marginals[0]) + 0.5);
     for (size_t i = 1; i < m_marginals.size(); ++i)
     {
-- 
2.43.0


From 44cb500219d0b4bec67ab7d319ea9551b3ba6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 32/33] fix: ipf and qisi must cope with very small and very
 large seed values

---
 src/IPF.h            |  6 ++++++
 src/Microsynthesis.h | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/IPF.h b/src/IPF.h
index 147b500..4ede06d 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -61,6 +61,12 @@ public:
 
     //this->m_array.assign(1.0);
     std::copy(seed.rawData(), seed.rawData() + seed.storageSize(), const_cast<double*>(this->m_array.rawData()));
+    // only relative values matter, scale down if sums would overflow
+    if (std::isinf(sum(this->m_array)))
+    {
+      for (double& value: this->m_array)
+        value = std::ldexp(value, -64);
+    }
 
     std::vector<NDArray<double>> diffs(this->m_marginals.size());
     m_errors.resize(this->m_marginals.size());
diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 6c81b31..42a3051 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -186,12 +186,12 @@ protected:
           if (r[index] == 0.0 && m_marginals[k][index] != 0.0)
             throw std::runtime_error("div0 in rScale with m>0");
           if (r[index] != 0.0)
-            m_array[main_index] *= m_marginals[k][index] / r[index];
+            rescale(m_array[main_index], m_marginals[k][index], r[index]);
           else
             m_array[main_index] = 0.0;
 #else
           if (r[index] != 0.0)
-            m_array[main_index] *= m_marginals[k][index] / r[index];
+            rescale(m_array[main_index], m_marginals[k][index], r[index]);
           else
             m_array[main_index] = 0.0;
 #endif
@@ -202,6 +202,16 @@ protected:
     }
   }
 
+  // the ratio overflows if the values being scaled are very small
+  static void rescale(T& value, double marginal, double total)
+  {
+    const double scale = marginal / total;
+    if (std::isfinite(scale))
+      value *= scale;
+    else
+      value = value / total * marginal;
+  }
+
   void createMappings(const std::vector<int64_t> sizes, const std::map<int64_t, int64_t>& dim_sizes)
   {
     // create mapping from dimension to marginal(s)
-- 
2.43.0


From 05f48df44167673bfd7ddf9e541438bf7aaec26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:45 +0000
Subject: [PATCH 33/33] fix: R flatten lost columns whose category names are
 repeated or empty

---
 src/rcpp_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 1cf471f..d2bdd2b 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -501,11 +501,15 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
   // DataFrame interface is poor and appears buggy. Best approach seems to insert columns in List then assign to DataFrame at end
-  List proxyDf;
+  // (by position: the names may be repeated or empty)
+  List proxyDf(a.dim());
+  StringVector names(a.dim());
   for (size_t i = 0; i < a.dim(); ++i)
   {
-    proxyDf[as<std::string>(categoryNames[i])] = list[i];
+    proxyDf[i] = list[i];
+    names[i] = categoryNames[i];
   }
+  proxyDf.attr("names") = names;
 
   return DataFrame(proxyDf);
 }
-- 
2.43.0

