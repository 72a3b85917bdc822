From 961d721494ab129dede0d521e0461a4d230a3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:51 +0000
Subject: [PATCH 01/28] fix: array arguments are read as contiguous row-major
 data whatever their memory layout

array_t<T> accepts any strides, but the raw buffer was read as if it were C-contiguous:
transposed, sliced, reversed or Fortran-ordered arrays gave wrong results and out-of-bounds reads.
---
 src/module.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..b88d832 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,6 +20,10 @@ using namespace py::literals;
 
 namespace hl {
 
+// contiguous row-major array arguments: other layouts and types are converted (copied) on the way in
+template<typename T>
+using carray_t = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template<typename T>
 T* begin(py::array_t<T>& a)
 {
@@ -35,21 +39,21 @@ T* end(py::array_t<T>& a)
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const carray_t<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const carray_t<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,7 +75,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const carray_t<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
@@ -85,7 +89,7 @@ py::array_t<T> fromNDArray(const NDArray<T>& a)
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const carray_t<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(carray_t<double> frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const carray_t<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const carray_t<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<double> ma = mlist[i].cast<carray_t<double>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.push_back(asNDArray<double>(ma));
   }
@@ -218,8 +222,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -239,7 +243,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const carray_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -252,8 +256,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -324,7 +328,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::carray_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From fbfec6ffb803ad06cc8ccdc0290e59e009e985f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:31 +0000
Subject: [PATCH 02/28] fix: ipf copies its marginals instead of keeping
 pointers into temporary arrays

A marginal given as a list or as an integer array is converted into a temporary that was
freed before the solve.
---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index b88d832..ecdb408 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -193,7 +193,7 @@ py::tuple ipf(const carray_t<double>& seed, const py::list& ilist, const py::lis
     const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
     const carray_t<double> ma = mlist[i].cast<carray_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From 078f8e07cf1a658bf144f82b45d76010e8f66d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 03/28] fix: flatten rejects negative counts and totals that
 overflow

The number of rows was computed from the wrapped sum, and the rows then written out of bounds.
---
 src/module.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index ecdb408..ba266ef 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -96,7 +96,15 @@ py::list flatten(const carray_t<int64_t>& a)
   size_t pop = 0;
   for (Index i(array.sizes()); !i.end(); ++i)
   {
+    if (array[i] < 0)
+    {
+      throw py::value_error("population array contains a negative count");
+    }
     pop += array[i];
+    if (pop > static_cast<size_t>(std::numeric_limits<int64_t>::max()))
+    {
+      throw py::value_error("population is too large");
+    }
   }
 
   const std::vector<std::vector<int>>& list = listify(pop, array);
-- 
2.43.0


From 731cdaaa7d9b1610a4c7a8a78ae459761984e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 04/28] fix: zero-dimensional and empty arrays no longer crash

Offsets were computed by dividing by the dimension sizes and iteration did not see that an
empty array has no elements.
---
 src/Index.cpp        |  4 +++-
 src/Integerise.cpp   |  2 ++
 src/Microsynthesis.h |  2 ++
 src/NDArray.h        | 11 +++++++----
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..d9faa17 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -14,6 +14,8 @@ Index::Index(const std::vector<int64_t>& sizes)
   m_storageSize = m_sizes[0];
   for (size_t i = 1; i < m_dim; ++i)
     m_storageSize *= m_sizes[i];
+  // nothing to iterate over if any dimension is empty
+  m_atEnd = m_storageSize == 0;
 }
 
 const std::vector<int64_t>& Index::operator++()
@@ -62,7 +64,7 @@ int64_t& Index::operator[](size_t i)
 void Index::reset()
 {
   m_idx.assign(m_dim, 0);
-  m_atEnd = false;
+  m_atEnd = m_storageSize == 0;
 }
 
 bool Index::end() const
diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..20c4898 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -54,6 +54,8 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
 {
   // construct 1-d integer marginals in each dim
   size_t dim = m_seed.dim();
+  if (m_seed.storageSize() == 0)
+    throw std::runtime_error("cannot integerise an empty array");
   // check total population is integral (or close)
   checked_round(sum(m_seed));
 
diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..11372ea 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -44,6 +44,8 @@ public:
       {
         int64_t dim = m_indices[k][j];
         int64_t size = m_marginals[k].size(j);
+        if (size < 1)
+          throw std::runtime_error("dimension %% of marginal %% is empty"s % j % k);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
         if (posit == dim_sizes.end())
diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..6fc6fb2 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -39,7 +39,8 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
+    if (m_sizes.empty())
+      throw std::invalid_argument("array must have at least one dimension");
     m_storageSize = sizes[0];
     assert(m_storageSize < MaxSize);
     for (size_t i = 1; i < m_dim; ++i)
@@ -113,6 +114,8 @@ public:
   {
     if (m_owned)
     {
+      if (sizes.empty())
+        throw std::invalid_argument("array must have at least one dimension");
       m_dim = sizes.size();
       size_t oldStorageSize = m_storageSize;
 
@@ -205,11 +208,11 @@ private:
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-    size_t mult = m_storageSize;
-    for (size_t i = 0; i < m_dim; ++i)
+    size_t mult = 1;
+    for (size_t i = m_dim; i-- > 0; )
     {
-      mult /= m_sizes[i];
       m_offsets[i] = mult;
+      mult *= m_sizes[i];
     }
   }
 
-- 
2.43.0


From ae41d10d1d18857275eb23367a6367c3bb96c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:25 +0000
Subject: [PATCH 05/28] fix: 1-d integerise rounds its total, and accepts a
 zero population

A total within tolerance below an integer was truncated (9.99999 gave a population of 9), a
zero total divided by zero, and NaN passed the integer check.
---
 src/Integerise.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 20c4898..9d9efe1 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -5,6 +5,7 @@
 #include "Log.h"
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
 #include <cmath>
 //#include <iostream>
@@ -13,7 +14,7 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
-  if (fabs(x - round(x)) > tol)
+  if (!(fabs(x - round(x)) <= tol)) // also catches NaN and infinity
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
 }
@@ -57,16 +58,19 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   if (m_seed.storageSize() == 0)
     throw std::runtime_error("cannot integerise an empty array");
   // check total population is integral (or close)
-  checked_round(sum(m_seed));
+  const int64_t total = checked_round(sum(m_seed));
 
   // 1-d special case: use prob2IntFreq
   if (dim == 1)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    if (total < 0 || total > std::numeric_limits<int>::max())
+      throw std::runtime_error("population %% is out of range"s % total);
+    int pop = (int)total;
     // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (pop > 0)
+      for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From c753b40c3e69a23a66b2a9342b2700fbdb3af526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:43 +0000
Subject: [PATCH 06/28] fix: integerise rejects negative, non-finite and
 all-zero values

They produced negative or arbitrary frequencies, or dereferenced an empty vector.
---
 src/Integerise.cpp | 2 ++
 src/module.cpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 9d9efe1..edbb02b 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -29,6 +29,8 @@ std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, in
 
   for(size_t i = 0; i < n; ++i)
   {
+    if (!(p[i] >= 0.0 && p[i] <= std::numeric_limits<double>::max()))
+      throw std::runtime_error("value %% at position %% is negative or not finite"s % p[i] % i);
     f[i] = p[i] * pop; // rounded down
     r[i] = p[i] * pop - f[i];
   }
diff --git a/src/module.cpp b/src/module.cpp
index ba266ef..fed1442 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -129,6 +129,10 @@ py::tuple integerise1d(carray_t<double> frac_a, int pop)
   // convert py::array_t to vector and normalise it to get probabilities
   std::vector<double> prob = toVector(frac_a);
   double sum = std::accumulate(prob.begin(), prob.end(), 0.0);
+  if (!(sum > 0.0 && sum <= std::numeric_limits<double>::max()))
+  {
+    throw py::value_error("sum of values must be positive and finite");
+  }
   for (double& p: prob) {
     p /= sum;
   }
-- 
2.43.0


From 4cc8fbe472916bf76cde29fb3e71bfbb5da38de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:58 +0000
Subject: [PATCH 07/28] fix: chi-squared is defined when a marginal contains a
 zero

Impossible states contributed 0/0, making chiSq and pValue NaN for converged populations.
---
 src/QIS.cpp     | 3 ++-
 src/StatFuncs.h | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..0218ec4 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -165,7 +165,8 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  const double total = sum(m_stateValues);
+  double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..8802166 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // impossible and unoccupied states contribute nothing (rather than 0/0)
+    if (reference[index] == 0 && sample[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From 51a3fe6d03ef9d8bcb5c8c8831170e4a7ee86475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 08/28] fix: p-value stays in [0,1], also for an infinite
 statistic or slow convergence

An infinite chi-squared (an occupied impossible state) and an unconverged continued fraction
both gave a p-value of 1.
---
 src/StatFuncs.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 8705b6a..bcb37a6 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -1,5 +1,6 @@
 
 #include "StatFuncs.h"
+#include <algorithm>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -102,6 +103,11 @@ double gamain ( double x, double p, int *ifault )
     return value;
   }
 
+  if ( x > std::numeric_limits<double>::max() )
+  {
+    return 1.0;
+  }
+
   g = lgamma ( p );
 
   arg = p * log ( x ) - x - g;
@@ -200,9 +206,12 @@ double gamain ( double x, double p, int *ifault )
       }
     }
   }
-  // convergence failure
+  // convergence failure: use the best estimate so far
   if (iter == maxIters)
+  {
     *ifault = 6;
+    value = 1.0 - factor * gin;
+  }
   return value;
 }
 
@@ -335,7 +344,7 @@ std::pair<double, bool> pValue(uint32_t dof, double x)
 {
   double k = dof * 0.5;
   int e = 0;
-  double p = 1.0 - gamain(x/2.0, k, &e);
+  double p = std::min(1.0, std::max(0.0, 1.0 - gamain(x/2.0, k, &e)));
   // we drop detail of the error here and just return true/false, plus the value (false meaning p is potentially inaccurate)
   return std::make_pair(p, e == 0);
 }
-- 
2.43.0


From 61f9de5355558958ff93fcd19b2fb93949b79952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 09/28] fix: Sobol skip terminates for every n, and skipping 0
 points skips none

For n > 2^31 the power of two overflowed to zero and the loop never ended; skip(0), as called
by qis by default, discarded a point.
---
 src/SobolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..f494e5c 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -228,10 +228,10 @@ int nlopt_sobol_next(SobolData* s, uint32_t *x)
    points equal to the largest power of 2 smaller than n */
 void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
 {
-  if (s)
+  if (s && n > 0)
   {
 	  uint32_t k = 1;
-	  while (k*2 < n) k *= 2;
+	  while (k <= (n-1)/2) k *= 2; // i.e. k*2 < n, avoiding overflow
 	  while (k-- > 0) sobol_gen(s, x);
   }
 }
-- 
2.43.0


From 34765e338eaeb664c354d18059c24e73b19cbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:22 +0000
Subject: [PATCH 10/28] fix: SobolSequence raises StopIteration when exhausted

The generator throws std::out_of_range, which is not a std::runtime_error.
---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index fed1442..14c6b7e 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -160,7 +160,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 398bffa30e7e827e1cde8a5a7e3c9b470b2f6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 11/28] fix: qisi honours its skips argument, and skips outside
 the 32-bit range are rejected

solve() sampled from a local sequence that had not been advanced.
---
 src/QIS.cpp  | 2 ++
 src/QISI.cpp | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 0218ec4..9cf955e 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -159,6 +159,8 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
+  if (skips < 0 || skips > (int64_t)m_sobolSeq.max())
+    throw std::range_error("skips %% is not in valid range [0,2^32-1]"s % skips);
   m_sobolSeq.skip(skips);
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..9d2d614 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -70,6 +70,8 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
+  if (skips < 0 || skips > (int64_t)m_sobolSeq.max())
+    throw std::range_error("skips %% is not in valid range [0,2^32-1]"s % skips);
   m_sobolSeq.skip(skips);
 }
 
@@ -101,11 +103,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From dfdf003b8cc10da8ed8da49f66cfe557fed37918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 12/28] fix: reject a dimension repeated within one marginal
 index

It aliased two coordinates of the marginal, looping for ever or leaving dimensions unset.
---
 src/Microsynthesis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 11372ea..f59bb6f 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -43,6 +43,8 @@ public:
       for (size_t j = 0; j < m_indices[k].size(); ++j)
       {
         int64_t dim = m_indices[k][j];
+        if (std::count(m_indices[k].begin(), m_indices[k].end(), dim) != 1)
+          throw std::runtime_error("dimension %% is repeated in index %%"s % dim % k);
         int64_t size = m_marginals[k].size(j);
         if (size < 1)
           throw std::runtime_error("dimension %% of marginal %% is empty"s % j % k);
-- 
2.43.0


From 418a5b7c3ffe6f973810e39529547c25753419df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 13/28] fix: ipf and qisi terminate when one marginal covers
 every dimension

The index over the remaining (no) dimensions never reached its end.
---
 src/Index.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Index.cpp b/src/Index.cpp
index d9faa17..16def49 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -116,6 +116,9 @@ const MappedIndex& MappedIndex::operator++()
       m_atEnd = true;
     *m_mappedIndex[i] = 0;
   }
+  // an index over no dimensions has a single position
+  if (m_dim == 0)
+    m_atEnd = true;
   return *this;
 }
 
-- 
2.43.0


From ffdbb7e4abc6cbe377e4ab2cfbb1d296b5fd716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:52 +0000
Subject: [PATCH 14/28] fix: ipf and qisi reject negative and non-finite seed
 values

They gave negative or NaN populations (R already rejects negative seeds).
---
 src/IPF.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..fdfb1a6 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -45,6 +45,13 @@ public:
         throw std::runtime_error("seed dimensions %% are inconsistent with that implied by marginals (%%)"s % seed.sizes() % this->m_array.sizes());
     }
 
+    for (size_t i = 0; i < seed.storageSize(); ++i)
+    {
+      const double value = seed.rawData()[i];
+      if (!(value >= 0.0 && value <= std::numeric_limits<double>::max()))
+        throw std::runtime_error("negative or non-finite value in seed: %%"s % value);
+    }
+
     Index index_main(this->m_array.sizes());
 
     std::vector<MappedIndex> mappings;
-- 
2.43.0


From a221790407b82e14d13032d87280791956f91529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 15/28] fix: non-finite marginal values are rejected

NaN passed every comparison made by the validation.
---
 src/Microsynthesis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index f59bb6f..1a7fbfc 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -65,6 +65,11 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
+      for (Index i(m_marginals[k].sizes()); !i.end(); ++i)
+      {
+        if (!(m_marginals[k][i] <= std::numeric_limits<M>::max()))
+          throw std::runtime_error("non-finite value in marginal %%: %%"s % k % m_marginals[k][i]);
+      }
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From 4c0114825954ca70dae19b2d685bb438116f8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 16/28] fix: ipf does not report convergence when overflow has
 produced NaN

std::max ignored NaN errors, leaving a hugely negative maxError, i.e. convergence.
---
 src/IPF.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IPF.h b/src/IPF.h
index fdfb1a6..3e6e9ce 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -121,7 +121,9 @@ private:
       {
         double e = std::fabs(diffs[k][index]);
         m_errors[k][index] = e;
-        m_maxError = std::max(m_maxError, e);
+        // once NaN the maximum error stays so, and is never below the tolerance
+        if (!(e <= m_maxError) && !std::isnan(m_maxError))
+          m_maxError = e;
       }
     }
 
-- 
2.43.0


From 6b390e91145795774d653afae10d6b11ca91d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:00 +0000
Subject: [PATCH 17/28] fix: R validation does not read beyond a short index or
 the implied dimensions

---
 src/rcpp_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..893f5e7 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,6 +77,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
+    if (static_cast<size_t>(iv.size()) != colMajorSizes.size())
+      throw std::runtime_error("index/marginal dimension mismatch");
     for (size_t j = 0; j < colMajorSizes.size(); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
@@ -92,6 +94,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("seed and marginals differ in number of dimensions");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
-- 
2.43.0


From 4c21f2c17518b6719ce4fb0cc361769538c168e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:52 +0000
Subject: [PATCH 18/28] fix: max returns the largest element

---
 src/NDArrayUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..d57533e 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -56,12 +56,12 @@ T min(const NDArray<T>& a)
 template<typename T>
 T max(const NDArray<T>& a)
 {
-  T minVal = std::numeric_limits<T>::max();
+  T maxVal = std::numeric_limits<T>::lowest();
   for (Index i(a.sizes()); !i.end(); ++i)
   {
-    minVal = std::min(minVal, a[i]);
+    maxVal = std::max(maxVal, a[i]);
   }
-  return minVal;
+  return maxVal;
 }
 
 // TODO move printing somehwere else
-- 
2.43.0


From 3c370e4685df2fb0b97c5c71af6d530b1a36a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:51 +0000
Subject: [PATCH 19/28] fix: resetting a Sobol sequence discards the rest of
 the current point

---
 src/Sobol.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..a7f572f 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -52,6 +52,8 @@ void Sobol::reset(uint32_t nSkip)
 {
   nlopt_sobol_destroy(m_s);
   m_s = nlopt_sobol_create(m_dim);
+  // discard what remains of the current point
+  m_pos = m_dim;
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From 55a0469b6d7846e8eef2f4fefae971b54f8b7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 20/28] fix: SobolSequence rejects dimensions that do not fit
 32 bits, before allocating

---
 src/Sobol.cpp  | 3 ++-
 src/module.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index a7f572f..cea0eff 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -6,13 +6,14 @@
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
 {
   if (dim < 1 || dim > 1111)
   {
     throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
   }
 
+  m_buf.resize(dim);
   m_s = nlopt_sobol_create(dim);
   if (nSkip > 0)
     skip(nSkip);
diff --git a/src/module.cpp b/src/module.cpp
index 14c6b7e..6296ea1 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -149,7 +149,7 @@ py::tuple integerise1d(carray_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From ffab3455725da73624931e71a7cfa17f0e5c0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 21/28] fix: a constrained draw with every state forbidden
 returned state 0

---
 src/DDWR.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DDWR.h b/src/DDWR.h
index 2e54035..6bfcd5b 100644
--- a/src/DDWR.h
+++ b/src/DDWR.h
@@ -115,6 +115,9 @@ public:
     firstForbiddenState = std::min(m_freq.size(), firstForbiddenState);
 
     result_type allowedSum = std::accumulate(m_freq.begin(), m_freq.begin() + firstForbiddenState, 0);
+    // no allowed state left
+    if (!allowedSum)
+      return invalid_state;
 
     // map r in [0,2^32) -> [0, m_sum)
     r = (uint32_t)(double(r)/(1ull<<32) * allowedSum);
-- 
2.43.0


From d1f911772760bd51b6ee38574215924210e9911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 22/28] fix: rmse of a 1-d integerised array whose total rounds
 to zero

---
 src/Integerise.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index edbb02b..715d1c5 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -19,6 +19,16 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
   return (int64_t)round(x);
 }
 
+double rootMeanSquareDiff(const NDArray<int64_t>& a, const NDArray<double>& b)
+{
+  double sumsq = 0.0;
+  for (Index index(a.sizes()); !index.end(); ++index)
+  {
+    sumsq += (a[index] - b[index]) * (a[index] - b[index]);
+  }
+  return sqrt(sumsq / a.storageSize());
+}
+
 }
 
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
@@ -76,6 +86,7 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
+    m_rmse = rootMeanSquareDiff(m_result, m_seed);
     m_conv = true;
     return;
   }
@@ -100,12 +111,7 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   NDArray<int64_t>::copy(qisi.solve(m_seed), m_result);
   m_conv = qisi.conv();
 
-  m_rmse = 0.0;
-  for (Index index(m_result.sizes()); !index.end(); ++index)
-  {
-    m_rmse += (m_result[index] - m_seed[index]) * (m_result[index] - m_seed[index]);
-  }
-  m_rmse = sqrt(m_rmse / m_result.storageSize());
+  m_rmse = rootMeanSquareDiff(m_result, m_seed);
 }
 
 const NDArray<int64_t>& Integeriser::result() const
-- 
2.43.0


From 269b5aee5d52bfac4798406a224bf5fa50a443c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 23/28] fix: integerise rejects negative values that vanish
 when normalised

---
 src/module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index 6296ea1..9f11d96 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -134,6 +134,10 @@ py::tuple integerise1d(carray_t<double> frac_a, int pop)
     throw py::value_error("sum of values must be positive and finite");
   }
   for (double& p: prob) {
+    if (p < 0.0)
+    {
+      throw py::value_error("values cannot be negative"); // even if they vanish when normalised
+    }
     p /= sum;
   }
   double var = 0.0;
-- 
2.43.0


From a165b1db5ad802740a54ac37ac5a5ac28c26f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:59 +0000
Subject: [PATCH 24/28] fix: R flatten rejects negative counts and too few
 category names

---
 src/rcpp_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 893f5e7..68dda8a 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -487,6 +487,10 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
 {
   //m.push_back(std::move(convertRArray<int64_t, IntegerVector>(nv)));
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
+  if (static_cast<size_t>(categoryNames.size()) < a.dim())
+    throw std::runtime_error("there are fewer category names than dimensions");
+  if (a.storageSize() > 0 && min(a) < 0)
+    throw std::runtime_error("population array contains a negative count");
   int64_t pop = sum(a);
 
   // for R indices start at 1
-- 
2.43.0


From 1680ff795f767e47917c11604d6630571d2d5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 25/28] fix: R sobolSequence rejects a negative skip

---
 src/rcpp_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 68dda8a..358776c 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -458,6 +458,9 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  if (skip < 0)
+    throw std::runtime_error("skip cannot be negative");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, skip);
-- 
2.43.0


From 6e7a39b7735b09fbb48a370e4311a338b4543c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 26/28] fix: correlated variates reject a correlation that is
 not a number

---
 src/StatFuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index bcb37a6..03bf394 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -323,7 +323,7 @@ double invCumNorm(const double x)
 
 Cholesky::Cholesky(double rho)
 {
-  if (std::fabs(rho) > 1.0)
+  if (!(std::fabs(rho) <= 1.0)) // also catches NaN
     throw std::runtime_error("correlation is not in [-1,1]");
   m_data[0] = rho;
   m_data[1] = sqrt(1.0 - rho * rho);
-- 
2.43.0


From 458c56c47d088d8d254235507c39897de0fb9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 27/28] fix: correlated variates in the upper tail do not wrap
 around to zero

---
 src/StatFuncs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 03bf394..9985472 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -332,12 +332,14 @@ Cholesky::Cholesky(double rho)
 std::pair<uint32_t, uint32_t> Cholesky::operator()(const std::vector<uint32_t>& uncorrelated) const
 {
   static const double scale = 0.5 / (1u << 31);
+  // the cumulative normal rounds to 1 in the upper tail, which must not wrap around
+  static const double largest = std::numeric_limits<uint32_t>::max();
   // convert to normal
   double n0 = invCumNorm(uncorrelated[0] * scale);
   double n1 = invCumNorm(uncorrelated[1] * scale);
   // correlate and convert back to uniform
-  return std::make_pair(cumNorm(n0) / scale,
-                        cumNorm(n0 * m_data[0] + n1 * m_data[1]) / scale);
+  return std::make_pair(std::min(largest, cumNorm(n0) / scale),
+                        std::min(largest, cumNorm(n0 * m_data[0] + n1 * m_data[1]) / scale));
 }
 
 std::pair<double, bool> pValue(uint32_t dof, double x)
-- 
2.43.0


From de40e37d107f3310cc9a0e55ae9c95a8d423b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 28/28] fix: inverse cumulative normal of 0 and 1 is the
 largest value, not NaN

---
 src/StatFuncs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 9985472..07abb26 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -302,6 +302,8 @@ double invCumNorm(const double x)
   double z;
   if (x < x_low_ || x_high_ < x) {
     z = tail_value(x);
+    if (std::fabs(z) == std::numeric_limits<double>::max())
+      return z; // at 0 or 1 there is nothing to refine
   } else {
     z = x - 0.5;
     double r = z*z;
-- 
2.43.0

