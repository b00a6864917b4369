From ad6551de76f04268bbaa99e4b59036f16074efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 01/32] fix: in-place multiplication and division by the number
 itself

---
 include/hyperjet/hyperjet.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..7805394 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1139,6 +1139,11 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                return *this = *this * b;
+            }
+
             const Data a_m_data = m_data;
 
             const Scalar da = b.f();
@@ -1169,9 +1174,12 @@ namespace hyperjet
 
         Type &operator*=(const Scalar &b)
         {
+            // b may refer to a coefficient of this number
+            const Scalar factor = b;
+
             for (index i = 0; i < length(m_data); i++)
             {
-                m_data[i] = m_data[i] * b;
+                m_data[i] = m_data[i] * factor;
             }
 
             return *this;
@@ -1227,6 +1235,11 @@ namespace hyperjet
 
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                return *this = *this / b;
+            }
+
             const Data a_m_data = m_data;
 
             const auto f = a_m_data[0] / b.f();
@@ -2252,6 +2265,11 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (this == &b)
+            {
+                return *this = *this * b;
+            }
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2310,6 +2328,11 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (this == &b)
+            {
+                return *this = *this / b;
+            }
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From dfb77909520bacb6ec3cdd517694a7a45249053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 02/32] fix: number of variables of default and plain-value
 constructed dynamic numbers

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7805394..742ce4a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 862ab8d21c95a52e0cd8f5f9bcee109ce3f3e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 03/32] fix: initializer list construction with a wrong length
 or dynamic size

---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 742ce4a..54cf237 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From c949c3ae60df578d2b21d5fabe914d42c271af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 04/32] fix: length check: reject empty data, accept valid data
 without exceptions

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 54cf237..2067b8d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,14 +69,14 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From 9bbb2a172467b7e021a8473fe78ca6d0af00d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 05/32] fix: reject negative sizes of dynamic numbers

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2067b8d..4a0266b 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -429,6 +429,7 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
+            check_valid_size(size);
             m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
@@ -573,6 +574,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -606,6 +608,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From 8d0f7328c038354fc4ae53a86982328a266ab758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 06/32] fix: check operand sizes in atan2 and three-argument
 hypot

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 4a0266b..30313eb 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1436,6 +1436,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1478,6 +1480,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From d32d2f9c8440f43ccb2e8df2199c96dad39acd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 07/32] fix: derivatives of constant and linear powers at zero

---
 include/hyperjet/hyperjet.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 30313eb..203aeca 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1280,8 +1280,9 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            // avoid 0 * inf for constant and linear powers of zero
+            const Scalar da = b == 0 ? Scalar(0) : Scalar(b * pow(this->f(), b - 1));
+            const Scalar daa = b == 0 || b == 1 ? Scalar(0) : Scalar((b - 1) * b * pow(this->f(), b - 2));
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2374,7 +2375,8 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            // avoid 0 * inf for a constant power of zero
+            const Scalar da = b == Scalar(0) ? Scalar(0) : Scalar(b * pow(m_f, b - Scalar(1)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From fbd623a76705e6f1e2d5bb3c4759f94403a3da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 08/32] fix: reject padding to fewer variables

---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 203aeca..43af2e7 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE void check_valid_padding(const index new_size) const
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size())
+                {
+                    throw std::runtime_error("Invalid size");
+                }
+            }
+            else
+            {
+                assert(new_size >= size() && "Invalid size");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -439,6 +454,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_valid_padding(new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -486,6 +503,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_valid_padding(new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From 55f10d842cae88e584a2701d3d4f5add67998134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 09/32] fix: gradient access of constant numbers

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 43af2e7..aedb7fe 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -828,7 +828,7 @@ namespace hyperjet
 
         Eigen::Ref<const Vector> ag() const
         {
-            return Eigen::Map<Vector>(ptr() + 1, size());
+            return Eigen::Map<const Vector>(ptr() + 1, size());
         }
 
         Eigen::Ref<Vector> ag()
-- 
2.43.0


From 6ad12ce96d3da882483f998bfd19d1ccea936dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 10/32] fix: compare iterators of the same container in sparse
 eval

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index aedb7fe..5f09830 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2137,7 +2137,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From a929c7969e4b20bf4d131b54228d85065314977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 11/32] fix: reject variable indices out of range

---
 include/hyperjet/hyperjet.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5f09830..5f4c0ef 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_valid_index(const index i, const index size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (i < 0 || i >= size)
+                {
+                    throw std::runtime_error("Invalid index");
+                }
+            }
+            else
+            {
+                assert(0 <= i && i < size && "Invalid index");
+            }
+        }
+
         HYPERJET_INLINE void check_valid_padding(const index new_size) const
         {
             if constexpr (throw_exceptions())
@@ -664,6 +679,7 @@ namespace hyperjet
         static Type variable(const index i, const Scalar f)
         {
             static_assert(!is_dynamic());
+            check_valid_index(i, TSize);
             Type result = zero();
             result.f() = f;
             result.g(i) = 1;
@@ -674,6 +690,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_index(i, size);
                 Type result = zero(size);
                 result.f() = f;
                 result.g(i) = 1;
-- 
2.43.0


From adf398c955ac2b84ea473659c980488eb6317975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 12/32] fix: check shapes in set_hm, from_arrays and eval of
 dynamic numbers

---
 include/hyperjet/hyperjet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5f4c0ef..8d853c2 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -902,6 +902,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(value.rows(), size());
+            check_equal_size(value.cols(), size());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -952,6 +955,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(length(d), size());
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 21f15f612142d59ad6f5f44a7317d8d17fc0dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 13/32] fix: respect the exception-free configuration in hm

---
 include/hyperjet/hyperjet.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 8d853c2..ef33538 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -896,7 +896,14 @@ namespace hyperjet
             }
             else
             {
-                throw std::runtime_error("Invalid value for 'mode'");
+                if constexpr (throw_exceptions())
+                {
+                    throw std::runtime_error("Invalid value for 'mode'");
+                }
+                else
+                {
+                    assert(false && "Invalid value for 'mode'");
+                }
             }
         }
 
-- 
2.43.0


From ff3faffa82e8a3e3cdb6a53651c843a1eb659edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 14/32] fix: first order numbers have no Hessian in the Python
 module

---
 python/src/common.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..3fe57fa 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,17 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    // methods: second order derivatives
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From d89cf11cb96363f920a35c01e79bf61a1ccda2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 15/32] fix: check Hessian indices in the Python module

---
 python/src/common.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 3fe57fa..32d9bb0 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -17,6 +17,15 @@ namespace hj = hyperjet;
 namespace py = pybind11;
 using namespace py::literals;
 
+template <typename T>
+void check_hessian_index(const T &self, const hj::index row, const hj::index col)
+{
+    if (row < 0 || row >= self.size() || col < 0 || col >= self.size())
+    {
+        throw py::index_error("Invalid index");
+    }
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -97,8 +106,18 @@ auto bind(py::module &m, const std::string &name)
     if constexpr (T::order() == 2)
     {
         cls
-            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def(
+                "h", [](const T &self, const hj::index row, const hj::index col)
+                {
+                    check_hessian_index(self, row, col);
+                    return self.h(row, col); },
+                "row"_a, "col"_a)
+            .def(
+                "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
+                {
+                    check_hessian_index(self, row, col);
+                    self.set_h(row, col, value); },
+                "row"_a, "col"_a, "value"_a)
             .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
-- 
2.43.0


From 1cdfe1920e0a6aea19c058c9a552690a992bcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 16/32] fix: do not truncate values extracted from arrays that
 start with an integer

---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..951fe24 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From 567c18b43f5de35037df0eb4eda202388c0f7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 17/32] fix: reject a wrong number of values in variables of
 fixed-size numbers

---
 include/hyperjet/hyperjet.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index ef33538..69071dd 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -707,10 +707,7 @@ namespace hyperjet
         {
             const index s = length(values);
 
-            if constexpr (!is_dynamic())
-            {
-                assert(s == TSize);
-            }
+            check_valid_size(s);
 
             std::vector<Type> vars(s);
             for (index i = 0; i < s; i++)
-- 
2.43.0


From 9728618b8a450c825a143bb2092c2d71c01328ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 18/32] fix: report mismatched shapes in from_arrays as an
 error, not by assertion

---
 include/hyperjet/hyperjet.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 69071dd..c29727c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -946,8 +946,6 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
-
             Type result = empty(length(g));
 
             result.f() = f;
-- 
2.43.0


From b64efbc40a5ee281c64d29fb9c42b2ab31b2bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 19/32] fix: sign of negative zero derivatives in the text of
 sparse numbers

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c29727c..3c56a37 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2176,7 +2176,7 @@ namespace hyperjet
 
             for (const auto &d : value.m_d)
             {
-                if (d.second < 0)
+                if (std::signbit(d.second))
                     out << " " << d.second << "*d" << d.first;
                 else
                     out << " +" << d.second << "*d" << d.first;
-- 
2.43.0


From 7d8abfaf872a631f93f5f2e4b11427eadd44a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 20/32] fix: do not truncate real exponents of another floating
 point type in pow of sparse numbers

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 3c56a37..f3b7bd6 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2802,8 +2802,8 @@ namespace hyperjet
         return a.pow(b);
     }
 
-    template <typename TScalar>
-    SScalar<TScalar> pow(const SScalar<TScalar> &a, const TScalar b)
+    template <typename TScalar, typename TExponent, typename = std::enable_if_t<std::is_floating_point_v<TExponent>>>
+    SScalar<TScalar> pow(const SScalar<TScalar> &a, const TExponent b)
     {
         return a.pow(b);
     }
-- 
2.43.0


From 25b2791badc0d7cd74e1757ad0f91376a56e4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 21/32] fix: reject coefficients that do not match the size of
 a dynamic number

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index f3b7bd6..f427f35 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -386,6 +386,9 @@ namespace hyperjet
             static_assert(0 < order() && order() <= 2);
 
             static_assert(is_dynamic());
+
+            check_valid_size(size);
+            check_equal_size(length(data), data_length_from_size(size));
         }
 
         DDScalar(std::initializer_list<TScalar> data) : m_size(size_from_data_length(length(data)))
-- 
2.43.0


From 35a941a01362239bff744d9865e198229a3122e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 22/32] fix: check the length in set_adata of dynamic numbers

---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index f427f35..a6e351a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -930,6 +930,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(length(value), length(m_data));
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
-- 
2.43.0


From 77e233e88f9d68c63e5c8527ad225962e3e9d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 23/32] fix: assert that gradient indices are not negative

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index a6e351a..017a0c1 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -767,7 +767,7 @@ namespace hyperjet
 
         Scalar &g(const index i)
         {
-            assert(i < size());
+            assert(0 <= i && i < size());
 
             return m_data[1 + i];
         }
-- 
2.43.0


From 2da7cd2111deb572a47f64f3d78a1316ecbab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 24/32] fix: do not take arrays with one entry for a size

---
 python/src/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index 32d9bb0..dfefbbd 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -33,7 +33,7 @@ auto bind(py::module &m, const std::string &name)
 
     // constructor
     cls
-        .def(py::init(py::overload_cast<typename T::Scalar, hj::index>(&T::constant)), "f"_a = 0, "size"_a)
+        .def(py::init(py::overload_cast<typename T::Scalar, hj::index>(&T::constant)), "f"_a = 0, "size"_a.noconvert())
         .def(py::init(py::overload_cast<const typename T::Data &>(&T::create)), "data"_a)
         .def(py::init(py::overload_cast<typename T::Scalar>(&T::constant)), "f"_a = 0);
 
-- 
2.43.0


From 425efaca42ab2b812be2ae7b428ffde4257fb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 25/32] fix: keep the storage in multiplication and division by
 the number itself

---
 include/hyperjet/hyperjet.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 017a0c1..a9678cc 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1199,7 +1199,8 @@ namespace hyperjet
 
             if (this == &b)
             {
-                return *this = *this * b;
+                const Type other = b;
+                return *this *= other;
             }
 
             const Data a_m_data = m_data;
@@ -1295,7 +1296,8 @@ namespace hyperjet
 
             if (this == &b)
             {
-                return *this = *this / b;
+                const Type other = b;
+                return *this /= other;
             }
 
             const Data a_m_data = m_data;
@@ -2329,7 +2331,8 @@ namespace hyperjet
         {
             if (this == &b)
             {
-                return *this = *this * b;
+                const Type other = b;
+                return *this *= other;
             }
 
             const Scalar da = b.m_f;
@@ -2392,7 +2395,8 @@ namespace hyperjet
 
             if (this == &b)
             {
-                return *this = *this / b;
+                const Type other = b;
+                return *this /= other;
             }
 
             const auto da = 1 / b.m_f;
-- 
2.43.0


From 7b10ea8bbc059514bc1c58ac4ec5625ca4e36189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 26/32] fix: two dimensions for the Hessian of one variable in
 Python

---
 python/src/common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index dfefbbd..83d180a 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -118,7 +118,10 @@ auto bind(py::module &m, const std::string &name)
                     check_hessian_index(self, row, col);
                     self.set_h(row, col, value); },
                 "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string mode) -> Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic>
+                { return self.hm(mode); },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 6fefeb4bd761f5805553760bd2865f80e0af1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 27/32] fix: derivatives of arrays that mix plain numbers and
 numbers

---
 python/src/main.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 951fe24..863b723 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -63,8 +63,25 @@ PYBIND11_MODULE(hyperjet, m)
         global["np"] = numpy;
 
         m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
-        m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
-        m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
+
+        // derivatives of an array of numbers. The derivatives of plain numbers are zero.
+        py::exec(R"(
+def derivatives(rank, of):
+    def extract(values):
+        values = np.asarray(values, dtype=object)
+        items = [of(v) for v in values.flat]
+        sizes = {len(item) for item in items if item is not None}
+        if len(sizes) > 1:
+            raise ValueError('Incompatible size')
+        results = np.zeros(values.shape + tuple(sizes or {0}) * rank)
+        for i, item in zip(np.ndindex(values.shape), items):
+            results[i] = 0 if item is None else item
+        return results
+    return extract
+)",
+                 global);
+        m.attr("d") = py::eval("derivatives(1, lambda v: v.g if hasattr(v, 'g') else np.zeros((0)) if hasattr(v, 'f') else None)", global);
+        m.attr("dd") = py::eval("derivatives(2, lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)) if hasattr(v, 'f') else None)", global);
 
         m.def(
             "variables", [](const std::vector<double> &values, const hj::index order)
-- 
2.43.0


From 830fddaff022d3a965ca37c1c84d5cbb344de495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 28/32] fix: keep the size when resizing fails

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index a9678cc..03d5b21 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -463,9 +463,9 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
             check_valid_size(size);
-            m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
+            m_size = size;
         }
 
         Type pad_left(const index new_size) const
-- 
2.43.0


From 3b4b4609446f20b0e5486f4fd282f0caf9cbc03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 29/32] fix: reject sizes whose number of coefficients
 overflows

---
 include/hyperjet/hyperjet.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 03d5b21..2affce5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -4,7 +4,9 @@
 #include <assert.h>         // assert
 #include <cmath>            // acos, acosh, asin, asinh, atan, atanh, atan2, cbrt, cos, cosh, exp, hypot, log, log2, log10, pow, sin, sinh, sqrt, tan, tanh
 #include <cstddef>          // ptrdiff_t
+#include <cstdint>          // int32_t
 #include <initializer_list> // initializer_list
+#include <limits>           // numeric_limits
 #include <ostream>          // ostream
 #include <sstream>          // stringstream
 #include <string>           // string
@@ -98,6 +100,21 @@ namespace hyperjet
                 {
                     assert(size >= 0 && "Negative size");
                 }
+
+                // the number of coefficients of a second order number has to be representable
+                constexpr index max_size = TOrder == 1 ? std::numeric_limits<index>::max() - 1 : std::numeric_limits<std::int32_t>::max();
+
+                if constexpr (throw_exceptions())
+                {
+                    if (size > max_size)
+                    {
+                        throw std::runtime_error("Size too large");
+                    }
+                }
+                else
+                {
+                    assert(size <= max_size && "Size too large");
+                }
             }
             else
             {
-- 
2.43.0


From 1c28226ff2a4d4011dc4a28daa6191c33e9aa771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 30/32] fix: assert that first-order numbers have no second
 derivatives

---
 include/hyperjet/hyperjet.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2affce5..7950c8d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -803,6 +803,7 @@ namespace hyperjet
 
         Scalar &h(const index i)
         {
+            assert(order() == 2 && "No second derivatives");
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -810,6 +811,7 @@ namespace hyperjet
 
         Scalar h(const index i) const
         {
+            assert(order() == 2 && "No second derivatives");
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -822,6 +824,7 @@ namespace hyperjet
 
         Scalar &h(const index i, const index j)
         {
+            assert(order() == 2 && "No second derivatives");
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
@@ -837,6 +840,7 @@ namespace hyperjet
 
         Scalar h(const index i, const index j) const
         {
+            assert(order() == 2 && "No second derivatives");
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
-- 
2.43.0


From 50275ede2766414760d353713086514bbb9d618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 31/32] fix: check the shape of the matrix in hm

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7950c8d..72cd84a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -885,6 +885,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(out.rows(), size());
+            check_equal_size(out.cols(), size());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 25b00053be9e6ceb08e69e441fed5dd44a9cd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 32/32] fix: extended precision in the derivatives of log2 and
 log10

The logarithm of the integer base was computed in double precision.
---
 include/hyperjet/hyperjet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 72cd84a..b4ea66c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1731,7 +1731,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log2(this->f());
-            const auto da = 1 / (this->f() * log(2));
+            const auto da = 1 / (this->f() * log(Scalar(2)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -1747,7 +1747,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log10(this->f());
-            const auto da = 1 / (this->f() * log(10));
+            const auto da = 1 / (this->f() * log(Scalar(10)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -2703,7 +2703,7 @@ namespace hyperjet
             using std::log2;
 
             const auto f = log2(m_f);
-            const auto da = 1 / (m_f * log(2));
+            const auto da = 1 / (m_f * log(Scalar(2)));
 
             return Type(f, unary(m_d, da));
         }
@@ -2714,7 +2714,7 @@ namespace hyperjet
             using std::log10;
 
             const auto f = log10(m_f);
-            const auto da = 1 / (m_f * log(10));
+            const auto da = 1 / (m_f * log(Scalar(10)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0

