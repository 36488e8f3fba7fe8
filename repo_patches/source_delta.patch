From d0e70369fa284bd8327252c849bc470910aeda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 001/110] fix: give Python owned copies of algebra coefficients

__getitem__ and the items produced by iteration referred to the storage of
the algebra (and items to the shared iterator), so that they dangled once the
algebra was changed or released.
---
 roughpy/src/algebra/algebra_iterator.cpp | 10 ++++++----
 roughpy/src/algebra/algebra_iterator.h   | 15 +++++++++++++++
 roughpy/src/algebra/free_tensor.cpp      |  6 ++++--
 roughpy/src/algebra/lie.cpp              |  6 ++++--
 roughpy/src/algebra/setup_algebra_type.h | 17 ++++++++++-------
 roughpy/src/algebra/shuffle_tensor.cpp   |  6 ++++--
 6 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/roughpy/src/algebra/algebra_iterator.cpp b/roughpy/src/algebra/algebra_iterator.cpp
index f553e5f..0400150 100644
--- a/roughpy/src/algebra/algebra_iterator.cpp
+++ b/roughpy/src/algebra/algebra_iterator.cpp
@@ -48,12 +48,14 @@ template <typename Algebra, typename KeyType>
 static void init_iterator(py::module_& m, const char* iter_name)
 {
 
-    py::class_<AlgebraIteratorItem<Algebra>> klass(m, iter_name);
+    py::class_<python::AlgebraItem<Algebra>> klass(m, iter_name);
 
-    klass.def("key", [](const AlgebraIteratorItem<Algebra>& item) {
-        return KeyType(item.basis(), item.key());
+    klass.def("key", [](const python::AlgebraItem<Algebra>& item) {
+        return KeyType(item.basis, item.key);
+    });
+    klass.def("value", [](const python::AlgebraItem<Algebra>& item) {
+        return scalars::Scalar(item.value);
     });
-    klass.def("value", &AlgebraIteratorItem<Algebra>::value);
 }
 
 #define MAKE_ITERATOR_TYPE(ALG, KEY)                                           \
diff --git a/roughpy/src/algebra/algebra_iterator.h b/roughpy/src/algebra/algebra_iterator.h
index 28545f9..416bd84 100644
--- a/roughpy/src/algebra/algebra_iterator.h
+++ b/roughpy/src/algebra/algebra_iterator.h
@@ -35,9 +35,24 @@
 
 #include "roughpy_module.h"
 
+#include <roughpy/scalars/scalar.h>
+
 namespace rpy {
 namespace python {
 
+/**
+ * @brief Item produced by iterating over an algebra in Python.
+ *
+ * The item owns its value, so it is independent of both the algebra and the
+ * iterator from which it was obtained.
+ */
+template <typename Algebra>
+struct AlgebraItem {
+    typename Algebra::basis_type basis;
+    typename Algebra::key_type key;
+    scalars::Scalar value;
+};
+
 void init_algebra_iterator(py::module_& m);
 
 }
diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index 3de0545..cb9bceb 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -174,10 +174,12 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        return self[key];
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const auto value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("exp", &FreeTensor::exp, "Computes the truncated exponential of a :class:`~FreeTensor` instance.");
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index eedb20e..d102482 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -166,10 +166,12 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        return self[key];
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             return self[static_cast<key_type>(lkey)];
+             const auto value = self[static_cast<key_type>(lkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("__repr__", [](const Lie& self) {
diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index a8e3de5..723ffa4 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -48,6 +48,7 @@ RPY_MSVC_DISABLE_WARNING(4661)
 #include <roughpy/scalars/scalar.h>
 
 #include "args/numpy.h"
+#include "algebra_iterator.h"
 #include "context.h"
 #include "scalars/scalar_type.h"
 
@@ -98,13 +99,15 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def("is_zero", &Alg::is_zero, "Bool, checks if empty, i.e. all coefficients are zero.");
     // TODO: Add access and iteration methods
 
-    klass.def(
-            "__iter__",
-            [](const Alg& self) {
-                return py::make_iterator(self.begin(), self.end());
-            },
-            py::keep_alive<0, 1>()
-    );
+    klass.def("__iter__", [](const Alg& self) -> py::object {
+        py::list items;
+        for (auto&& item : self) {
+            const auto value = item.value();
+            items.append(AlgebraItem<Alg>{
+                    item.basis(), item.key(), scalars::Scalar(value)});
+        }
+        return py::iter(items);
+    });
 
     // setup arithmetic
     klass.def("__neg__", &Alg::uminus, py::is_operator());
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index c53a22b..3dbd4fd 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -198,10 +198,12 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        return self[key];
+        const auto value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const auto value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
 
-- 
2.43.0


From b68bd5ba4bc33225bafc911c2b4fd1cbed4af4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 002/110] fix: divide by a Scalar instead of multiplying in
 Algebra.__truediv__

---
 roughpy/src/algebra/setup_algebra_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index 723ffa4..c45af67 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -115,7 +115,7 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def("__add__", &Alg::add, py::is_operator());
     klass.def("__sub__", &Alg::sub, py::is_operator());
     klass.def("__mul__", &Alg::smul, py::is_operator());
-    klass.def("__truediv__", &Alg::smul, py::is_operator());
+    klass.def("__truediv__", &Alg::sdiv, py::is_operator());
     klass.def("__mul__", &Alg::mul, py::is_operator());
     klass.def(
             "__rmul__",
-- 
2.43.0


From 0bc17faf08eb65f3865730ed0e0701ebb21a7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 003/110] fix: let Scalar * algebra reach the algebra's
 __rmul__

---
 roughpy/src/scalars/scalars.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5532c19..c7e02b6 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -164,15 +164,17 @@ void python::init_scalars(pybind11::module_& m)
         return self -= Scalar(other);
     });
 
+    // These are operators, so that NotImplemented is returned for operands that
+    // know how to be multiplied by a scalar (__rmul__).
     klass.def("__mul__", [](const Scalar& self, const Scalar& other) {
         return self * other;
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, scalar_t other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, long long other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) * self;
     });
-- 
2.43.0


From c35d39ba99fe0f568fd5d6113db6e821264a343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 004/110] fix: compute the adjoint of left free multiplication
 from the right words

tensor_basis::parents returned a wrong suffix below the first letter, the
dense/sparse adjoint read the argument at the wrong degree and left the
result's degree unset, and sparse results were never accumulated.
---
 vendored/libalgebra_lite/free_tensor.h  | 13 +++++++++----
 vendored/libalgebra_lite/tensor_basis.h |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..13789ba 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -971,7 +971,7 @@ private:
             const auto& val = pr.value();
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -987,8 +987,10 @@ private:
         const auto& basis = result.basis();
         const auto& powers = basis.powers();
 
+        if (arg.empty()) { return; }
+
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1000,7 +1002,8 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr() + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
@@ -1022,10 +1025,12 @@ private:
         const auto* sizes = basis.sizes().data();
         const auto* powers = basis.powers().data();
 
+        if (arg.empty() || mul.empty()) { return; }
+
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From 52b7c84b3dba1f93423bdc4d844e95fcb36907cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:34 +0000
Subject: [PATCH 005/110] fix: type the adjoint of left multiplication by its
 argument

The result lives in the argument's algebra; wrapping it in the class of the
multiplier gave a ShuffleTensor that multiplied freely and the reverse.
---
 roughpy/src/algebra/free_multiply_funcs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index f43ae4c..712fe5d 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -186,26 +186,28 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
     algebra::context_pointer ctx;
     if (py::isinstance<algebra::FreeTensor>(multiplier)) {
         const auto& left_real = multiplier.cast<const algebra::FreeTensor&>();
-        result_alg_type = algebra::AlgebraType::FreeTensor;
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::FreeTensor;
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
                                      "FreeTensor or ShuffleTensor");
         }
     } else if (py::isinstance<algebra::ShuffleTensor>(multiplier)) {
-        result_alg_type = algebra::AlgebraType::ShuffleTensor;
         const auto& left_real = multiplier.cast<const
                 algebra::ShuffleTensor&>();
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::FreeTensor;
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
-- 
2.43.0


From 5a7618b647adbef5c0fe7bfb294ba8f586250c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 006/110] fix: convert Lie keys to the basis element they spell

Composite keys were looked up from the wrong nodes and silently became another
element; letters outside the alphabet and unbounded nesting are rejected.
---
 roughpy/src/algebra/lie_key.cpp | 70 +++++++++++++++++++--------------
 roughpy/src/algebra/lie_key.h   |  2 +-
 2 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index 12a0a8e..989e50d 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -302,7 +302,7 @@ class ToLieKeyHelper
     RPY_MAYBE_UNUSED dimn_t current;
     algebra::LieBasis basis;
     deg_t width;
-    let_t max_letter = 0;
+    deg_t nesting = 0;
 
 public:
     explicit ToLieKeyHelper(algebra::LieBasis b, deg_t w)
@@ -310,6 +310,13 @@ public:
           basis(std::move(b)), width(w)
     {}
 
+    void check_letter(let_t letter) const
+    {
+        if (letter < 1 || letter > static_cast<let_t>(width)) {
+            RPY_THROW(py::value_error, "letter is not in the alphabet");
+        }
+    }
+
     container_type parse_list(const py::handle& obj)
     {
         if (py::len(obj) != 2) {
@@ -330,8 +337,7 @@ public:
         if (py::isinstance<py::list>(obj)) { return parse_list(obj); }
         if (py::isinstance<py::int_>(obj)) {
             auto as_let = obj.cast<let_t>();
-            if (basis)
-                if (as_let > max_letter) { max_letter = as_let; }
+            check_letter(as_let);
             return container_type{python::PyLieLetter::from_letter(as_let)};
         }
         RPY_THROW(py::type_error, "items must be either int or lists");
@@ -339,9 +345,15 @@ public:
 
     container_type parse_pair(const py::handle& left, const py::handle& right)
     {
+        // a bracket nested this deeply cannot be in the basis
+        if (nesting >= basis.depth()) {
+            RPY_THROW(py::value_error, "bracket is nested too deeply");
+        }
+        ++nesting;
 
         auto left_tree = parse_single(left);
         auto right_tree = parse_single(right);
+        --nesting;
 
         container_type result;
         dimn_t left_size;
@@ -382,16 +394,6 @@ public:
         return parse_pair(obj[py::int_(0)], obj[py::int_(1)]);
     }
 
-    deg_t get_width()
-    {
-        if (width != 0 && max_letter > width) {
-            RPY_THROW(py::value_error, "a letter exceeds the width");
-        } else {
-            width = max_letter;
-        }
-        return width;
-    }
-
     algebra::LieBasis get_basis() const {
         RPY_CHECK(basis);
 
@@ -435,7 +437,7 @@ make_lie_key(const py::args& args, const py::kwargs& kwargs)
 
     if (py::isinstance<py::int_>(args[0])) {
         auto letter = args[0].cast<let_t>();
-        if (letter > width) {
+        if (letter < 1 || letter > static_cast<let_t>(width)) {
             RPY_THROW(py::value_error, "letter exceeds width");
         }
         return python::PyLieKey(std::move(basis), letter);
@@ -476,37 +478,45 @@ python::parse_lie_key(const algebra::LieBasis& basis, const py::args& args, cons
 
 namespace {
 
-optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const python::PyLieLetter* base) noexcept
+optional<key_type> to_internal_key_pair(const algebra::LieBasis& basis, const python::PyLieLetter* pair);
+
+optional<key_type> to_internal_key_single(const algebra::LieBasis& basis, const python::PyLieLetter* node)
 {
-    if (!base->is_offset()) {
-        return static_cast<key_type>(*base);
+    if (node->is_offset()) {
+        return to_internal_key_pair(basis, node + static_cast<dimn_t>(*node));
     }
 
-    optional<key_type> result;
+    const auto letter = static_cast<let_t>(*node);
+    if (letter < 1 || letter > static_cast<let_t>(basis.width())) {
+        return {};
+    }
+    return basis.key_of_letter(letter);
+}
 
-    auto left = to_internal_key_recurse(basis, base + static_cast<dimn_t>(*base));
-    auto right = to_internal_key_recurse(basis, ++base);
+optional<key_type> to_internal_key_pair(const algebra::LieBasis& basis, const python::PyLieLetter* pair)
+{
+    const auto left = to_internal_key_single(basis, pair);
+    const auto right = to_internal_key_single(basis, pair + 1);
 
+    optional<key_type> result;
     if (left && right) {
         result = basis.child(*left, *right);
     }
-
     return result;
 }
 
 }
 
 
-python::PyLieKey::operator key_type() const noexcept {
-    if (m_data.size() == 1) {
-        return static_cast<key_type>(m_data[0]);
-    }
+python::PyLieKey::operator key_type() const {
+    const auto key = m_data.size() == 1
+            ? to_internal_key_single(m_basis, m_data.data())
+            : to_internal_key_pair(m_basis, m_data.data());
 
-    auto combined = to_internal_key_recurse(m_basis, m_data.data());
-
-    if (combined) {
-        return *combined;
+    if (!key) {
+        RPY_THROW(py::value_error,
+                  to_string() + " is not an element of the Hall basis");
     }
 
-    return 0;
+    return *key;
 }
diff --git a/roughpy/src/algebra/lie_key.h b/roughpy/src/algebra/lie_key.h
index 1e5d704..b086eab 100644
--- a/roughpy/src/algebra/lie_key.h
+++ b/roughpy/src/algebra/lie_key.h
@@ -76,7 +76,7 @@ public:
 
     bool equals(const PyLieKey& other) const noexcept;
 
-    explicit operator key_type() const noexcept;
+    explicit operator key_type() const;
 };
 
 PyLieKey
-- 
2.43.0


From d22e18cdd2c1f4a7664ac7df8e5c8801eb45fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 007/110] fix: split tensor keys at letters, reject letter 0
 and width 1 division by zero

---
 roughpy/src/algebra/tensor_key.cpp | 34 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 26e5af2..dbd25fa 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -88,22 +88,26 @@ python::PyTensorKey::split_n(deg_t n) const
     if (n <= 0) {
         return std::make_pair(*this,PyTensorKey(m_basis, 0));
     }
-    if (n >= m_basis.depth()) {
+    const auto letters = to_letters();
+    const auto degree = static_cast<deg_t>(letters.size());
+    if (n >= degree) {
         return std::make_pair(PyTensorKey(m_basis, 0), *this);
     }
 
-    auto width = m_basis.width();
-    //TODO: needs better implementation
-    key_type shift = 1;
-    for (deg_t i=0; i<n; ++i) {
-        shift *= width;
+    // The right hand word consists of the last n letters
+    const auto width = static_cast<key_type>(m_basis.width());
+    key_type left = 0;
+    for (deg_t i = 0; i < degree - n; ++i) {
+        left = left * width + letters[i];
+    }
+    key_type right = 0;
+    for (deg_t i = degree - n; i < degree; ++i) {
+        right = right * width + letters[i];
     }
-    auto left = (m_key - 1) / shift;
-    auto right = 1 + ((m_key - 1) % shift);
 
     return std::make_pair(PyTensorKey(m_basis, left), PyTensorKey(m_basis, right));
-
 }
+
 bool python::PyTensorKey::is_letter() const
 {
     return 1 <= m_key && m_key <= static_cast<key_type>(m_basis.width());
@@ -152,14 +156,12 @@ construct_key(const py::args& args, const py::kwargs& kwargs)
         auto depth = kwargs["depth"].cast<deg_t>();
         auto index = kwargs["index"].cast<key_type>();
 
-        auto max_idx = (python::maths::power(dimn_t(width), depth + 1) - 1)
-                / (dimn_t(width) - 1);
-        if (index >= max_idx) {
+        auto ctx = algebra::get_context(width, depth,
+                                        *scalars::ScalarType::of<float>());
+        if (index >= static_cast<key_type>(ctx->tensor_size(depth))) {
             RPY_THROW(py::value_error, "provided index exceeds maximum");
         }
 
-        auto ctx = algebra::get_context(width, depth,
-                                        *scalars::ScalarType::of<float>());
         return python::PyTensorKey(ctx->get_tensor_basis(), index);
     }
 
@@ -187,6 +189,10 @@ construct_key(const py::args& args, const py::kwargs& kwargs)
         RPY_THROW(py::value_error, "number of letters exceeds specified depth");
     }
 
+    if (std::find(letters.begin(), letters.end(), 0) != letters.end()) {
+        RPY_THROW(py::value_error, "letters are numbered from 1");
+    }
+
     if (!letters.empty() && *max_elt > width) {
         RPY_THROW(py::value_error, "letter value exceeds alphabet size");
     }
-- 
2.43.0


From e30bdff8ce872e37181d2521ff4a056d2fcd62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 008/110] fix: use the key given to Basis.key_to_index and
 Basis.parents, check index, default size degree

---
 roughpy/src/algebra/basis.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/algebra/basis.cpp b/roughpy/src/algebra/basis.cpp
index dc3e301..de32afa 100644
--- a/roughpy/src/algebra/basis.cpp
+++ b/roughpy/src/algebra/basis.cpp
@@ -64,6 +64,9 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     basis.def(
             "index_to_key",
             [](const T& self, dimn_t index) {
+                if (index >= self.dimension()) {
+                    throw py::index_error("index exceeds basis dimension");
+                }
                 return K(self, self.index_to_key(index));
             },
             "index"_a,
@@ -71,8 +74,8 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     );
     basis.def(
             "key_to_index",
-            [](const T& self, const python::PyLieKey& key) {
-                return self.key_to_index(0);
+            [](const T& self, const K& key) {
+                return self.key_to_index(static_cast<key_type>(key));
             },
             "key"_a,
             "Takes a :py:attr:`key` and returns an integer corresponding to the index."
@@ -80,11 +83,13 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 
     basis.def(
             "parents",
-            [](const T& self, const K& key) { return self.parents(0); },
+            [](const T& self, const K& key) {
+                return self.parents(static_cast<key_type>(key));
+            },
             "key"_a,
             "Splits off the first letter and returns the letter and the remainder of the word."
     );
-    basis.def("size", [](const T& basis, deg_t degree = -1) {
+    basis.def("size", [](const T& basis, deg_t degree) {
         if (degree < 0) {
             degree = basis.depth();
         } else if (degree > basis.depth()) {
@@ -95,7 +100,7 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
         }
 
         return basis.size(degree);
-    }, "How big the dimension will be at a particular degree.");
+    }, "degree"_a = -1, "How big the dimension will be at a particular degree.");
 
     basis.def("__iter__", [](const T& self) { return KIter(self); });
 
-- 
2.43.0


From 6ea14e38d944f204dba32d5ba99439f4a6c01efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 009/110] fix: build keyed elements from keys of the basis

Lie keys start at 1 but were used as positions starting at 0, and keys beyond
the target basis were written anyway; Lie elements now accept LieKey keys.
---
 algebra/src/lite_context.h  | 25 ++++++++++++++++++++++---
 roughpy/src/algebra/lie.cpp | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..5d0fbf4 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -446,18 +446,29 @@ OutType LiteContext<Coefficients>::construct_impl(
         const std::shared_ptr<const typename OutType::multiplication_type>& mul
 ) const
 {
+    using basis_info = BasisInfo<
+            conditional_t<
+                    is_same_v<typename OutType::basis_type, lal::hall_basis>,
+                    LieBasis,
+                    TensorBasis>,
+            typename OutType::basis_type>;
+
     OutType result(basis, mul);
 
     if (data.data.is_null()) { return result; }
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto dimension = static_cast<dimn_t>(basis->size(-1));
+    // Keyed data may come in any order, so only dense data is cut to size
+    const auto size = data.data.has_keys()
+            ? data.data.size()
+            : std::min(data.data.size(), dimension);
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
         tmp.resize(data.data.size());
-        scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
+        scalars::ScalarArray tmp_sa(this_type, tmp.data(), tmp.size());
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
     } else {
@@ -467,9 +478,17 @@ OutType LiteContext<Coefficients>::construct_impl(
     if (data.data.has_keys()) {
         // Sparse data
         const auto* keys = data.data.keys();
+        const auto* raw_basis = &*basis;
+        const auto first_key
+                = basis_info::convert_from_impl(raw_basis, basis->index_to_key(0));
 
         for (dimn_t i = 0; i < size; ++i) {
-            result[basis->index_to_key(keys[i])] = raw_data[i];
+            // keys outside of this basis are truncated
+            if (keys[i] < first_key || keys[i] - first_key >= dimension) {
+                continue;
+            }
+            result[basis_info::convert_to_impl(raw_basis, keys[i])]
+                    = raw_data[i];
         }
 
     } else {
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index d102482..6a1b531 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -112,8 +112,15 @@ static Lie construct_lie(py::object data, py::kwargs kwargs)
 {
     auto helper = python::kwargs_to_construction_data(kwargs);
 
+    auto py_key_type = py::type::of<python::PyLieKey>();
+    python::AlternativeKeyType alt{
+            py_key_type, [](py::handle py_key) -> key_type {
+                return static_cast<key_type>(py_key.cast<python::PyLieKey>());
+            }};
+
     python::DataArgOptions options;
     options.scalar_type = helper.ctype;
+    options.alternative_key = &alt;
     options.allow_scalar = false;
     options.max_nested = 1;
 
@@ -154,6 +161,28 @@ static Lie construct_lie(py::object data, py::kwargs kwargs)
     return result;
 }
 
+/// Reject keys that do not belong to the basis of the element
+static key_type checked_key(const Lie& self, key_type key)
+{
+    const auto ctx = self.context();
+    if (ctx) {
+        const auto dimension = static_cast<key_type>(ctx->lie_size(ctx->depth()));
+        if (key < 1 || key > dimension) {
+            throw py::index_error("key is not in the basis");
+        }
+    }
+    return key;
+}
+
+static key_type checked_key(const Lie& self, const python::PyLieKey& key)
+{
+    const auto ctx = self.context();
+    if (ctx && ctx->width() != key.width()) {
+        RPY_THROW(py::value_error, "key has a different width");
+    }
+    return checked_key(self, static_cast<key_type>(key));
+}
+
 void python::init_lie(py::module_& m)
 {
 
@@ -166,11 +195,11 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        const auto value = self[key];
+        const auto value = self[checked_key(self, key)];
         return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             const auto value = self[static_cast<key_type>(lkey)];
+             const auto value = self[checked_key(self, lkey)];
              return scalars::Scalar(value);
          });
 
-- 
2.43.0


From 0d333e5870b0e46bb4274aee446a2a3c11e16c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 010/110] fix: do not read coefficients outside the stored
 range of a dense vector

---
 roughpy/src/algebra/free_tensor.cpp     | 26 +++++++++++++++++++++++--
 roughpy/src/algebra/shuffle_tensor.cpp  | 26 +++++++++++++++++++++++--
 vendored/libalgebra_lite/dense_vector.h |  5 ++++-
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index cb9bceb..e08bb8d 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -162,6 +162,28 @@ static FreeTensor construct_free_tensor(py::object data, py::kwargs kwargs)
     return result;
 }
 
+/// Reject keys that do not belong to the basis of the element
+static key_type checked_key(const FreeTensor& self, key_type key)
+{
+    const auto ctx = self.context();
+    if (ctx) {
+        const auto dimension = static_cast<key_type>(ctx->tensor_size(ctx->depth()));
+        if (key >= dimension) {
+            throw py::index_error("key is not in the basis");
+        }
+    }
+    return key;
+}
+
+static key_type checked_key(const FreeTensor& self, const python::PyTensorKey& key)
+{
+    const auto ctx = self.context();
+    if (ctx && ctx->width() != key.width()) {
+        RPY_THROW(py::value_error, "key has a different width");
+    }
+    return checked_key(self, static_cast<key_type>(key));
+}
+
 void python::init_free_tensor(py::module_& m)
 {
 
@@ -174,11 +196,11 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        const auto value = self[key];
+        const auto value = self[checked_key(self, key)];
         return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             const auto value = self[static_cast<key_type>(tkey)];
+             const auto value = self[checked_key(self, tkey)];
              return scalars::Scalar(value);
          });
 
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index 3dbd4fd..a258baf 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -188,6 +188,28 @@ static ShuffleTensor construct_shuffle(py::object data, py::kwargs kwargs)
     return result;
 }
 
+/// Reject keys that do not belong to the basis of the element
+static key_type checked_key(const ShuffleTensor& self, key_type key)
+{
+    const auto ctx = self.context();
+    if (ctx) {
+        const auto dimension = static_cast<key_type>(ctx->tensor_size(ctx->depth()));
+        if (key >= dimension) {
+            throw py::index_error("key is not in the basis");
+        }
+    }
+    return key;
+}
+
+static key_type checked_key(const ShuffleTensor& self, const python::PyTensorKey& key)
+{
+    const auto ctx = self.context();
+    if (ctx && ctx->width() != key.width()) {
+        RPY_THROW(py::value_error, "key has a different width");
+    }
+    return checked_key(self, static_cast<key_type>(key));
+}
+
 void rpy::python::init_shuffle_tensor(py::module_& m)
 {
     py::options options;
@@ -198,11 +220,11 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        const auto value = self[key];
+        const auto value = self[checked_key(self, key)];
         return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             const auto value = self[static_cast<key_type>(tkey)];
+             const auto value = self[checked_key(self, tkey)];
              return scalars::Scalar(value);
          });
 
diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..1abdc4b 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,10 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        auto key = p_basis->key_to_index(idx);
+        // coefficients beyond the stored range are zero
+        if (key >= m_storage.size()) { return Coefficients::zero(); }
+        return m_storage[key];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From b47d4369cf5e434894b889a243d29a74f495042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:37 +0000
Subject: [PATCH 011/110] fix: let tensor_functions.Log reduce an empty tensor
 product

---
 roughpy/tensor_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/roughpy/tensor_functions.py b/roughpy/tensor_functions.py
index d404fb8..b51c0d8 100644
--- a/roughpy/tensor_functions.py
+++ b/roughpy/tensor_functions.py
@@ -209,6 +209,10 @@ def _concatenate(a: TensorTensorProduct, otype=rp.FreeTensor):
     for (l, r), v in a.data.items():
         data[l * r] += v
 
+    if not data:
+        # noinspection PyArgumentList
+        return otype(ctx=a.ctx)
+
     # noinspection PyArgumentList
     result = otype(data, ctx=a.ctx)
     return result
-- 
2.43.0


From 013c08855c83099dccd86cc29ceedf0d18fb7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:24 +0000
Subject: [PATCH 012/110] fix: do not let exceptions or bad arguments in
 Context methods end the process

---
 roughpy/src/algebra/context.cpp | 146 ++++++++++++++++++++------------
 1 file changed, 91 insertions(+), 55 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 9ba2bcc..f3a07ca 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -43,6 +43,28 @@ using namespace pybind11::literals;
 using rpy::python::ctx_cast;
 using rpy::python::RPyContext;
 
+namespace {
+
+/// Methods here are called from C, so no C++ exception may leave them
+template <typename Fn>
+PyObject* guarded(Fn&& fn) noexcept
+{
+    try {
+        return fn();
+    } catch (py::error_already_set& exc) {
+        exc.restore();
+    } catch (py::builtin_exception& exc) {
+        exc.set_error();
+    } catch (std::invalid_argument& exc) {
+        PyErr_SetString(PyExc_ValueError, exc.what());
+    } catch (std::exception& exc) {
+        PyErr_SetString(PyExc_RuntimeError, exc.what());
+    }
+    return nullptr;
+}
+
+}// namespace
+
 extern "C" {
 
 static const char* lie_size_DOC = R"rpydoc(A shortcut for :py:meth:`lie_basis.size`. )rpydoc";
@@ -135,27 +157,34 @@ RPyContext_cbh(PyObject* self, PyObject* args, PyObject* kwargs)
     }
 
     const auto num_lies = PySequence_Size(py_lies);
-    std::vector<Lie> lies;
-    lies.reserve(num_lies);
+    if (num_lies < 0) { return nullptr; }
+
+    return guarded([&] {
+        std::vector<Lie> lies;
+        lies.reserve(num_lies);
+
+        // Keep the items alive while their data is borrowed
+        std::vector<py::object> items;
+        items.reserve(num_lies);
+
+        for (Py_ssize_t i = 0; i < num_lies; ++i) {
+            auto py_lie = py::reinterpret_steal<py::object>(
+                    PySequence_GetItem(py_lies, i)
+            );
+            if (!py_lie) { throw py::error_already_set(); }
+            lies.push_back(py_lie.cast<Lie&>().borrow_mut());
+            items.push_back(std::move(py_lie));
+        }
 
-    for (Py_ssize_t i = 0; i < num_lies; ++i) {
-        py::handle py_lie(PySequence_ITEM(py_lies, i));
-        lies.push_back(py_lie.cast<Lie&>().borrow_mut());
-    }
+        VectorType vtp = VectorType::Sparse;
+        if (vtype != nullptr) { vtp = py::handle(vtype).cast<VectorType>(); }
 
-    if (lies.empty()) {
-        if (vtype == nullptr) {
-            return python::cast_to_object(ctx->zero_lie(VectorType::Sparse));
+        if (lies.empty()) {
+            return python::cast_to_object(ctx->zero_lie(vtp));
         }
-        return python::cast_to_object(
-                ctx->zero_lie(py::handle(vtype).cast<VectorType>())
-        );
-    }
 
-    VectorType vtp = VectorType::Sparse;
-    if (vtype != nullptr) { vtp = py::handle(vtype).cast<VectorType>(); }
-
-    return python::cast_to_object(ctx->cbh(lies, vtp));
+        return python::cast_to_object(ctx->cbh(lies, vtp));
+    });
 }
 static const char* compute_signature_DOC = R"rpydoc(Computes the :py:attr:`~signature` of a :class:`~Stream`.)rpydoc";
 static PyObject*
@@ -164,50 +193,42 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
     static const char* kwords[] = {"data", "vtype", nullptr};
     const auto& ctx = ctx_cast(self);
 
-    py::handle py_data;
-    py::handle py_vtype;
+    PyObject* data_arg = nullptr;
+    PyObject* vtype_arg = nullptr;
 
     if (!PyArg_ParseTupleAndKeywords(
                 args,
                 kwargs,
                 "O|O!",
                 const_cast<char**>(kwords),
-                py_data.ptr(),
+                &data_arg,
                 py::type::of<VectorType>().ptr(),
-                py_vtype.ptr()
+                &vtype_arg
         )) {
         return nullptr;
     }
+    const py::handle py_data(data_arg);
+    const py::handle py_vtype(vtype_arg);
 
-    python::DataArgOptions options;
-    options.allow_scalar = false;
-    options.max_nested = 2;
-    options.scalar_type = ctx->ctype();
-
-    python::ParsedData parsed_data;
+    return guarded([&] {
+        python::DataArgOptions options;
+        options.allow_scalar = false;
+        options.max_nested = 2;
+        options.scalar_type = ctx->ctype();
 
-    SignatureData request;
-    try {
-        parsed_data = python::parse_data_argument(py_data, options);
+        SignatureData request;
+        auto parsed_data = python::parse_data_argument(py_data, options);
         parsed_data.fill_ks_stream(request.data_stream);
-    } catch (std::exception& exc) {
-        PyErr_SetString(PyExc_RuntimeError, exc.what());
-        return nullptr;
-    }
-
-    if (parsed_data.size() == 0) {
-        auto result = ctx->zero_free_tensor(request.vector_type);
-    }
-
-    request.vector_type = VectorType::Sparse;
-    if (py_vtype) {
-        request.vector_type = py_vtype.cast<VectorType>();
-    } else if (parsed_data.size() == 1 && parsed_data.front().value_type == python::ValueType::Value) {
-        request.vector_type = VectorType::Dense;
-    }
 
+        request.vector_type = VectorType::Sparse;
+        if (py_vtype) {
+            request.vector_type = py_vtype.cast<VectorType>();
+        } else if (parsed_data.size() == 1 && parsed_data.front().value_type == python::ValueType::Value) {
+            request.vector_type = VectorType::Dense;
+        }
 
-    return python::cast_to_object(ctx->signature(request));
+        return python::cast_to_object(ctx->signature(request));
+    });
 }
 
 static const char* to_logsignature_DOC = R"rpydoc(Takes some argument (:py:attr:`~signature`), equivalent to :py:obj:`tensor_to_lie(signature.log())`.)rpydoc";
@@ -224,7 +245,9 @@ static PyObject* RPyContext_to_logsignature(PyObject * self, PyObject * arg)
 
     const auto& sig = py_sig.cast<const FreeTensor&>();
 
-    return python::cast_to_object(ctx->tensor_to_lie(sig.log()));
+    return guarded([&] {
+        return python::cast_to_object(ctx->tensor_to_lie(sig.log()));
+    });
 }
 
 static const char* lie_to_tensor_DOC = R"rpydoc(Linear embedding of the :class:`~Lie` algebra into the :class:`FreeTensor` algebra.)rpydoc";
@@ -237,8 +260,11 @@ static PyObject* RPyContext_lie_to_tensor(PyObject * self, PyObject * arg)
     }
 
     const auto& ctx = ctx_cast(self);
-    return python::cast_to_object(ctx->lie_to_tensor(py_lie.cast<const Lie&>())
-    );
+    return guarded([&] {
+        return python::cast_to_object(
+                ctx->lie_to_tensor(py_lie.cast<const Lie&>())
+        );
+    });
 }
 
 static const char* tensor_to_lie_DOC = R"rpydoc(Linear embedding of the :class:`~FreeTensor` algebra into the :class:`~Lie` algebra.)rpydoc";
@@ -251,12 +277,18 @@ static PyObject* RPyContext_tensor_to_lie(PyObject * self, PyObject * arg)
     }
 
     const auto& ctx = ctx_cast(self);
-    return python::cast_to_object(
-            ctx->tensor_to_lie(py_ft.cast<const FreeTensor&>())
-    );
+    return guarded([&] {
+        return python::cast_to_object(
+                ctx->tensor_to_lie(py_ft.cast<const FreeTensor&>())
+        );
+    });
 }
 
-static PyObject* RPyContext_enter(PyObject* self) { return self; }
+static PyObject* RPyContext_enter(PyObject* self)
+{
+    Py_INCREF(self);
+    return self;
+}
 
 static PyObject* RPyContext_exit(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
@@ -370,6 +402,10 @@ RPyContext_new(PyObject* self, PyObject* args, PyObject* kwargs)
 
 static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
 {
+    if (!PyObject_TypeCheck(o1, &python::RPyContext_Type)
+        || !PyObject_TypeCheck(o2, &python::RPyContext_Type)) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
 
     switch (opid) {
         case Py_EQ:
@@ -384,7 +420,7 @@ static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
         case Py_GE: break;
     }
 
-    return nullptr;
+    Py_RETURN_NOTIMPLEMENTED;
 }
 
 static const char* CONTEXT_DOC = R"rpydoc(
@@ -432,7 +468,7 @@ PyTypeObject rpy::python::RPyContext_Type = {
         0,                                        /* tp_dictoffset */
         (initproc) nullptr,                       /* tp_init */
         nullptr,                                  /* tp_alloc */
-        PyType_GenericNew,                        /* tp_new */
+        nullptr,                                  /* tp_new */
 };
 }
 
-- 
2.43.0


From 58cf3420ed6b68a3156a288b6742df8387c96321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:19 +0000
Subject: [PATCH 013/110] fix: copy strided, broadcast and keyed data element
 by element, keep simultaneous increments

---
 roughpy/src/args/buffer_info.h                |  4 +-
 roughpy/src/args/numpy.cpp                    | 19 +++++----
 roughpy/src/args/parse_data_argument.cpp      | 21 ++++++----
 roughpy/src/args/strided_copy.cpp             | 18 ++++----
 roughpy/src/args/strided_copy.h               | 10 ++---
 roughpy/src/streams/lie_increment_stream.cpp  |  9 +++-
 scalars/src/key_scalar_array.cpp              |  6 ++-
 scalars/src/key_scalar_stream.cpp             |  6 ++-
 scalars/src/scalar_stream.cpp                 |  2 -
 .../roughpy/streams/lie_increment_stream.h    |  2 +
 streams/src/lie_increment_stream.cpp          | 42 ++++++++++---------
 11 files changed, 77 insertions(+), 62 deletions(-)

diff --git a/roughpy/src/args/buffer_info.h b/roughpy/src/args/buffer_info.h
index 297b370..b459f97 100644
--- a/roughpy/src/args/buffer_info.h
+++ b/roughpy/src/args/buffer_info.h
@@ -39,7 +39,7 @@ public:
 
     RPY_NO_DISCARD bool is_contiguous() const noexcept
     {
-        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'A'));
+        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'C'));
     }
 
     RPY_NO_DISCARD idimn_t itemsize() const noexcept
@@ -50,7 +50,7 @@ public:
 
     RPY_NO_DISCARD idimn_t ndim() const noexcept
     {
-        return static_cast<idimn_t>(m_view.itemsize);
+        return static_cast<idimn_t>(m_view.ndim);
     }
 
     RPY_NO_DISCARD const Py_ssize_t* shape() const noexcept
diff --git a/roughpy/src/args/numpy.cpp b/roughpy/src/args/numpy.cpp
index b055b31..7a3db10 100644
--- a/roughpy/src/args/numpy.cpp
+++ b/roughpy/src/args/numpy.cpp
@@ -248,11 +248,6 @@ py::array python::dtl::dense_data_to_array(
                 data.size()
         );
     } else {
-        PyArray_FillWithScalar(
-                reinterpret_cast<PyArrayObject*>(result.ptr()),
-                Py_None
-        );
-
         auto** raw = static_cast<PyObject**>(result.mutable_data());
 
         switch (type_info.code) {
@@ -300,10 +295,16 @@ py::array python::dtl::new_zero_array_for_stype(
     py::array result(dtype, {static_cast<py::ssize_t>(dimension)}, {});
 
     if (typenum == NPY_OBJECT) {
-        PyArray_FillWithScalar(
-                reinterpret_cast<PyArrayObject*>(result.ptr()),
-                Py_None
-        );
+        auto** raw = static_cast<PyObject**>(result.mutable_data());
+        const bool is_poly = type->type_info().code
+                == devices::TypeCode::APRationalPolynomial;
+        for (dimn_t i = 0; i < dimension; ++i) {
+            Py_XDECREF(raw[i]);
+            raw[i] = is_poly ? PyPolynomial_FromPolynomial({})
+                             : py::cast(scalars::Scalar(type, 0, 1))
+                                       .release()
+                                       .ptr();
+        }
     } else {
         PyArray_FILLWBYTE(reinterpret_cast<PyArrayObject*>(result.ptr()), 0);
     }
diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index faec40b..3930cfe 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -288,17 +288,20 @@ void ConversionManager::handle_dltensor_leaf(LeafItem& leaf)
     const auto& tensor = managed->dl_tensor;
     const auto size = new_leaf.size;
 
-    auto borrow = is_C_contiguous<int64_t>(
-            {tensor.strides, static_cast<dimn_t>(tensor.ndim)},
-            {tensor.shape, static_cast<dimn_t>(tensor.ndim)},
-            leaf.scalar_info.bytes
-    );
+    // DLPack strides count elements, and are null for compact data
+    auto* tensor_data = static_cast<byte*>(tensor.data) + tensor.byte_offset;
+    auto borrow = tensor.strides == nullptr
+            || is_C_contiguous<int64_t>(
+                    {tensor.strides, static_cast<dimn_t>(tensor.ndim)},
+                    {tensor.shape, static_cast<dimn_t>(tensor.ndim)},
+                    1
+            );
     borrow &= m_options.scalar_type->type_info() == leaf.scalar_info;
 
     if (borrow) {
         new_leaf.data = scalars::ScalarArray(
                 m_options.scalar_type,
-                tensor.data,
+                static_cast<void*>(tensor_data),
                 size
         );
         return;
@@ -323,7 +326,7 @@ void ConversionManager::handle_dltensor_leaf(LeafItem& leaf)
 
     python::stride_copy(
             new_leaf.data,
-            {leaf.scalar_info, tensor.data, size},
+            {leaf.scalar_info, static_cast<void*>(tensor_data), size},
             tensor.ndim,
             modified_shape.data(),
             modified_strides.empty() ? nullptr : modified_strides.data()
@@ -693,7 +696,7 @@ void ParsedData::fill_ks_stream(scalars::KeyScalarStream& ks_stream)
             case LeafType::DLTensor:
             case LeafType::Buffer: {
                 if (leaf.size == 0) { break; }
-                if (leaf.shape.size() == 1) {
+                if (leaf.shape.size() <= 1) {
                     ks_stream.push_back(leaf.data.borrow());
                 } else {
                     dimn_t sz = leaf.shape.back();
@@ -707,7 +710,7 @@ void ParsedData::fill_ks_stream(scalars::KeyScalarStream& ks_stream)
             case LeafType::Dict:
             case LeafType::Lie:
             case LeafType::Sequence:
-                ks_stream.push_back(leaf.data.borrow());
+                ks_stream.push_back(leaf.data.borrow(), leaf.data.keys());
                 break;
         }
     }
diff --git a/roughpy/src/args/strided_copy.cpp b/roughpy/src/args/strided_copy.cpp
index 2adc5db..b8691da 100644
--- a/roughpy/src/args/strided_copy.cpp
+++ b/roughpy/src/args/strided_copy.cpp
@@ -108,6 +108,11 @@ int32_t get_compressed_dims(
 {
     if (strides == nullptr) { return ndim; }
 
+    // There is no data to be strided over
+    for (int32_t i = 0; i < ndim; ++i) {
+        if (shape[i] == 0) { return ndim; }
+    }
+
     idimn_t compressed_stride = bytes;
 
     for (int32_t i = 1; i <= ndim; ++i) {
@@ -128,7 +133,6 @@ void rpy::python::stride_copy(
         const idimn_t* strides
 )
 {
-    if (ndim == 0) { return; }
     const auto info = in.type_info();
 
     auto compressed_ndim
@@ -153,14 +157,6 @@ void rpy::python::stride_copy(
             return offset;
         };
 
-        auto dst_offset = [&shape, &uncompressed, &index]() {
-            dimn_t offset = index[uncompressed-1];
-            for (int32_t i = 1; i < uncompressed; ++i) {
-                offset += shape[i] * index[i-1];
-            }
-            return offset;
-        };
-
         auto advance_index = [&shape, &index]() {
             auto dim = index.size() - 1;
             for (auto it = index.rbegin(); it != index.rend(); ++it, --dim) {
@@ -179,8 +175,9 @@ void rpy::python::stride_copy(
                 std::multiplies<>()
         );
 
+        // The destination is filled contiguously
+        dimn_t offset = 0;
         for (; index[0] < shape[0]; advance_index()) {
-            auto offset = dst_offset();
             auto tmp_out = out[{offset, offset + compression_size}];
             scalars::ScalarArray tmp_in(
                     info,
@@ -188,6 +185,7 @@ void rpy::python::stride_copy(
                     compression_size
             );
             tp->convert_copy(tmp_out, tmp_in);
+            offset += compression_size;
         }
     }
 }
diff --git a/roughpy/src/args/strided_copy.h b/roughpy/src/args/strided_copy.h
index 0fb18c7..09c8efb 100644
--- a/roughpy/src/args/strided_copy.h
+++ b/roughpy/src/args/strided_copy.h
@@ -86,14 +86,12 @@ inline bool is_C_contiguous(
 {
     if (strides.empty()) { return true; }
 
-    const size_t strides_sum = std::accumulate(strides.begin(), strides.end(), 0);
-    if (strides_sum == 0) {
-        return true;
-    }
-
     T compressed_size = (itemsize) ? *itemsize : 1;
     for (auto i = strides.size(); i > 0;) {
-        if (strides[--i] != compressed_size) { return false; }
+        --i;
+        // The stride along a dimension with a single index is never used
+        if (shape[i] == 1) { continue; }
+        if (strides[i] != compressed_size) { return false; }
         compressed_size *= shape[i];
     }
     return true;
diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 09e880d..1ae61ff 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -39,6 +39,7 @@
 
 #include "args/kwargs_to_path_metadata.h"
 #include "args/parse_data_argument.h"
+#include "args/strided_copy.h"
 #include "scalars/scalar_type.h"
 #include "scalars/scalars.h"
 #include "schema_finalization.h"
@@ -67,7 +68,13 @@ void buffer_to_indices(
     scalars::ScalarArray dst(indices.data(), indices.size());
     scalars::ScalarArray src(py_buffer_to_type_info(info), info.ptr, info.size);
 
-    (*scalars::scalar_type_of<param_t>())->convert_copy(dst, src);
+    python::stride_copy(
+            dst,
+            src,
+            static_cast<int32_t>(info.ndim),
+            info.shape.data(),
+            info.strides.data()
+    );
 }
 
 static py::object lie_increment_stream_from_increments(py::object data, py::kwargs kwargs)
diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index df4747b..5ea82df 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -47,6 +47,8 @@ KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
         m_owns_keys = true;
         allocate_keys();
         std::copy_n(other.p_keys, other.size(), const_cast<key_type*>(p_keys));
+    } else {
+        p_keys = other.p_keys;
     }
 }
 KeyScalarArray::KeyScalarArray(KeyScalarArray&& other) noexcept
@@ -146,7 +148,9 @@ void KeyScalarArray::allocate_scalars(idimn_t count) {
 }
 void KeyScalarArray::allocate_keys(idimn_t count) {
     if (count != 0) {
-        if (p_keys != nullptr) { delete[] p_keys; }
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
 
         if (count == -1) {
             count = static_cast<idimn_t>(size());
diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..27a5139 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -52,7 +52,6 @@ KeyScalarStream::KeyScalarStream(KeyScalarStream&& other) noexcept
 KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<const ScalarStream&>(other));
         m_key_stream = other.m_key_stream;
     }
@@ -61,7 +60,6 @@ KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 KeyScalarStream& KeyScalarStream::operator=(KeyScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<ScalarStream&&>(other));
         m_key_stream = std::move(other.m_key_stream);
     }
@@ -90,6 +88,8 @@ void KeyScalarStream::push_back(
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
         m_key_stream.push_back(key_ptr);
+    } else if (!m_key_stream.empty()) {
+        m_key_stream.push_back(nullptr);
     }
     ScalarStream::push_back(scalar_data);
 }
@@ -103,6 +103,8 @@ void KeyScalarStream::push_back(
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
         m_key_stream.push_back(key_ptr);
+    } else if (!m_key_stream.empty()) {
+        m_key_stream.push_back(nullptr);
     }
     ScalarStream::push_back(std::move(scalar_data));
 }
diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index c35b7e9..7b6a981 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -77,7 +77,6 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = other.m_stream;
         p_type = other.p_type;
     }
@@ -86,7 +85,6 @@ ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 ScalarStream& ScalarStream::operator=(ScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = std::move(other.m_stream);
         p_type = other.p_type;
     }
diff --git a/streams/include/roughpy/streams/lie_increment_stream.h b/streams/include/roughpy/streams/lie_increment_stream.h
index 826353b..fcae11f 100644
--- a/streams/include/roughpy/streams/lie_increment_stream.h
+++ b/streams/include/roughpy/streams/lie_increment_stream.h
@@ -51,6 +51,8 @@ public:
 private:
     boost::container::flat_map<param_t, Lie> m_data;
 
+    void add_increment(param_t param, Lie&& increment);
+
 public:
     using DyadicCachingLayer::DyadicCachingLayer;
 
diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index 4cabe77..f60cbdb 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -43,6 +43,19 @@
 using namespace rpy;
 using namespace rpy::streams;
 
+void LieIncrementStream::add_increment(param_t param, Lie&& increment)
+{
+    auto it = m_data.find(param);
+    if (it == m_data.end()) {
+        m_data.emplace(param, std::move(increment));
+    } else {
+        // Increments with equal parameters follow one another in data order
+        const auto& md = metadata();
+        std::vector<const Lie*> lies{&it->second, &increment};
+        it->second = md.default_context->cbh(lies, md.cached_vector_type);
+    }
+}
+
 LieIncrementStream::LieIncrementStream(
         const scalars::KeyScalarArray& buffer, Slice<param_t> indices,
         StreamMetadata metadata, std::shared_ptr<StreamSchema> schema
@@ -96,16 +109,11 @@ LieIncrementStream::LieIncrementStream(
                         scalars::KeyScalarArray(*buffer.type(), dptr, width),
                         md.cached_vector_type};
 
-                auto [it, inserted]
-                        = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
-                if (inserted && param_needs_adding) {
-                    /*
-                     * We've inserted a new element, so we should now add the param
-                     * value if it is needed.
-                     */
-                    it->second[param_slot] = Scalar(index - previous_param);
+                auto increment = ctx.construct_lie(cdata);
+                if (param_needs_adding) {
+                    increment[param_slot] = Scalar(index - previous_param);
                 }
+                add_increment(index, std::move(increment));
                 previous_param = index;
                 dptr += stride;
             }
@@ -142,17 +150,11 @@ LieIncrementStream::LieIncrementStream(
                 md.cached_vector_type
         };
 
-        auto [it, inserted]
-                = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
-
-        if (inserted && param_needs_adding) {
-            /*
-             * We've inserted a new element, so we should now add the param
-             * value if it is needed.
-             */
-            it->second[param_slot] = index - previous_param;
+        auto increment = ctx.construct_lie(cdata);
+        if (param_needs_adding) {
+            increment[param_slot] = index - previous_param;
         }
+        add_increment(index, std::move(increment));
         previous_param = index;
 
     }
@@ -166,7 +168,7 @@ LieIncrementStream::LieIncrementStream(std::vector<pair<param_t, Lie>>&& data,
 {
     m_data.reserve(data.size());
     for (auto&& [param, lie] : data | views::move) {
-        m_data.emplace(param, std::move(lie));
+        add_increment(param, std::move(lie));
     }
 
 }
-- 
2.43.0


From 3f4bf8f42c1c2c3e0d8198364967a4fa005265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:05 +0000
Subject: [PATCH 014/110] fix: reject unsupported DLPack element types, copy
 only the source's elements

---
 roughpy/src/args/parse_data_argument.cpp | 5 +++++
 scalars/src/scalar_type.cpp              | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index 3930cfe..cc19e86 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -425,6 +425,11 @@ void ConversionManager::check_dl_size(py::capsule dlcap, deg_t depth)
 
     leaf.value_type = ValueType::Value;
     leaf.scalar_info = convert_from_dl_datatype(tensor.dtype);
+    // Throws if the elements are not of a supported number type
+    RPY_MAYBE_UNUSED auto supported
+            = scalars::scalar_type_of(leaf.scalar_info);
+    RPY_CHECK(tensor.dtype.lanes == 1);
+    RPY_CHECK(tensor.device.device_type == kDLCPU);
 
     leaf.size = static_cast<dimn_t>(std::accumulate(
             leaf.shape.begin(),
diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From 9b8372016a6bdb1956a6e277d4e56db1943d3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 015/110] fix: refuse to convert tensors between different
 widths

---
 algebra/src/lite_context.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5d0fbf4..d41d5ed 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -404,6 +404,11 @@ LiteContext<Coefficients>::convert_impl(const FreeTensor& arg) const
             scalars::KeyScalarArray(arg.coeff_type()),
             VType// Not that this really matters;
     };
+    RPY_CHECK(
+            !arg.width() || *arg.width() == width(),
+            "cannot perform conversion on algebras with different bases",
+            std::invalid_argument
+    );
     dtl::tensor_populate_vcd(data, arg);
     return construct_impl<free_tensor_t<VType>>(data, p_tbasis, p_ftmul);
 }
@@ -419,6 +424,11 @@ LiteContext<Coefficients>::convert_impl(const ShuffleTensor& arg) const
             scalars::KeyScalarArray(arg.coeff_type()),
             VType// Not that this really matters;
     };
+    RPY_CHECK(
+            !arg.width() || *arg.width() == width(),
+            "cannot perform conversion on algebras with different bases",
+            std::invalid_argument
+    );
     dtl::tensor_populate_vcd(data, arg);
     return construct_impl<shuffle_tensor_t<VType>>(data, p_tbasis, p_stmul);
 }
-- 
2.43.0


From bc99b3ff05c0a60903fe160fb22d6aabfa36c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 016/110] fix: sizes of base contexts are sums over degrees,
 within the allocated table

---
 algebra/src/context.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebra/src/context.cpp b/algebra/src/context.cpp
index af99928..67eedd4 100644
--- a/algebra/src/context.cpp
+++ b/algebra/src/context.cpp
@@ -105,7 +105,6 @@ ContextBase::ContextBase(
         // memory.
         p_tensor_sizes = tsizes;
         tsizes[0] = 1;
-        tsizes[1] = 1 + m_width;
         for (deg_t i = 1; i <= m_depth; ++i) {
             tsizes[i] = 1 + tsizes[i - 1] * m_width;
         }
@@ -118,9 +117,9 @@ ContextBase::ContextBase(
         // memory.
         p_lie_sizes = lsizes;
         lsizes[0] = 0;
-        lsizes[1] = m_width;
+        if (m_depth > 0) { lsizes[1] = m_width; }
         for (int i = 2; i <= m_depth; ++i) {
-            lsizes[i] = helper(i) * lsizes[i - 1];
+            lsizes[i] = helper(i) + lsizes[i - 1];
         }
     }
 }
-- 
2.43.0


From 1c9f4eeb9b7cb0a06846126bcb1a85181797a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 017/110] fix: reject keys and Lie elements of another width
 when building an element

---
 roughpy/src/algebra/free_tensor.cpp    |  9 ++++++---
 roughpy/src/algebra/lie.cpp            | 15 +++++++++++++--
 roughpy/src/algebra/shuffle_tensor.cpp |  9 ++++++---
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index e08bb8d..ddc8b90 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -100,9 +100,12 @@ static FreeTensor construct_free_tensor(py::object data, py::kwargs kwargs)
 
     auto py_key_type = py::type::of<python::PyTensorKey>();
     python::AlternativeKeyType alt{
-            py_key_type, [](py::handle py_key) -> key_type {
-                return static_cast<key_type>(py_key.cast<python::PyTensorKey>()
-                );
+            py_key_type, [&helper](py::handle py_key) -> key_type {
+                const auto key = py_key.cast<python::PyTensorKey>();
+                if (helper.width != 0 && key.width() != helper.width) {
+                    RPY_THROW(py::value_error, "key has a different width");
+                }
+                return static_cast<key_type>(key);
             }};
 
     python::DataArgOptions options;
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index 6a1b531..3981c8d 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -114,10 +114,21 @@ static Lie construct_lie(py::object data, py::kwargs kwargs)
 
     auto py_key_type = py::type::of<python::PyLieKey>();
     python::AlternativeKeyType alt{
-            py_key_type, [](py::handle py_key) -> key_type {
-                return static_cast<key_type>(py_key.cast<python::PyLieKey>());
+            py_key_type, [&helper](py::handle py_key) -> key_type {
+                const auto key = py_key.cast<python::PyLieKey>();
+                if (helper.width != 0 && key.width() != helper.width) {
+                    RPY_THROW(py::value_error, "key has a different width");
+                }
+                return static_cast<key_type>(key);
             }};
 
+    if (helper.width != 0 && py::isinstance<Lie>(data)) {
+        const auto width = data.cast<const Lie&>().width();
+        if (width && *width != helper.width) {
+            RPY_THROW(py::value_error, "Lie element has a different width");
+        }
+    }
+
     python::DataArgOptions options;
     options.scalar_type = helper.ctype;
     options.alternative_key = &alt;
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index a258baf..a2e7d33 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -129,9 +129,12 @@ static ShuffleTensor construct_shuffle(py::object data, py::kwargs kwargs)
 
     auto py_key_type = py::type::of<python::PyTensorKey>();
     python::AlternativeKeyType alt{
-            py_key_type, [](py::handle py_key) -> key_type {
-                return static_cast<key_type>(py_key.cast<python::PyTensorKey>()
-                );
+            py_key_type, [&helper](py::handle py_key) -> key_type {
+                const auto key = py_key.cast<python::PyTensorKey>();
+                if (helper.width != 0 && key.width() != helper.width) {
+                    RPY_THROW(py::value_error, "key has a different width");
+                }
+                return static_cast<key_type>(key);
             }};
 
     python::DataArgOptions options;
-- 
2.43.0


From f7eb74072fb49e40fcda9a8e75cb61086ba17d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 018/110] fix: signature arguments: check resolution range and
 dtype, keep the default depth

---
 roughpy/src/algebra/context.cpp             | 24 +--------
 roughpy/src/guarded.h                       | 34 ++++++++++++
 roughpy/src/streams/signature_arguments.cpp | 57 +++++++++++++++++----
 3 files changed, 82 insertions(+), 33 deletions(-)
 create mode 100644 roughpy/src/guarded.h

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index f3a07ca..53f2337 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -31,6 +31,7 @@
 #include <pybind11/stl.h>
 
 #include "args/parse_data_argument.h"
+#include "guarded.h"
 #include "lie_key_iterator.h"
 #include "scalars/scalar_type.h"
 #include "scalars/scalars.h"
@@ -41,30 +42,9 @@ using namespace rpy;
 using namespace rpy::algebra;
 using namespace pybind11::literals;
 using rpy::python::ctx_cast;
+using rpy::python::guarded;
 using rpy::python::RPyContext;
 
-namespace {
-
-/// Methods here are called from C, so no C++ exception may leave them
-template <typename Fn>
-PyObject* guarded(Fn&& fn) noexcept
-{
-    try {
-        return fn();
-    } catch (py::error_already_set& exc) {
-        exc.restore();
-    } catch (py::builtin_exception& exc) {
-        exc.set_error();
-    } catch (std::invalid_argument& exc) {
-        PyErr_SetString(PyExc_ValueError, exc.what());
-    } catch (std::exception& exc) {
-        PyErr_SetString(PyExc_RuntimeError, exc.what());
-    }
-    return nullptr;
-}
-
-}// namespace
-
 extern "C" {
 
 static const char* lie_size_DOC = R"rpydoc(A shortcut for :py:meth:`lie_basis.size`. )rpydoc";
diff --git a/roughpy/src/guarded.h b/roughpy/src/guarded.h
new file mode 100644
index 0000000..f289a80
--- /dev/null
+++ b/roughpy/src/guarded.h
@@ -0,0 +1,34 @@
+#ifndef ROUGHPY_SRC_GUARDED_H
+#define ROUGHPY_SRC_GUARDED_H
+
+#include "roughpy_module.h"
+
+#include <exception>
+#include <stdexcept>
+
+namespace rpy {
+namespace python {
+
+/// Functions called from C must not let a C++ exception leave them: call fn
+/// and turn an exception into the Python error, returning failure.
+template <typename Fn, typename Result = PyObject*>
+Result guarded(Fn&& fn, Result failure = nullptr) noexcept
+{
+    try {
+        return fn();
+    } catch (py::error_already_set& exc) {
+        exc.restore();
+    } catch (py::builtin_exception& exc) {
+        exc.set_error();
+    } catch (std::invalid_argument& exc) {
+        PyErr_SetString(PyExc_ValueError, exc.what());
+    } catch (std::exception& exc) {
+        PyErr_SetString(PyExc_RuntimeError, exc.what());
+    }
+    return failure;
+}
+
+}// namespace python
+}// namespace rpy
+
+#endif// ROUGHPY_SRC_GUARDED_H
diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index 1e34f1b..2ea338f 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -4,10 +4,8 @@
 
 #include "signature_arguments.h"
 
-#ifdef ROUGHPY_WITH_NUMPY
-#  define NPY_NO_DEPRECATED_API NPY_1_19_API_VERSION
-#  include <numpy/arrayobject.h>
-#endif
+#include <limits>
+
 
 
 #include "roughpy/core/construct_inplace.hpp"
@@ -20,6 +18,7 @@
 #include "algebra/context.h"
 #include "args/kwargs_to_path_metadata.h"
 #include "args/numpy.h"
+#include "guarded.h"
 #include "intervals/interval.h"
 #include "scalars/scalar_type.h"
 
@@ -28,13 +27,29 @@ using namespace rpy;
 using namespace rpy::python;
 
 
+static int long_to_resolution(PyObject* object, resolution_t* out)
+{
+    int overflow = 0;
+    const auto value = PyLong_AsLongAndOverflow(object, &overflow);
+    if (overflow != 0
+        || value < std::numeric_limits<resolution_t>::min()
+        || value > std::numeric_limits<resolution_t>::max()) {
+        PyErr_SetString(PyExc_OverflowError, "resolution is out of range");
+        return 0;
+    }
+    *out = static_cast<resolution_t>(value);
+    return 1;
+}
+
 static int resolution_converter(PyObject* object, void* out)
 {
     if (Py_TYPE(object) == &PyFloat_Type) {
         *reinterpret_cast<optional<resolution_t>*>(out)
                 = python::param_to_resolution(PyFloat_AsDouble(object));
     } else if (Py_TYPE(object) == &PyLong_Type) {
-        *reinterpret_cast<optional<resolution_t>*>(out) = PyLong_AsLong(object);
+        resolution_t resolution;
+        if (long_to_resolution(object, &resolution) == 0) { return 0; }
+        *reinterpret_cast<optional<resolution_t>*>(out) = resolution;
 #if PY_VERSION_HEX >= 0x030A0000
     } else if (Py_IsNone(object)) {
 #else
@@ -53,7 +68,7 @@ static int resolution_converter(PyObject* object, void* out)
 
 
 
-int python::parse_sig_args(
+static int parse_sig_args_impl(
         PyObject* args,
         PyObject* kwargs,
         const streams::StreamMetadata* smeta,
@@ -104,8 +119,11 @@ int python::parse_sig_args(
                 );
                 return -1;
             }
-            sigargs->resolution
-                    = static_cast<resolution_t>(PyLong_AsLong(interval_or_inf));
+            resolution_t resolution;
+            if (long_to_resolution(interval_or_inf, &resolution) == 0) {
+                return -1;
+            }
+            sigargs->resolution = resolution;
 
             sigargs->interval = {};
         } else {
@@ -130,6 +148,8 @@ int python::parse_sig_args(
                 return -1;
             }
 
+            if (PyErr_Occurred() != nullptr) { return -1; }
+
             if (inf > sup) {
                 PyErr_SetString(
                         PyExc_ValueError,
@@ -184,20 +204,23 @@ int python::parse_sig_args(
 
     // Finally we need to decide if a change of context is necessary.
     if (ctx == nullptr) {
+        if (dtype == Py_None) { dtype = nullptr; }
         if (depth == 0 && dtype == nullptr) {
             sigargs->ctx = smeta->default_context;
             return 0;
         }
+        if (depth == 0) { depth = smeta->default_context->depth(); }
 
         const scalars::ScalarType* ctype = smeta->data_scalar_type;
         if (dtype != nullptr) {
             if (Py_TYPE(dtype)
                 == (PyTypeObject*) python::get_scalar_metaclass().ptr()) {
                 ctype = ((python::PyScalarMetaType*) dtype)->tp_ctype;
-            } else if (Py_TYPE(dtype) == &PyUnicode_Type) {
+            } else if (PyUnicode_Check(dtype)) {
                 const auto* dtype_str = PyUnicode_AsUTF8(dtype);
+                if (dtype_str == nullptr) { return -1; }
                 const auto ctype_o = scalars::get_type(dtype_str);
-                if (ctype_o) {
+                if (!ctype_o) {
                     PyErr_SetString(
                             PyExc_TypeError,
                             "unrecognised scalar type id"
@@ -207,7 +230,7 @@ int python::parse_sig_args(
                 ctype = *ctype_o;
             }
 #ifdef ROUGHPY_WITH_NUMPY
-            else if (Py_TYPE(dtype) == &PyArrayDescr_Type) {
+            else if (py::isinstance<py::dtype>(dtype)) {
                 ctype = python::npy_dtype_to_ctype(
                         py::reinterpret_borrow<py::dtype>(dtype)
                 );
@@ -240,3 +263,15 @@ int python::parse_sig_args(
     return 0;
 }
 
+int python::parse_sig_args(
+        PyObject* args,
+        PyObject* kwargs,
+        const streams::StreamMetadata* smeta,
+        SigArgs* sigargs
+)
+{
+    return guarded(
+            [&] { return parse_sig_args_impl(args, kwargs, smeta, sigargs); },
+            -1
+    );
+}
-- 
2.43.0


From f1ad964ac4f9aae627a277ca0d27f2f5cc5f6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 019/110] fix: stream methods report C++ errors, release their
 references and destroy the stream

---
 roughpy/src/streams/stream.cpp | 240 ++++++++++++++++-----------------
 1 file changed, 116 insertions(+), 124 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 370bdaf..84ef2c2 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -44,6 +44,7 @@
 #include "algebra/context.h"
 #include "args/kwargs_to_path_metadata.h"
 #include "args/numpy.h"
+#include "guarded.h"
 #include "intervals/interval.h"
 #include "scalars/scalar_type.h"
 
@@ -300,107 +301,87 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
     );
     if (!static_cast<bool>(parse_result)) { return nullptr; }
 
-    if (depth != -1) { ctx = ctx->get_alike(depth); }
+    return guarded([&]() -> PyObject* {
+        if (depth != -1) { ctx = ctx->get_alike(depth); }
 
-    auto* interval_type = reinterpret_cast<PyTypeObject*>(
-            py::type::of<intervals::Interval>().ptr()
-    );
-    auto* lie_type
-            = reinterpret_cast<PyTypeObject*>(py::type::of<algebra::Lie>().ptr()
-            );
+        auto* interval_type = py::type::of<intervals::Interval>().ptr();
+        auto* lie_type = py::type::of<algebra::Lie>().ptr();
 
-    if (second_arg != nullptr && Py_TYPE(second_arg) == &PyLong_Type) {
-        resolution = static_cast<resolution_t>(PyLong_AsLong(second_arg));
-        second_arg = nullptr;
-    }
+        // resolution can be given as the second positional argument
+        if (second_arg != nullptr && PyLong_Check(second_arg)) {
+            resolution = py::handle(second_arg).cast<resolution_t>();
+            second_arg = nullptr;
+        }
 
-    algebra::FreeTensor result;
-    if (PyObject_IsInstance(arg, (PyObject*) interval_type)
-        && second_arg != nullptr && Py_TYPE(second_arg) == lie_type) {
-
-        const auto& interval
-                = py::handle(arg).cast<const intervals::Interval&>();
-        const auto& perturbation
-                = py::handle(second_arg).cast<const algebra::Lie&>();
-
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
+        auto is_instance = [](PyObject* obj, PyObject* type) {
+            return PyObject_IsInstance(obj, type) == 1;
+        };
+
+        if (is_instance(arg, interval_type) && second_arg != nullptr
+            && is_instance(second_arg, lie_type)) {
+            const auto& interval
+                    = py::handle(arg).cast<const intervals::Interval&>();
+            const auto& perturbation
+                    = py::handle(second_arg).cast<const algebra::Lie&>();
+
+            return py::cast(stream.signature_derivative(
+                                    interval,
+                                    perturbation,
+                                    resolution,
+                                    *ctx
+                            ))
+                    .release()
+                    .ptr();
+        }
 
-    } else if (PyTuple_Check(arg) && PySequence_Length(arg) == 2) {
-        py::handle py_interval;
-        py::handle py_perturbation;
-
-        parse_result = PyArg_ParseTuple(
-                arg,
-                "O!O!",
-                interval_type,
-                &py_interval.ptr(),
-                lie_type,
-                &py_perturbation.ptr()
-        );
-        if (!static_cast<bool>(parse_result)) { return nullptr; }
+        if (second_arg != nullptr || PySequence_Check(arg) == 0
+            || PySequence_Size(arg) <= 0) {
+            PyErr_Clear();
+            PyErr_SetString(
+                    PyExc_ValueError,
+                    "unexpected arguments to signature derivative"
+            );
+            return nullptr;
+        }
 
-        const auto& interval = py_interval.cast<const intervals::Interval&>();
-        const auto& perturbation = py_perturbation.cast<const algebra::Lie&>();
+        auto pairs = py::reinterpret_borrow<py::sequence>(arg);
+        if (pairs.size() == 2
+            && is_instance(py::object(pairs[0]).ptr(), interval_type)) {
+            // A single pair is the same as a list of one pair.
+            pairs = py::make_tuple(pairs);
+        }
 
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
-    } else if (static_cast<bool>(PySequence_Check(arg)) && PySequence_Length(arg) > 0) {
         streams::Stream::perturbation_list_t perturbations;
-        const auto n_perturbations = PySequence_Length(arg);
-        perturbations.reserve(n_perturbations);
-
-        for (Py_ssize_t i = 0; i < n_perturbations; ++i) {
-            PyObject* item = PySequence_ITEM(arg, i);
-
-            if (!static_cast<bool>(PySequence_Check(item))
-                || PySequence_Length(item) != 2) {
-                PyErr_SetString(
-                        PyExc_TypeError,
-                        "expected interval/perturbation pair"
-                );
-                return nullptr;
+        perturbations.reserve(pairs.size());
+        for (py::object item : pairs) {
+            if (PySequence_Check(item.ptr()) == 0
+                || PySequence_Size(item.ptr()) != 2) {
+                PyErr_Clear();
+                throw py::type_error("expected interval/perturbation pair");
             }
 
-            py::handle py_interval;
-            py::handle py_perturbation;
-
-            parse_result = PyArg_ParseTuple(
-                    item,
-                    "O!O!",
-                    interval_type,
-                    &py_interval.ptr(),
-                    lie_type,
-                    &py_perturbation.ptr()
-            );
-            if (!static_cast<bool>(parse_result)) { return nullptr; }
+            auto pair = py::reinterpret_borrow<py::sequence>(item);
+            py::object py_interval = pair[0];
+            py::object py_perturbation = pair[1];
+            if (!is_instance(py_interval.ptr(), interval_type)
+                || !is_instance(py_perturbation.ptr(), lie_type)) {
+                throw py::type_error("expected interval/perturbation pair");
+            }
 
             perturbations.emplace_back(
                     intervals::RealInterval(
                             py_interval.cast<const intervals::Interval&>()
                     ),
-                    py_perturbation.cast<algebra::Lie&>()->borrow_mut()
+                    py_perturbation.cast<const algebra::Lie&>()
             );
         }
 
-        result = stream.signature_derivative(perturbations, resolution, *ctx);
-    } else {
-        PyErr_SetString(
-                PyExc_ValueError,
-                "unexpected arguments to signature derivative"
-        );
-        return nullptr;
-    }
-
-    return py::cast(result).release().ptr();
+        return py::cast(
+                       stream.signature_derivative(perturbations, resolution, *ctx)
+        )
+                .release()
+                .ptr();
+    });
 }
 
 static const char SIMPLIFY_STREAM_DOC[] = R"rpydoc(Produce a piecewise
@@ -432,6 +413,7 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
     // clang-format on
     if (parse_result == 0) { return nullptr; }
 
+    return guarded([&]() -> PyObject* {
     const auto& partition = py::cast<const intervals::Partition&>(py_partition);
 
     if (py_context != nullptr) {
@@ -466,6 +448,7 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
     }
 
     return python::RPyStream_FromStream(stream.simplify(partition, resolution));
+    });
 }
 
 static const char RESTRICT_DOC[] = R"rpydoc(Create a new :class:`Stream` with the same
@@ -487,35 +470,34 @@ static PyObject* restrict(PyObject* self, PyObject* args, PyObject* kwargs)
         return nullptr;
     }
 
-    intervals::RealInterval ivl(py::cast<const intervals::Interval&>(py_interval
-    ));
-
-    const auto& stream = reinterpret_cast<python::RPyStream*>(self)->m_data;
-
-    return python::RPyStream_FromStream(stream.restrict(ivl));
+    return guarded([&]() -> PyObject* {
+        intervals::RealInterval ivl(
+                py::cast<const intervals::Interval&>(py_interval)
+        );
+        const auto& stream = reinterpret_cast<python::RPyStream*>(self)->m_data;
+        return python::RPyStream_FromStream(stream.restrict(ivl));
+    });
 }
 
 static PyObject*
 stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
-    PyObject* data;
-
-    std::stringstream ss;
-    {
-        rpy::archives::BinaryOutputArchive oar(ss);
-        oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
-    }
-
-    auto s = ss.str();
-    data = PyByteArray_FromStringAndSize(
-            s.data(),
-            static_cast<Py_ssize_t>(s.size())
-    );
-
-    PyObject* new_args = PyTuple_New(0);
-    PyObject* new_kwargs = Py_BuildValue("{sO}", "serialized_stream", data);
-
-    return Py_BuildValue("(OO)", new_args, new_kwargs);
+    return guarded([&]() -> PyObject* {
+        std::stringstream ss;
+        {
+            rpy::archives::BinaryOutputArchive oar(ss);
+            oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
+        }
+        const auto s = ss.str();
+        return Py_BuildValue(
+                "((){sN})",
+                "serialized_stream",
+                PyByteArray_FromStringAndSize(
+                        s.data(),
+                        static_cast<Py_ssize_t>(s.size())
+                )
+        );
+    });
 }
 
 static PyMethodDef RPyStream_members[] = {
@@ -554,11 +536,13 @@ static PyObject* width_getter(PyObject* self)
 
 static PyObject* ctype_getter(PyObject* self)
 {
-    return python::to_ctype_type(reinterpret_cast<python::RPyStream*>(self)
-                                         ->m_data.metadata()
-                                         .data_scalar_type)
-            .release()
-            .ptr();
+    return guarded([&]() -> PyObject* {
+        return python::to_ctype_type(reinterpret_cast<python::RPyStream*>(self)
+                                             ->m_data.metadata()
+                                             .data_scalar_type)
+                .release()
+                .ptr();
+    });
 }
 
 static PyObject* ctx_getter(PyObject* self)
@@ -572,10 +556,13 @@ static PyObject* ctx_getter(PyObject* self)
 
 static PyObject* support_getter(PyObject* self)
 {
-    return py::cast(reinterpret_cast<python::RPyStream*>(self)->m_data.support()
-    )
-            .release()
-            .ptr();
+    return guarded([&]() -> PyObject* {
+        return py::cast(
+                       reinterpret_cast<python::RPyStream*>(self)->m_data.support()
+        )
+                .release()
+                .ptr();
+    });
 }
 
 static PyObject* resolution_getter(PyObject* self)
@@ -605,9 +592,10 @@ static PyObject* RPyStream_repr(PyObject* self)
 }
 static PyObject* RPyStream_str(PyObject* self) { return RPyStream_repr(self); }
 
-static void RPyStream_finalize(PyObject* self)
+static void RPyStream_dealloc(PyObject* self)
 {
     reinterpret_cast<python::RPyStream*>(self)->m_data.~Stream();
+    Py_TYPE(self)->tp_free(self);
 }
 
 static PyObject*
@@ -634,9 +622,14 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
         // The stream is being initialised with previously serialized data.
         self = reinterpret_cast<RPyStream*>(subtype->tp_alloc(subtype, 0));
 
+        if (self == nullptr) { return nullptr; }
         // Ensure that the stream object is initialised in the data slot.
         construct_inplace<streams::Stream>(&self->m_data);
-        {
+
+        auto py_self = py::reinterpret_steal<py::object>(
+                reinterpret_cast<PyObject*>(self)
+        );
+        return guarded([&]() -> PyObject* {
             std::string raw(
                     PyByteArray_AS_STRING(pybuff),
                     PyByteArray_GET_SIZE(pybuff)
@@ -644,9 +637,8 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
-        }
-
-        return reinterpret_cast<PyObject*>(self);
+            return py_self.release().ptr();
+        });
     }
 
     PyErr_SetString(
@@ -661,7 +653,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         "roughpy.Stream",                         /* tp_name */
         sizeof(python::RPyStream),                /* tp_basicsize */
         0,                                        /* tp_itemsize */
-        nullptr,                                  /* tp_dealloc */
+        (destructor) RPyStream_dealloc,           /* tp_dealloc */
         0,                                        /* tp_vectorcall_offset */
         (getattrfunc) nullptr,                    /* tp_getattr */
         (setattrfunc) nullptr,                    /* tp_setattr */
@@ -704,7 +696,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         nullptr,                                  /* tp_weaklist */
         nullptr,                                  /* tp_del */
         0,                                        /* tp_version_tag */
-        (destructor) RPyStream_finalize,          /* tp_finalize */
+        nullptr,                                  /* tp_finalize */
         nullptr                                   /* tp_vectorcall */
 };
 }// extern "C"
-- 
2.43.0


From bb970b893c666f145f099fd5fbc4695e4f1ac08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 020/110] fix: polynomial scalar in-place operators own their
 result and return it

---
 roughpy/src/scalars/r_py_polynomial.cpp | 332 ++++++++++++++----------
 1 file changed, 199 insertions(+), 133 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b9f1be2..6311268 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,9 @@
 
 #include "r_py_polynomial.h"
 
+#include <climits>
+#include <cmath>
+#include <limits>
 #include <sstream>
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -46,6 +49,7 @@
 #include <roughpy/scalars/scalar_serialization.h>
 #include <roughpy/scalars/scalar_types.h>
 
+#include "guarded.h"
 #include "scalars.h"
 
 using namespace rpy;
@@ -75,14 +79,19 @@ static inline poly_t& cast_poly(PyObject* obj) noexcept
     return reinterpret_cast<RPyPolynomial*>(obj)->m_data;
 }
 
-extern "C" {
+static inline PyObject* new_reference(PyObject* obj) noexcept
+{
+    Py_INCREF(obj);
+    return obj;
+}
 
+extern "C" {
 // New
 static PyObject*
 monomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs);
 
-// finalize
-static void monomial_finalize(PyObject* self);
+// dealloc
+static void monomial_dealloc(PyObject* self);
 
 // Conversion
 static int monomial_bool(PyObject* self);
@@ -243,7 +252,7 @@ PyTypeObject RPyMonomial_Type = {
         "roughpy.Monomial",                  /* tp_name */
         sizeof(RPyMonomial),                 /* tp_basicsize */
         0,                                   /* tp_itemsize */
-        nullptr,                             /* tp_dealloc */
+        monomial_dealloc,  /* tp_dealloc */
         0,                                   /* tp_vectorcall_offset */
         0,                                   /* tp_getattr */
         0,                                   /* tp_setattr */
@@ -286,7 +295,7 @@ PyTypeObject RPyMonomial_Type = {
         nullptr,                             /* tp_weaklist */
         nullptr,                             /* tp_del */
         0,                                   /* tp_version_tag */
-        monomial_finalize,                   /* tp_finalize */
+        nullptr,  /* tp_finalize */
         nullptr                              /* tp_vectorcall */
 };
 
@@ -296,8 +305,8 @@ extern "C" {
 static PyObject*
 polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs);
 
-// finalize
-static void polynomial_finalize(PyObject* self);
+// dealloc
+static void polynomial_dealloc(PyObject* self);
 
 // Conversion
 static int polynomial_bool(PyObject* self);
@@ -343,15 +352,15 @@ static PyObject* polynomial_degree(PyObject* self, PyObject* RPY_UNUSED_VAR);
 static PyObject*
 polynomial___getstate__(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
-    std::stringstream ss;
-    {
-        archives::PortableBinaryOutputArchive oa(ss);
-        oa(cast_mon(self));
-    }
-
-    string data(std::move(ss).str());
-
-    return PyByteArray_FromStringAndSize(data.data(), data.size());
+    return guarded([&]() -> PyObject* {
+        std::stringstream ss;
+        {
+            archives::PortableBinaryOutputArchive oa(ss);
+            oa(cast_poly(self));
+        }
+        string data(std::move(ss).str());
+        return PyByteArray_FromStringAndSize(data.data(), data.size());
+    });
 }
 
 static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
@@ -363,14 +372,15 @@ static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
         return nullptr;
     }
 
-    string sdata(PyByteArray_AS_STRING(data), PyByteArray_GET_SIZE(data));
-    {
+    return guarded([&]() -> PyObject* {
+        string sdata(PyByteArray_AS_STRING(data), PyByteArray_GET_SIZE(data));
         std::istringstream ss(sdata);
         archives::PortableBinaryInputArchive ia(ss);
-        ia(cast_mon(self));
-    }
-
-    Py_RETURN_NONE;
+        poly_t restored;
+        ia(restored);
+        cast_poly(self) = std::move(restored);
+        Py_RETURN_NONE;
+    });
 }
 }
 
@@ -434,7 +444,7 @@ PyTypeObject RPyPolynomial_Type = {
         "roughpy.Polynomial",                  /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
-        nullptr,                               /* tp_dealloc */
+        polynomial_dealloc,  /* tp_dealloc */
         0,                                     /* tp_vectorcall_offset */
         0,                                     /* tp_getattr */
         0,                                     /* tp_setattr */
@@ -477,7 +487,7 @@ PyTypeObject RPyPolynomial_Type = {
         nullptr,                               /* tp_weaklist */
         nullptr,                               /* tp_del */
         0,                                     /* tp_version_tag */
-        polynomial_finalize,                   /* tp_finalize */
+        nullptr,  /* tp_finalize */
         nullptr                                /* tp_vectorcall */
 };
 
@@ -493,6 +503,33 @@ void python::init_monomial(py::module_& m)
     m.add_object("PolynomialScalar", (PyObject*) &RPyPolynomial_Type);
 }
 
+static bool power_from_int(PyObject* obj, deg_t& power)
+{
+    const auto value = PyLong_AsLong(obj);
+    if (value == -1 && PyErr_Occurred() != nullptr) { return false; }
+    if (value < 0) {
+        PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
+        return false;
+    }
+    if (value > std::numeric_limits<deg_t>::max()) {
+        PyErr_SetString(PyExc_OverflowError, "power is too large");
+        return false;
+    }
+    power = static_cast<deg_t>(value);
+    return true;
+}
+static bool multiply_by_power(
+        scalars::monomial& monomial,
+        scalars::indeterminate_type indet,
+        PyObject* py_power
+)
+{
+    deg_t power = 0;
+    if (!power_from_int(py_power, power)) { return false; }
+    if (power > 0) { monomial *= scalars::monomial(indet, power); }
+    return true;
+}
+
 static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
 {
     auto* first = PyTuple_GetItem(item, 0);
@@ -506,10 +543,7 @@ static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
     scalars::indeterminate_type indet(0, 0);
 
     if (!indeterminate_from_string(first, indet)) { return false; }
-    auto pow = PyLong_AsLong(second);
-
-    monomial *= scalars::monomial(indet, static_cast<deg_t>(pow));
-    return true;
+    return multiply_by_power(monomial, indet, second);
 }
 
 static bool
@@ -539,10 +573,12 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             dict_def = arg;
         } else if (PySequence_Check(arg)) {
             auto size = PySequence_Size(arg);
-            PyObject* item;
-
             for (Py_ssize_t i = 0; i < size; ++i) {
-                item = PySequence_GetItem(arg, i);
+                auto py_item = py::reinterpret_steal<py::object>(
+                        PySequence_GetItem(arg, i)
+                );
+                auto* item = py_item.ptr();
+                if (item == nullptr) { return false; }
 
                 if (PyUnicode_Check(item)) {
                     if (!indeterminate_from_string(item, indet)) {
@@ -586,6 +622,10 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
     scalars::indeterminate_type letter(0, 0);
 
     while (PyDict_Next(dict_def, &pos, &key, &value)) {
+        if (!PyUnicode_Check(key)) {
+            PyErr_SetString(PyExc_TypeError, "expected indeterminates to be str");
+            return false;
+        }
         if (!indeterminate_from_string(key, letter)) { return false; }
         if (!PyLong_Check(value)) {
             PyErr_SetString(
@@ -595,8 +635,7 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             );
             return false;
         }
-        auto pow = PyLong_AsLong(value);
-        p_obj->m_data *= scalars::monomial(letter, static_cast<deg_t>(pow));
+        if (!multiply_by_power(p_obj->m_data, letter, value)) { return false; }
     }
     return true;
 }
@@ -611,19 +650,19 @@ PyObject* monomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
     construct_inplace(&p_obj->m_data);
 
     // Now parse the arguments and fill in the construction
-    if (!construct_new_monomial(p_obj, args, kwargs)) {
-        // Construction failed, make sure we deconstruct m_data
-        p_obj->m_data.~monomial();
-        Py_DECREF(p_obj);
-        p_obj = nullptr;
-    }
-
-    return reinterpret_cast<PyObject*>(p_obj);
+    auto py_obj = py::reinterpret_steal<py::object>(
+            reinterpret_cast<PyObject*>(p_obj)
+    );
+    return guarded([&]() -> PyObject* {
+        if (!construct_new_monomial(p_obj, args, kwargs)) { return nullptr; }
+        return py_obj.release().ptr();
+    });
 }
-void monomial_finalize(PyObject* self)
+void monomial_dealloc(PyObject* self)
 {
     // Make sure the destructor is run
     reinterpret_cast<RPyMonomial*>(self)->m_data.~monomial();
+    Py_TYPE(self)->tp_free(self);
 }
 int monomial_bool(PyObject* self)
 {
@@ -683,57 +722,71 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         PyErr_SetString(PyExc_TypeError, "index should be a string");
         return -1;
     }
-    if (!PyLong_Check(arg)) {
+    if (arg != nullptr && !PyLong_Check(arg)) {
         PyErr_SetString(PyExc_TypeError, "expected an int");
         return -1;
     }
-
     scalars::indeterminate_type letter(0, 0);
     if (!indeterminate_from_string(index, letter)) { return -1; }
-
-    try {
-        mon[letter] = static_cast<deg_t>(PyLong_AsLong(arg));
-    } catch (std::exception& exc) {
-        PyErr_SetString(PyExc_RuntimeError, "an unexpected error occurred");
-        return -1;
-    }
-
-    return 0;
+    deg_t power = 0;
+    if (arg != nullptr && !power_from_int(arg, power)) { return -1; }
+    return guarded(
+            [&]() {
+                // indeterminates with power zero are not part of the monomial
+                scalars::monomial result;
+                for (auto& comp : mon) {
+                    if (!(comp.first == letter)) {
+                        result[comp.first] = comp.second;
+                    }
+                }
+                if (power > 0) { result[letter] = power; }
+                mon = std::move(result);
+                return 0;
+            },
+            -1
+    );
 }
 
 static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
 {
-    if (PyLong_Check(scalar)) {
-        result = rat_t(PyLong_AsLongLong(scalar));
-        return true;
-    }
-    if (PyFloat_Check(scalar)) {
-        result = rat_t(PyFloat_AsDouble(scalar));
-        return true;
-    }
-
     try {
+        if (PyLong_Check(scalar)) {
+            int overflow = 0;
+            const auto value = PyLong_AsLongLongAndOverflow(scalar, &overflow);
+            result = overflow == 0
+                    ? rat_t(value)
+                    : rat_t(py::cast<std::string>(py::str(scalar)));
+            return true;
+        }
+        if (PyFloat_Check(scalar)) {
+            const auto value = PyFloat_AsDouble(scalar);
+            if (!std::isfinite(value)) { return false; }
+            result = rat_t(value);
+            return true;
+        }
         auto fraction = get_py_rational();
         if (py::isinstance(scalar, fraction)) {
-            auto numr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "numerator")
-            );
-            auto denr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "denominator")
-            );
-
-            result = rat_t(numr, denr);
+            rat_t numr;
+            rat_t denr;
+            if (!py_scalar_to_rat(
+                        numr,
+                        py::handle(scalar).attr("numerator").ptr()
+                )
+                || !py_scalar_to_rat(
+                        denr,
+                        py::handle(scalar).attr("denominator").ptr()
+                )) {
+                return false;
+            }
+            result = numr / denr;
             return true;
         }
-    } catch (py::error_already_set&) {
-        // If the error state is set, then clear it. This isn't really an
-        // error.
+    } catch (std::exception&) {
+        // This isn't really an error, the object is not a scalar we can use.
         PyErr_Clear();
     }
-
     return false;
 }
-
 PyObject* monomial_mul(PyObject* self, PyObject* other)
 {
     bool self_mon = is_monomial(self);
@@ -768,7 +821,7 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
         lhs *= rhs;
-        return self;
+        return new_reference(self);
     }
 
     rat_t scalar;
@@ -784,24 +837,30 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
 
     Py_RETURN_NOTIMPLEMENTED;
 }
-PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
+PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject* modulus)
 {
-    if (is_monomial(self) && PyLong_Check(other)) {
-        const auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
-
-        if (power < 0) {
-            PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
-            return nullptr;
-        }
-
-        auto* result = PyMonomial_FromMonomial(lhs);
-        auto& result_mon = cast_mon(result);
-        for (auto& comp : result_mon) { comp.second += power; }
+    if (!is_monomial(self) || !PyLong_Check(other) || modulus != Py_None) {
+        Py_RETURN_NOTIMPLEMENTED;
     }
 
-    Py_RETURN_NOTIMPLEMENTED;
+    deg_t power = 0;
+    if (!power_from_int(other, power)) { return nullptr; }
+
+    return guarded([&]() -> PyObject* {
+        scalars::monomial result;
+        if (power > 0) {
+            for (auto& comp : cast_mon(self)) {
+                if (comp.second > std::numeric_limits<deg_t>::max() / power) {
+                    PyErr_SetString(PyExc_OverflowError, "power is too large");
+                    return nullptr;
+                }
+                result[comp.first] = comp.second * power;
+            }
+        }
+        return PyMonomial_FromMonomial(std::move(result));
+    });
 }
+
 PyObject* monomial_floordiv(PyObject* self, PyObject* other)
 {
     Py_RETURN_NOTIMPLEMENTED;
@@ -814,22 +873,11 @@ PyObject* monomial_inplace_rem(PyObject* self, PyObject* other)
 {
     Py_RETURN_NOTIMPLEMENTED;
 }
-PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
+PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject* modulus)
 {
-    if (is_monomial(self) && PyLong_Check(other)) {
-        auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
-
-        if (power < 0) {
-            PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
-            return nullptr;
-        }
-
-        for (auto& comp : lhs) { comp.second += power; }
-    }
-
-    Py_RETURN_NOTIMPLEMENTED;
+    return monomial_pow(self, other, modulus);
 }
+
 PyObject* monomial_inplace_floordiv(PyObject* self, PyObject* other)
 {
     Py_RETURN_NOTIMPLEMENTED;
@@ -991,7 +1039,7 @@ PyObject* monomial_inplace_sub(PyObject* self, PyObject* other)
         rat_t scalar;
         if (py_scalar_to_rat(scalar, self)) {
             poly_t result(scalar);
-            result.add_scal_prod(mon, rat_t(1));
+            result -= poly_t(mon, rat_t(1));
             return PyPolynomial_FromPolynomial(std::move(result));
         }
     }
@@ -1016,7 +1064,7 @@ PyObject* monomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         rat_t divisor = rat_t(1) / scalar;
-        return PyPolynomial_FromPolynomial(poly_t(mon, scalar));
+        return PyPolynomial_FromPolynomial(poly_t(mon, divisor));
     }
 
     // We might want to support other types in the future
@@ -1087,7 +1135,7 @@ bool indeterminate_from_string(
     }
 
     auto chr = PyUnicode_READ_CHAR(py_string, 0);
-    if (!Py_UNICODE_ISALPHA(chr)) {
+    if (chr > 127 || !Py_UNICODE_ISALPHA(chr)) {
         PyErr_SetString(
                 PyExc_ValueError,
                 "expected first letter to be an latin character"
@@ -1098,13 +1146,20 @@ bool indeterminate_from_string(
 
     using int_type = typename scalars::indeterminate_type ::integral_type;
 
+    // The symbol takes the bits above the index
+    constexpr auto max_index
+            = std::numeric_limits<int_type>::max() >> CHAR_BIT;
     int_type index = 0;
     for (Py_ssize_t i = 1; i < size; ++i) {
         chr = PyUnicode_READ_CHAR(py_string, i);
-        if (!Py_UNICODE_ISDIGIT(chr)) {
+        if (chr > 127 || !Py_UNICODE_ISDIGIT(chr)) {
             PyErr_SetString(PyExc_ValueError, "expected a digit");
             return false;
         }
+        if (index > (max_index - 9) / 10) {
+            PyErr_SetString(PyExc_ValueError, "index is too large");
+            return false;
+        }
         index *= 10;
         index += static_cast<int_type>(Py_UNICODE_TODIGIT(chr));
     }
@@ -1161,7 +1216,9 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
 
     auto nargs = PyTuple_Size(args);
     rat_t scalar;
-    if (nargs == 1) {
+    if (nargs == 0) {
+        // The zero polynomial
+    } else if (nargs == 1) {
         /*
          * Single argument can be a scalar, a monomial, or a dict.
          */
@@ -1182,7 +1239,7 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
                 return nullptr;
             }
         } else if (py_scalar_to_rat(scalar, arg)) {
-            result = poly_t(std::move(scalar));
+            if (scalar != 0) { result = poly_t(std::move(scalar)); }
         } else {
             Py_DECREF(arg);
             PyErr_SetString(
@@ -1233,7 +1290,11 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
 
     return PyPolynomial_FromPolynomial(std::move(result));
 }
-void polynomial_finalize(PyObject* self) { cast_poly(self).~polynomial(); }
+void polynomial_dealloc(PyObject* self)
+{
+    cast_poly(self).~polynomial();
+    Py_TYPE(self)->tp_free(self);
+}
 PyObject* polynomial_rich_compare(PyObject* self, PyObject* other, int cmp)
 {
     if (is_polynomial(self) && is_polynomial(other)) {
@@ -1295,24 +1356,27 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         }
 
         monomial = scalars::monomial(indet);
+    } else {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "polynomial index must be monomial or str"
+        );
+        return -1;
     }
 
     rat_t newarg;
-    if (py_scalar_to_rat(newarg, arg)) {
+    if (arg != nullptr && !py_scalar_to_rat(newarg, arg)) {
         PyErr_SetString(PyExc_ValueError, "could not parse value");
         return -1;
     }
 
-    if (newarg != rat_t(0)) {
-        poly[monomial] = newarg;
-        return 0;
-    }
-
-    PyErr_SetString(
-            PyExc_TypeError,
-            "polynomial index must be monomial or str"
+    return guarded(
+            [&]() {
+                poly[monomial] = newarg;
+                return 0;
+            },
+            -1
     );
-    return -1;
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
@@ -1361,7 +1425,7 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs *= rhs;
-        return self;
+        return new_reference(self);
     }
 
     if (lhs_poly) {
@@ -1369,13 +1433,13 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly *= poly_t(mon, rat_t(1));
-            return self;
+            return new_reference(self);
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly *= poly_t(scalar);
-            return self;
+            return new_reference(self);
         }
 
         Py_RETURN_NOTIMPLEMENTED;
@@ -1397,10 +1461,12 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
 }
 PyObject* polynomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
+    if (!is_polynomial(self) || !PyLong_Check(other)) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
     const auto& poly = cast_poly(self);
-    if (!PyLong_Check(other)) { Py_RETURN_NOTIMPLEMENTED; }
-
     long power = PyLong_AsLong(other);
+    if (power == -1 && PyErr_Occurred() != nullptr) { return nullptr; }
     if (power < 0) {
         PyErr_SetString(
                 PyExc_ValueError,
@@ -1549,7 +1615,7 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs += rhs;
-        return self;
+        return new_reference(self);
     }
 
     if (lhs_poly) {
@@ -1557,13 +1623,13 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly += poly_t(mon, rat_t(1));
-            return self;
+            return new_reference(self);
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly += poly_t(scalar);
-            return self;
+            return new_reference(self);
         }
 
         Py_RETURN_NOTIMPLEMENTED;
@@ -1592,7 +1658,7 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs -= rhs;
-        return self;
+        return new_reference(self);
     }
 
     if (lhs_poly) {
@@ -1600,13 +1666,13 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly -= poly_t(mon, rat_t(1));
-            return self;
+            return new_reference(self);
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly -= poly_t(scalar);
-            return self;
+            return new_reference(self);
         }
 
         Py_RETURN_NOTIMPLEMENTED;
@@ -1644,7 +1710,7 @@ PyObject* polynomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         cast_poly(self) /= scalar;
-        return self;
+        return new_reference(self);
     }
 
     Py_RETURN_NOTIMPLEMENTED;
-- 
2.43.0


From 08c9efdf86f4c586ce84ab58ef5d8f6313b7216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 021/110] fix: scalar subtraction and division keep their
 operand order

---
 roughpy/src/scalars/scalars.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index c7e02b6..c761c72 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -145,6 +145,9 @@ void python::init_scalars(pybind11::module_& m)
         return self += Scalar(other);
     });
 
+    klass.def("__sub__", [](const Scalar& self, const Scalar& other) {
+        return self - other;
+    });
     klass.def("__sub__", [](const Scalar& self, scalar_t other) {
         return self - Scalar(other);
     });
@@ -157,6 +160,9 @@ void python::init_scalars(pybind11::module_& m)
     klass.def("__rsub__", [](const Scalar& self, long long other) {
         return Scalar(other) - self;
     });
+    klass.def("__isub__", [](Scalar& self, const Scalar& other) {
+        return self -= other;
+    });
     klass.def("__isub__", [](Scalar& self, scalar_t other) {
         return self -= Scalar(other);
     });
@@ -191,25 +197,35 @@ void python::init_scalars(pybind11::module_& m)
         return self *= Scalar(other);
     });
 
-    klass.def("__div__", [](const Scalar& self, scalar_t other) {
+    klass.def("__truediv__", [](const Scalar& self, const Scalar& other) {
+        if (other.is_zero()) { throw py::value_error("division by zero"); }
+        return self / other;
+    });
+    klass.def("__truediv__", [](const Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
     });
-    klass.def("__div__", [](const Scalar& self, long long other) {
+    klass.def("__truediv__", [](const Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
     });
-    klass.def("__rdiv__", [](const Scalar& self, scalar_t other) {
+    klass.def("__rtruediv__", [](const Scalar& self, scalar_t other) {
+        if (self.is_zero()) { throw py::value_error("division by zero"); }
         return Scalar(other) / self;
     });
-    klass.def("__rdiv__", [](const Scalar& self, long long other) {
+    klass.def("__rtruediv__", [](const Scalar& self, long long other) {
+        if (self.is_zero()) { throw py::value_error("division by zero"); }
         return Scalar(other) / self;
     });
-    klass.def("__idiv__", [](Scalar& self, scalar_t other) {
+    klass.def("__itruediv__", [](Scalar& self, const Scalar& other) {
+        if (other.is_zero()) { throw py::value_error("division by zero"); }
+        return self /= other;
+    });
+    klass.def("__itruediv__", [](Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
     });
-    klass.def("__idiv__", [](Scalar& self, long long other) {
+    klass.def("__itruediv__", [](Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
     });
-- 
2.43.0


From 16e0ca54c56498769282af5b258004e2579b3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 022/110] fix: converting a Lie element within its own context
 does not go through the tensor algebra

---
 algebra/src/lite_context.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index d41d5ed..5f4b2c5 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -442,8 +442,17 @@ LiteContext<Coefficients>::convert_impl(const Lie& arg) const
      * by factoring the Lie object through the FreeTensor. So we use
      * arg.context() to convert lie_to_tensor, convert the tensor using the
      * above implementation, and then use tensor_to_lie (from this) to convert
-     * back to a lie_t<VType>.
+     * back to a lie_t<VType>. This is not necessary if arg uses this basis
+     * already, and would only introduce rounding errors.
      */
+    if (&*arg.context() == this) {
+        VectorConstructionData data{
+                scalars::KeyScalarArray(arg.coeff_type()),
+                VType// Not that this really matters;
+        };
+        dtl::tensor_populate_vcd(data, arg);
+        return construct_impl<lie_t<VType>>(data, p_lbasis, p_liemul);
+    }
     auto tensor_version = arg->context()->lie_to_tensor(arg);
     return m_maps.tensor_to_lie(convert_impl<VType>(tensor_version));
 }
-- 
2.43.0


From 86ab5375d2a71f398553baa60aa1a821e104431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 023/110] fix: context property does not leak a reference

---
 roughpy/src/algebra/setup_algebra_type.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index c45af67..3abd87b 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -88,7 +88,9 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
         return arg.storage_type();
     }, ":py:attr:`~sparse` or :py:attr:`~dense`");
     klass.def_property_readonly("context", [](const Alg& arg) {
-        return py::handle(python::RPyContext_FromContext(arg.context()));
+        return py::reinterpret_steal<py::object>(
+                python::RPyContext_FromContext(arg.context())
+        );
     }, "Provide an algebra context in which to create the algebra.");
 
     // setup dynamic properties
-- 
2.43.0


From d22c3007647fae1490d277f2a208d7fcc41ff22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 024/110] fix: dyadic arithmetic and comparison are exact over
 the whole range of multipliers

---
 core/include/roughpy/core/types.hpp           |   2 +-
 intervals/include/roughpy/intervals/dyadic.h  |  11 +-
 .../roughpy/intervals/dyadic_interval.h       |   6 +
 intervals/src/dyadic.cpp                      | 115 ++++++++----------
 intervals/src/dyadic_interval.cpp             | 109 ++++++++++-------
 5 files changed, 135 insertions(+), 108 deletions(-)

diff --git a/core/include/roughpy/core/types.hpp b/core/include/roughpy/core/types.hpp
index 15108fb..0ee5ac6 100644
--- a/core/include/roughpy/core/types.hpp
+++ b/core/include/roughpy/core/types.hpp
@@ -61,7 +61,7 @@ using param_t = double;
 using scalar_t = double;
 
 using resolution_t = int;
-using dyadic_multiplier_t = int;
+using dyadic_multiplier_t = int64_t;
 using dyadic_depth_t = resolution_t;
 
 using accuracy_t = param_t;
diff --git a/intervals/include/roughpy/intervals/dyadic.h b/intervals/include/roughpy/intervals/dyadic.h
index 0c3b4f2..81b48c8 100644
--- a/intervals/include/roughpy/intervals/dyadic.h
+++ b/intervals/include/roughpy/intervals/dyadic.h
@@ -57,7 +57,7 @@ public:
     static constexpr multiplier_t mod(multiplier_t a, multiplier_t b)
     {
         multiplier_t r = a % b;
-        return (r < 0) ? (r + abs(b)) : r;
+        return (r < 0) ? (r + (b < 0 ? -b : b)) : r;
     }
     RPY_NO_DISCARD
     static constexpr multiplier_t int_two_to_int_power(power_t exponent)
@@ -99,6 +99,15 @@ private:
     RPY_SERIAL_SERIALIZE_FN();
 };
 
+/**
+ * @brief Exact three-way comparison of the rational numbers represented.
+ *
+ * @return a negative number, zero, or a positive number according to whether
+ * lhs is less than, equal to, or greater than rhs.
+ */
+RPY_NO_DISCARD ROUGHPY_INTERVALS_EXPORT
+int rational_compare(const Dyadic& lhs, const Dyadic& rhs) noexcept;
+
 ROUGHPY_INTERVALS_EXPORT
 bool operator<(const Dyadic& lhs, const Dyadic& rhs);
 
diff --git a/intervals/include/roughpy/intervals/dyadic_interval.h b/intervals/include/roughpy/intervals/dyadic_interval.h
index 885141a..5d4420b 100644
--- a/intervals/include/roughpy/intervals/dyadic_interval.h
+++ b/intervals/include/roughpy/intervals/dyadic_interval.h
@@ -73,6 +73,12 @@ public:
         RPY_DBG_ASSERT(itype == IntervalType::Clopen
                        || itype == IntervalType::Opencl);
     }
+    // Literals are usually int, for which the multiplier_t and param_t overloads
+    // are equally good.
+    DyadicInterval(int k, power_t n,
+                   IntervalType itype = IntervalType::Clopen)
+        : DyadicInterval(static_cast<multiplier_t>(k), n, itype)
+    {}
     DyadicInterval(Dyadic dyadic, power_t resolution,
                    IntervalType itype = IntervalType::Clopen);
     DyadicInterval(param_t val, power_t resolution,
diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..2c1dd08 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -32,20 +32,26 @@
 
 #include "roughpy/intervals/dyadic.h"
 
+#include "roughpy/core/check.h"
 #include "roughpy/core/types.hpp"
 
 #include <cmath>
 #include <ostream>
+#include <stdexcept>
 
 using namespace rpy;
 using namespace rpy::intervals;
 
 Dyadic::operator param_t() const noexcept
 {
-    return ldexp(param_t(m_multiplier), -m_power);
+    return std::scalbln(param_t(m_multiplier), -static_cast<long>(m_power));
 }
 Dyadic& Dyadic::move_forward(Dyadic::multiplier_t arg)
 {
+    using limits = std::numeric_limits<multiplier_t>;
+    RPY_CHECK(arg >= 0 ? m_multiplier <= limits::max() - arg
+                       : m_multiplier >= limits::min() - arg,
+              "dyadic multiplier is out of range", std::overflow_error);
     m_multiplier += arg;
     return *this;
 }
@@ -77,68 +83,69 @@ bool Dyadic::rebase(Dyadic::power_t resolution)
         m_power = resolution;
         return true;
     } else if (resolution >= m_power) {
-        m_multiplier = shift(m_multiplier, resolution - m_power);
+        using limits = std::numeric_limits<multiplier_t>;
+        const auto rel = static_cast<int64_t>(resolution) - m_power;
+        // Refuse if the multiplier cannot be represented at this resolution
+        if (rel >= limits::digits || m_multiplier > (limits::max() >> rel)
+            || m_multiplier < (limits::min() >> rel)) {
+            return false;
+        }
+        m_multiplier = shift(m_multiplier, static_cast<power_t>(rel));
         m_power = resolution;
         return true;
     }
 
-    if (m_power >= std::numeric_limits<multiplier_t>::digits + resolution) {
-        resolution = (m_power - std::numeric_limits<power_t>::digits) + 1;
+    // Divide by the largest power of 2 that divides k and does not take us
+    // past the requested resolution.
+    while (m_power > resolution && m_multiplier % 2 == 0) {
+        m_multiplier /= 2;
+        --m_power;
     }
-
-    power_t rel_resolution{m_power - resolution};
-
-    // starting at relative resolution find the first n in decreasing order so
-    // that 2^n divides k 2^0 always divides k so the action stops
-    power_t r = rel_resolution;
-    for (; (m_multiplier % int_two_to_int_power(r)) != 0; --r) {}
-
-    power_t offset = r;
-    m_multiplier /= int_two_to_int_power(offset);
-    m_power -= offset;
     // pr();
     return resolution == m_power;
 }
 
-bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+int rpy::intervals::rational_compare(const Dyadic& lhs,
+                                     const Dyadic& rhs) noexcept
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
+    if (lhs.power() < rhs.power()) { return -rational_compare(rhs, lhs); }
+
+    // Compare the integer and fractional parts of lhs * 2^rhs.power() with the
+    // integer rhs * 2^rhs.power(). Nothing here can overflow.
+    constexpr int digits = std::numeric_limits<Dyadic::multiplier_t>::digits;
+    const auto k = lhs.multiplier();
+    const auto rel = static_cast<int64_t>(lhs.power()) - rhs.power();
+
+    Dyadic::multiplier_t quotient = k < 0 ? -1 : 0;
+    bool remainder = k != 0;
+    if (rel <= digits) {
+        quotient = k >> rel;
+        remainder = (static_cast<uint64_t>(k)
+                     & ((static_cast<uint64_t>(1) << rel) - 1))
+                != 0;
+    }
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+    if (quotient != rhs.multiplier()) {
+        return quotient < rhs.multiplier() ? -1 : 1;
+    }
+    return remainder ? 1 : 0;
+}
+
+bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+{
+    return rational_compare(lhs, rhs) < 0;
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return rational_compare(lhs, rhs) <= 0;
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return rational_compare(lhs, rhs) > 0;
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return rational_compare(lhs, rhs) >= 0;
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
@@ -150,27 +157,7 @@ bool rpy::intervals::dyadic_equals(const Dyadic& lhs, const Dyadic& rhs)
 }
 bool rpy::intervals::rational_equals(const Dyadic& lhs, const Dyadic& rhs)
 {
-    /*
-     * If both multipliers are zero then both rationals are zero, regardless of
-     * power. Otherwise, if either one is zero but not the other then they
-     * cannot be equal.
-     */
-    if (lhs.multiplier() == 0 && rhs.multiplier() == 0) { return true; }
-    if (lhs.multiplier() == 0 || rhs.multiplier() == 0) { return false; }
-
-    Dyadic::multiplier_t ratio;
-    if (lhs.multiplier() % rhs.multiplier() == 0
-        && (ratio = lhs.multiplier() / rhs.multiplier()) >= 1) {
-        Dyadic::power_t rel_tolerance = lhs.power() - rhs.power();
-        if (rel_tolerance < 0) { return false; }
-        return ratio == Dyadic::int_two_to_int_power(rel_tolerance);
-    } else if (rhs.multiplier() % lhs.multiplier() == 0
-               && (ratio = rhs.multiplier() / lhs.multiplier()) >= 1) {
-        Dyadic::power_t rel_tolerance = rhs.power() - lhs.power();
-        if (rel_tolerance < 0) { return false; }
-        return ratio == Dyadic::int_two_to_int_power(rel_tolerance);
-    }
-    return false;
+    return rational_compare(lhs, rhs) == 0;
 }
 
 #define RPY_EXPORT_MACRO ROUGHPY_INTERVALS_EXPORT
diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..bb08856 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -33,7 +33,10 @@
 #include <roughpy/intervals/dyadic_interval.h>
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 #include <list>
+#include <stdexcept>
 
 
 #include "roughpy/core/check.h"               // for throw_exception, RPY_CHECK
@@ -44,17 +47,47 @@
 using namespace rpy;
 using namespace rpy::intervals;
 
+namespace {
+
+// Get the multiplier of the interval of the given type that contains the
+// interval with multiplier k and is 2^rel times as long.
+inline Dyadic::multiplier_t
+ancestor(Dyadic::multiplier_t k, int64_t rel, IntervalType itype) noexcept
+{
+    constexpr int digits = std::numeric_limits<Dyadic::multiplier_t>::digits;
+    Dyadic::multiplier_t floor = k < 0 ? -1 : 0;
+    bool exact = k == 0;
+    if (rel <= digits) {
+        floor = k >> rel;
+        exact = (static_cast<uint64_t>(k)
+                 & ((static_cast<uint64_t>(1) << rel) - 1))
+                == 0;
+    }
+    return (itype == IntervalType::Clopen || exact) ? floor : floor + 1;
+}
+
+inline Dyadic::power_t checked_power(int64_t power)
+{
+    using limits = std::numeric_limits<Dyadic::power_t>;
+    RPY_CHECK(power >= limits::min() && power <= limits::max(),
+              "dyadic resolution is out of range", std::overflow_error);
+    return static_cast<Dyadic::power_t>(power);
+}
+
+}// namespace
+
 DyadicInterval::DyadicInterval(Dyadic dyadic, Dyadic::power_t resolution,
                                IntervalType itype)
     : Dyadic(dyadic), Interval(itype)
 {
     if (!rebase(resolution)) {
-        multiplier_t k1 = m_multiplier;
-        const multiplier_t one = unit();
-        multiplier_t pow = int_two_to_int_power(m_power - resolution);
-        m_multiplier = one * (k1 * one - mod(k1 * one, pow));
-        bool is_int = rebase(resolution);
-        RPY_CHECK(is_int);
+        RPY_CHECK(m_power > resolution,
+                  "dyadic interval is too far from zero for this resolution",
+                  std::overflow_error);
+        m_multiplier = ancestor(m_multiplier,
+                                static_cast<int64_t>(m_power) - resolution,
+                                m_interval_type);
+        m_power = resolution;
     }
 }
 DyadicInterval::DyadicInterval(param_t val, Dyadic::power_t resolution,
@@ -62,11 +95,16 @@ DyadicInterval::DyadicInterval(param_t val, Dyadic::power_t resolution,
     : Dyadic(0, 0), Interval(itype)
 {
     auto rescaled = ldexp(val, resolution);
-    if (m_interval_type == IntervalType::Opencl) {
-        m_multiplier = ceil(rescaled);
-    } else {
-        m_multiplier = floor(rescaled);
-    }
+    const auto rounded = m_interval_type == IntervalType::Opencl
+            ? std::ceil(rescaled)
+            : std::floor(rescaled);
+    const auto bound
+            = ldexp(param_t(1), std::numeric_limits<multiplier_t>::digits);
+    // Written so that NaN is rejected too
+    RPY_CHECK(rounded > -bound && rounded < bound,
+              "parameter is too far from zero for this resolution",
+              std::overflow_error);
+    m_multiplier = static_cast<multiplier_t>(rounded);
     m_power = resolution;
 }
 Dyadic DyadicInterval::dincluded_end() const
@@ -75,7 +113,8 @@ Dyadic DyadicInterval::dincluded_end() const
 }
 Dyadic DyadicInterval::dexcluded_end() const
 {
-    return Dyadic(m_multiplier + unit(), m_power);
+    Dyadic result(m_multiplier, m_power);
+    return result.move_forward(unit());
 }
 Dyadic DyadicInterval::dinf() const
 {
@@ -101,7 +140,9 @@ param_t DyadicInterval::excluded_end() const
 DyadicInterval
 DyadicInterval::shrink_to_contained_end(Dyadic::power_t arg) const
 {
-    return {static_cast<const Dyadic&>(*this), arg + m_power, m_interval_type};
+    return {static_cast<const Dyadic&>(*this),
+            checked_power(static_cast<int64_t>(arg) + m_power),
+            m_interval_type};
 }
 DyadicInterval DyadicInterval::shrink_to_omitted_end() const
 {
@@ -130,30 +171,27 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(),
+                           checked_power(static_cast<int64_t>(m_power) - arg),
+                           m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
 {
     if (other.m_interval_type != m_interval_type) { return false; }
     if (other.m_power >= m_power) {
-        multiplier_t one(unit());
-        multiplier_t pow = int_two_to_int_power(other.m_power - m_power);
-        multiplier_t shifted = shift(m_multiplier, (other.m_power - m_power));
-        multiplier_t aligned = one
-                * (other.m_multiplier * one
-                   - mod(other.m_multiplier * one, pow));
-
-        return shifted == aligned;
+        return m_multiplier
+                == ancestor(other.m_multiplier,
+                            static_cast<int64_t>(other.m_power) - m_power,
+                            m_interval_type);
     }
     return false;
 }
 bool DyadicInterval::aligned() const
 {
-    DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
-                          m_interval_type};
-    return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+    // The included end of the parent is the included end of the child with
+    // an even multiplier, for either type of interval.
+    return m_multiplier % 2 == 0;
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
@@ -232,22 +270,9 @@ bool rpy::intervals::operator<(const DyadicInterval& lhs,
 {
     if (lhs.type() != rhs.type()) { return false; }
 
-    auto lhs_k = lhs.multiplier();
-    auto lhs_n = lhs.power();
-    auto rhs_k = rhs.multiplier();
-    auto rhs_n = rhs.power();
-
-    auto unit = lhs.unit();
-
-    if (lhs_n == rhs_n) { return unit * (rhs_k - lhs_k) > 0; }
-
-    if (lhs_n > rhs_n) {
-        rhs_k = Dyadic::shift(rhs_k, lhs_n - rhs_n);
-        return unit * (rhs_k - lhs_k) > 0;
-    }
-
-    lhs_k = Dyadic::shift(lhs_k, rhs_n - lhs_n);
-    return unit * (rhs_k - lhs_k) >= 0;
+    const auto cmp = rational_compare(lhs, rhs);
+    if (cmp == 0) { return lhs.power() < rhs.power(); }
+    return lhs.unit() > 0 ? cmp < 0 : cmp > 0;
 }
 
 #define RPY_EXPORT_MACRO ROUGHPY_INTERVALS_EXPORT
-- 
2.43.0


From b89ff92c08fa31146c393ff6b61abd6f1158d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 025/110] fix: intervals keep their type and ends under set
 operations

---
 intervals/src/intersection_and_union.cpp | 4 ++--
 intervals/src/interval.cpp               | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/intervals/src/intersection_and_union.cpp b/intervals/src/intersection_and_union.cpp
index 6477807..c7abf13 100644
--- a/intervals/src/intersection_and_union.cpp
+++ b/intervals/src/intersection_and_union.cpp
@@ -26,7 +26,7 @@ RealInterval intervals::intersection(const Interval& lhs,
     auto inf = std::max(linf, rinf);
     auto sup = std::min(lsup, rsup);
 
-    return RealInterval(inf, sup);
+    return RealInterval(inf, sup, lhs.type());
 }
 
 
@@ -34,5 +34,5 @@ RealInterval
 intervals::interval_union(const Interval& lhs, const Interval& rhs) noexcept
 {
     return RealInterval(std::min(lhs.inf(), rhs.inf()),
-                        std::max(lhs.sup(), rhs.sup()));
+                        std::max(lhs.sup(), rhs.sup()), lhs.type());
 }
\ No newline at end of file
diff --git a/intervals/src/interval.cpp b/intervals/src/interval.cpp
index fcff624..0561320 100644
--- a/intervals/src/interval.cpp
+++ b/intervals/src/interval.cpp
@@ -75,6 +75,12 @@ bool Interval::is_associated(const Interval& arg) const noexcept
 }
 bool Interval::contains(const Interval& arg) const noexcept
 {
+    if (m_interval_type != arg.m_interval_type) {
+        // The shared end-point belongs to only one of the intervals
+        return m_interval_type == IntervalType::Clopen
+                ? inf() <= arg.inf() && arg.sup() < sup()
+                : inf() < arg.inf() && arg.sup() <= sup();
+    }
     return inf() <= arg.inf() && arg.sup() <= sup();
 }
 bool Interval::intersects_with(const Interval& arg) const noexcept
@@ -84,6 +90,9 @@ bool Interval::intersects_with(const Interval& arg) const noexcept
     auto rhs_inf = arg.inf();
     auto rhs_sup = arg.sup();
 
+    // Empty intervals do not intersect with anything
+    if (lhs_inf == lhs_sup || rhs_inf == rhs_sup) { return false; }
+
     if ((lhs_inf <= rhs_inf && lhs_sup > rhs_inf)
         || (rhs_inf <= lhs_inf && rhs_sup > lhs_inf)) {
         // [l--[r---l)--r) || [r--[l--r)--l)
-- 
2.43.0


From d433800c6cb588b02aa7b1bb41bc84e0ddb2a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 026/110] fix: partitions are sorted and free of duplicates,
 equality and merge

---
 .../include/roughpy/intervals/partition.h     |  10 +-
 intervals/src/partition.cpp                   | 166 +++++-------------
 2 files changed, 46 insertions(+), 130 deletions(-)

diff --git a/intervals/include/roughpy/intervals/partition.h b/intervals/include/roughpy/intervals/partition.h
index d0678ad..0814c79 100644
--- a/intervals/include/roughpy/intervals/partition.h
+++ b/intervals/include/roughpy/intervals/partition.h
@@ -49,16 +49,16 @@ public:
 private:
     intermediates_t m_intermediate_points;
 
+    // Sort, and remove duplicates and points outside the interval
+    void normalise();
+
 public:
     Partition() = default;
 
     explicit Partition(RealInterval base);
     explicit Partition(RealInterval base, Slice<param_t> intermediate_points);
 
-    Partition(RealInterval base, std::vector<param_t>&& intermediates)
-        : RealInterval(std::move(base)),
-          m_intermediate_points(std::move(intermediates))
-    {}
+    Partition(RealInterval base, std::vector<param_t>&& intermediates);
 
     RPY_NO_DISCARD
     Partition refine_midpoints() const;
@@ -84,7 +84,7 @@ public:
 
 
     RPY_NO_DISCARD
-    bool operator=(const Partition& other) const noexcept {
+    bool operator==(const Partition& other) const noexcept {
         if (static_cast<const RealInterval&>(*this) != other) {
             return false;
         }
diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..6caf0cd 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -46,14 +46,30 @@ Partition::Partition(RealInterval base) : RealInterval(std::move(base)) {}
 Partition::Partition(RealInterval base, Slice<param_t> intermediate_points)
     : RealInterval(std::move(base))
 {
-    m_intermediate_points.reserve(intermediate_points.size());
-    for (auto&& mid : intermediate_points) {
-        if (contains_point(mid) && mid != inf() && mid != sup()) {
-            m_intermediate_points.push_back(mid);
-        }
-    }
-    std::sort(m_intermediate_points.begin(), m_intermediate_points.end());
+    m_intermediate_points.assign(intermediate_points.begin(),
+                                 intermediate_points.end());
+    normalise();
+}
+
+Partition::Partition(RealInterval base, std::vector<param_t>&& intermediates)
+    : RealInterval(std::move(base)),
+      m_intermediate_points(std::move(intermediates))
+{
+    normalise();
 }
+
+void Partition::normalise()
+{
+    auto& points = m_intermediate_points;
+    points.erase(std::remove_if(points.begin(), points.end(),
+                                [this](param_t mid) {
+                                    return !(inf() < mid && mid < sup());
+                                }),
+                 points.end());
+    std::sort(points.begin(), points.end());
+    points.erase(std::unique(points.begin(), points.end()), points.end());
+}
+
 Partition Partition::refine_midpoints() const
 {
     // Only copy the base interval, we'll fill in the points
@@ -93,7 +109,7 @@ param_t Partition::mesh() const noexcept
 RealInterval Partition::operator[](dimn_t i) const
 {
     const auto num_midpoints = m_intermediate_points.size();
-    RPY_CHECK(i <= num_midpoints);
+    RPY_CHECK(i <= num_midpoints, "index out of range", std::out_of_range);
 
     if (num_midpoints == 0) {
         // Special case, there are no intermediate points, so the 0th interval
@@ -119,7 +135,7 @@ RealInterval Partition::operator[](dimn_t i) const
 
 void Partition::insert_intermediate(param_t new_intermediate)
 {
-    if (!contains_point(new_intermediate)) {
+    if (!(inf() < new_intermediate && new_intermediate < sup())) {
         RPY_THROW(std::invalid_argument,"provided intermediate does not lie "
                                     "within the interval");
     }
@@ -129,128 +145,28 @@ void Partition::insert_intermediate(param_t new_intermediate)
     auto insert_point
             = std::lower_bound(m_intermediate_points.begin(),
                                m_intermediate_points.end(), new_intermediate);
-    m_intermediate_points.insert(insert_point, new_intermediate);
+    if (insert_point == m_intermediate_points.end()
+        || *insert_point != new_intermediate) {
+        m_intermediate_points.insert(insert_point, new_intermediate);
+    }
 }
 
 Partition Partition::merge(const Partition& other) const
 {
     RPY_CHECK(type() == other.type());
 
-    const auto linf = inf();
-    const auto lsup = sup();
-    const auto rinf = other.inf();
-    const auto rsup = other.sup();
-
-    Partition result(
-            RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
-
-    if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(lsup);
-        }
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rinf);
-        }
-    } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rsup);
-        }
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(linf);
-        }
-    } else {
-
-        // At worst, the result has size size() + other.size();
-        result.m_intermediate_points.reserve(size() + other.size());
-
-        auto lit = m_intermediate_points.cbegin();
-        const auto lend = m_intermediate_points.cend();
-        auto rit = other.m_intermediate_points.cbegin();
-        const auto rend = other.m_intermediate_points.cend();
-
-        auto max_inf = std::max(linf, rinf);
-        auto min_sup = std::min(lsup, rsup);
-        // First handle the cases where *lit < rinf and *rit < linf
-        // We know that all *lit > linf and *rit > rinf, so the insertion
-        // is linear between inf and max(linf, rinf)
-        // Only one of these loops will execute
-        for (; lit != lend && *lit < rinf; ++lit) {
-            result.m_intermediate_points.push_back(*lit);
-        }
-        for (; rit != rend && *rit < linf; ++rit) {
-            result.m_intermediate_points.push_back(*rit);
-        }
-
-        /*
-         * Here we need to be careful to make sure we don't insert max(linf,
-         * rinf) twice, in the case where linf == *rit or rinf == *lit. Also,
-         * only do this if linf != rinf
-         */
-        if (linf != rinf) {
-            result.m_intermediate_points.push_back(max_inf);
-            if (rit != rend && *rit == max_inf) { ++rit; }
-            if (lit != lend && *lit == max_inf) { ++lit; }
-        }
-
-        /*
-         * Now comes the interesting bit. We need to interleave between
-         * max(linf, rinf) and min(lsup, rsup). If lsup < rsup then it is never
-         * true that *lit >= rsup. Similarly, if rsup < lsup then it is never
-         * true that *rit >= lsup. Consequently, we only need to check that
-         * lit and rit don't hit lend and rend (respectively) in order to know
-         * that we've got to min(lsup, rsup).
-         */
-        while (lit != lend && rit != rend) {
-            if (*lit == *rit) {
-                result.m_intermediate_points.push_back(*lit);
-                ++lit;
-                ++rit;
-            } else if (*lit < *rit) {
-                result.m_intermediate_points.push_back(*lit);
-                ++lit;
-            } else {
-                result.m_intermediate_points.push_back(*rit);
-                ++rit;
-            }
-        }
-
-        /*
-         * Insert any *lit or *rit that lie between lsup and rsup or rsup and
-         * lsup respectively.
-         */
-        for (; lit != lend && *lit < rsup; ++lit) {
-            result.m_intermediate_points.push_back(*lit);
-        }
-        for (; rit != rend && *rit < lsup; ++rit) {
-            result.m_intermediate_points.push_back(*rit);
-        }
-
-        /*
-         * Now insert min(lsup, rsup). Again we need to be careful that we don't
-         * accidentally insert the same value twice if it appears as both an
-         * end point and as an intermediate point.
-         * Only do this step if lsup != rsup and if min(lsup, rsup) != max(linf,
-         * rinf).
-         */
-        if (lsup != rsup && min_sup != max_inf) {
-            result.m_intermediate_points.push_back(min_sup);
-            if (lit != lend && *lit == min_sup) { ++lit; }
-            if (rit != rend && *rit == min_sup) { ++rit; }
-        }
-
-        // Now finish off whatever intermediate points remain.
-        // Only one of these loops will execute
-        for (; lit != lend; ++lit) {
-            result.m_intermediate_points.push_back(*lit);
-        }
-        for (; rit != rend; ++rit) {
-            result.m_intermediate_points.push_back(*rit);
-        }
-    }
-
-    return result;
+    // The cells of both partitions are unions of cells of the result, so
+    // collect all the end points of all the cells.
+    intermediates_t points{inf(), sup(), other.inf(), other.sup()};
+    points.insert(points.end(), m_intermediate_points.begin(),
+                  m_intermediate_points.end());
+    points.insert(points.end(), other.m_intermediate_points.begin(),
+                  other.m_intermediate_points.end());
+
+    return Partition(
+            RealInterval(std::min(inf(), other.inf()),
+                         std::max(sup(), other.sup()), type()),
+            std::move(points));
 }
 
 #define RPY_EXPORT_MACRO ROUGHPY_INTERVALS_EXPORT
-- 
2.43.0


From d19bd2e713026682d2bd26d2ab49b2456610b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 027/110] fix: segmentation never looks outside the interval it
 segments

---
 intervals/src/dyadic_searcher.cpp  | 5 +++--
 intervals/src/scaled_predicate.cpp | 4 +++-
 intervals/src/scaled_predicate.h   | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index e37f8b2..e580fc8 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -139,7 +139,7 @@ DyadicSearcher::rescale_to_unit_interval(const Interval& original)
      * y -> a + y*(b-a)
      */
 
-    return {m_predicate, a, (b - a)};
+    return {m_predicate, a, (b - a), original.type()};
 }
 void DyadicSearcher::get_next_dyadic(DyadicInterval& current) const
 {
@@ -217,7 +217,8 @@ DyadicSearcher::find_in_unit_interval(ScaledPredicate& predicate)
     for (dyadic_depth_t current_depth = 1; current_depth <= m_max_depth;
          ++current_depth) {
         // Starting interval for this depth is [(2^d-1)/2^d, 2^d/2^d)
-        DyadicInterval check_current{(1 << current_depth), current_depth};
+        DyadicInterval check_current{
+                Dyadic::int_two_to_int_power(current_depth), current_depth};
         get_next_dyadic(check_current);
 
         // We're iterating from right to left, so the end point is 0.
diff --git a/intervals/src/scaled_predicate.cpp b/intervals/src/scaled_predicate.cpp
index 0f134d3..29da339 100644
--- a/intervals/src/scaled_predicate.cpp
+++ b/intervals/src/scaled_predicate.cpp
@@ -37,9 +37,11 @@ using namespace rpy::intervals;
 RealInterval ScaledPredicate::unscale(const Interval& interval) const
 {
     return {interval.inf() * m_scale + m_shift,
-            interval.sup() * m_scale + m_shift, interval.type()};
+            interval.sup() * m_scale + m_shift, m_itype};
 }
 bool ScaledPredicate::operator()(const Interval& interval) const
 {
+    // Never look outside the original interval, which is the unit interval here
+    if (interval.inf() < 0.0 || interval.sup() > 1.0) { return false; }
     return m_func(unscale(interval));
 }
diff --git a/intervals/src/scaled_predicate.h b/intervals/src/scaled_predicate.h
index 9b7f308..5f2038b 100644
--- a/intervals/src/scaled_predicate.h
+++ b/intervals/src/scaled_predicate.h
@@ -44,10 +44,12 @@ class ScaledPredicate
     predicate_t& m_func;
     param_t m_shift;
     param_t m_scale;
+    IntervalType m_itype;
 
 public:
-    ScaledPredicate(predicate_t& predicate, param_t shift, param_t scale)
-        : m_func(predicate), m_shift(shift), m_scale(scale)
+    ScaledPredicate(predicate_t& predicate, param_t shift, param_t scale,
+                    IntervalType itype)
+        : m_func(predicate), m_shift(shift), m_scale(scale), m_itype(itype)
     {}
 
     RealInterval unscale(const Interval& interval) const;
-- 
2.43.0


From 0c8a3b6314cd22d6e9e045cf7a41114d04955517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 028/110] fix: restrict and simplify keep to the support of the
 stream

---
 streams/src/restriction_stream.cpp   | 4 +++-
 streams/src/stream.cpp               | 6 +++++-
 streams/src/tensor_valued_stream.cpp | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/streams/src/restriction_stream.cpp b/streams/src/restriction_stream.cpp
index 82e5d27..1cbe4de 100644
--- a/streams/src/restriction_stream.cpp
+++ b/streams/src/restriction_stream.cpp
@@ -24,7 +24,9 @@ rpy::algebra::Lie rpy::streams::RestrictionStream::log_signature_impl(
     const intervals::Interval& interval,
     const algebra::Context& ctx) const
 {
-    RPY_CHECK(m_domain.intersects_with(interval));
+    if (!m_domain.intersects_with(interval)) {
+        return ctx.zero_lie(metadata().cached_vector_type);
+    }
 
     const auto query = intersection(m_domain, interval);
     return p_stream->log_signature(query, ctx);
diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index c58eaac..74de60b 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -83,7 +83,10 @@ Stream Stream::restrict(const Stream::Interval& interval) const
 {
     RealInterval support(interval);
     if (p_impl) { support = p_impl->schema().adjust_interval(interval); }
-
+    // A restriction can only ever make the support smaller.
+    const auto inf = std::max(support.inf(), m_support.inf());
+    const auto sup = std::min(support.sup(), m_support.sup());
+    support = RealInterval(inf, std::max(inf, sup), support.type());
     return {p_impl, support};
 }
 
@@ -249,6 +252,7 @@ Stream Stream::simplify(
     StreamMetadata new_md(metadata());
     new_md.default_resolution = resolution;
     new_md.default_context = &ctx;
+    new_md.effective_support = RealInterval(partition);
 
     return Stream(PiecewiseAbelianStream(
             std::move(pieces),
diff --git a/streams/src/tensor_valued_stream.cpp b/streams/src/tensor_valued_stream.cpp
index 9290d4f..34da3e5 100644
--- a/streams/src/tensor_valued_stream.cpp
+++ b/streams/src/tensor_valued_stream.cpp
@@ -36,7 +36,11 @@ algebra::Lie TensorValuedStream::log_signature_impl(
     const intervals::Interval& interval,
     const algebra::Context& ctx) const
 {
-    return p_increment_stream->log_signature(interval, ctx);
+    if (!m_domain.intersects_with(interval)) {
+        return ctx.zero_lie(metadata().cached_vector_type);
+    }
+    return p_increment_stream->log_signature(
+        intersection(m_domain, interval), ctx);
 }
 
 const intervals::RealInterval& TensorValuedStream::domain() const noexcept
-- 
2.43.0


From ffe0895124889f97c2ff9321848bcd5f9866af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 029/110] fix: dyadic caching layer only caches values of the
 default context

---
 streams/src/dyadic_caching_layer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..f23644a 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -71,6 +71,7 @@ DyadicCachingLayer::DyadicCachingLayer(DyadicCachingLayer&& other) noexcept
 {
     std::lock_guard<std::recursive_mutex> access(other.m_compute_lock);
     m_cache = std::move(other.m_cache);
+    m_cache_id = other.m_cache_id;
 }
 DyadicCachingLayer&
 DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
@@ -79,6 +80,7 @@ DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
         std::lock_guard<std::recursive_mutex> this_access(m_compute_lock);
         std::lock_guard<std::recursive_mutex> that_access(other.m_compute_lock);
         m_cache = std::move(other.m_cache);
+        m_cache_id = other.m_cache_id;
         StreamInterface::operator=(std::move(other));
     }
     return *this;
@@ -95,13 +97,16 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     const auto stream_resolution = metadata().default_resolution;
 
     if (interval.power() == stream_resolution) {
-        std::lock_guard<std::recursive_mutex> access(m_compute_lock);
+        // The cache only holds values in the default context.
+        if (&ctx != metadata().default_context.get()) {
+            return log_signature_impl(interval, ctx);
+        }
 
+        std::lock_guard<std::recursive_mutex> access(m_compute_lock);
         auto& cached = m_cache[interval];
         if (!cached) { cached = log_signature_impl(interval, ctx); }
-        // Currently, const borrowing is not permitted, so return a mutable
-        // view.
-        return cached.borrow_mut();
+        // Return a copy, the caller is free to modify the value it receives
+        return algebra::Lie(cached);
     }
 
     if (interval.power() > stream_resolution) {
@@ -111,7 +116,7 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
         if (rational_equals(tmp, interval)) {
             return log_signature(tmp, stream_resolution, ctx);
         }
-        return algebra::Lie();
+        return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
     intervals::DyadicInterval lhs_itvl(interval);
-- 
2.43.0


From 1a1f35d801fd55c1378274e2359d2adb287bf2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 030/110] fix: piecewise abelian stream takes the covered
 fraction of each piece

---
 streams/src/piecewise_abelian_stream.cpp | 37 ++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..7b3f95f 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -33,6 +33,7 @@
 #include <roughpy/streams/schema.h>
 
 #include <cereal/types/vector.hpp>
+#include <algorithm>
 
 using namespace rpy;
 using namespace rpy::streams;
@@ -42,6 +43,22 @@ using rpy::algebra::Lie;
 using rpy::intervals::Interval;
 using rpy::intervals::RealInterval;
 
+namespace {
+
+// The data must be in order of the intervals on which it is defined.
+void sort_pieces(std::vector<PiecewiseAbelianStream::LiePiece>& pieces)
+{
+    using LiePiece = PiecewiseAbelianStream::LiePiece;
+    std::stable_sort(
+            pieces.begin(), pieces.end(),
+            [](const LiePiece& lhs, const LiePiece& rhs) {
+                return lhs.first.inf() < rhs.first.inf();
+            }
+    );
+}
+
+}// namespace
+
 PiecewiseAbelianStream::PiecewiseAbelianStream(
         std::vector<LiePiece>&& data, StreamMetadata&& md
 )
@@ -133,6 +150,8 @@ PiecewiseAbelianStream::PiecewiseAbelianStream(
     //        m_data.push_back(std::move(*it));
     //    }
 
+    sort_pieces(m_data);
+
     const auto& meta = metadata();
     auto schema = std::make_shared<streams::StreamSchema>();
     auto& info = schema->insert_lie("");
@@ -146,7 +165,9 @@ PiecewiseAbelianStream::PiecewiseAbelianStream(
         std::shared_ptr<StreamSchema> schema
 )
     : StreamInterface(std::move(md), std::move(schema)), m_data(std::move(arg))
-{}
+{
+    sort_pieces(m_data);
+}
 
 bool PiecewiseAbelianStream::empty(const Interval& interval) const noexcept
 {
@@ -173,14 +194,12 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
-            // [p---[---p)-----)
-            lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
-            ));
-        } else if (pa >= a && pb > b) {
-            // [---[p----)----p)
-            lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
-            ));
+        } else {
+            // The piece is partially covered, take the fraction that is
+            const auto covered = std::min(b, pb) - std::max(a, pa);
+            lies.push_back(
+                    piece.second.smul(scalars::Scalar(covered / (pb - pa)))
+            );
         }
     }
 
-- 
2.43.0


From a4c049a11761ad4c61ef6ab83531d1bdce5abda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 031/110] fix: dynamic streams keep their root consistent and
 refine every leaf

---
 .../streams/dynamically_constructed_stream.h  |   2 +
 .../src/dynamically_constructed_stream.cpp    | 101 +++++++++---------
 2 files changed, 51 insertions(+), 52 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..87a220d 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -106,6 +106,8 @@ private:
 
     void refine_accuracy(data_increment increment, resolution_t desired) const;
 
+    RPY_NO_DISCARD
+    data_increment find_root(const DyadicInterval& interval) const;
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
                                               DyadicInterval di) const;
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..99273a1 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -40,6 +40,9 @@
 #include <roughpy/algebra/lie.h>
 #include <cereal/types/vector.hpp>
 
+#include <algorithm>
+#include <iterator>
+
 using namespace rpy;
 using namespace rpy::streams;
 
@@ -47,51 +50,20 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
-
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
-
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
+    if (increment->second.accuracy() >= desired) { return; }
 
-            update_parents(leaf_above);
-        }
+    if (DataIncrement::is_leaf(increment)) {
+        const auto child
+                = insert_children_and_refine(increment, increment->first);
+        ignore_unused(child);
     }
+
+    // The left hand child always immediately follows its parent.
+    auto left = std::next(increment);
+    auto right = left->second.sibling();
+    refine_accuracy(left, desired);
+    refine_accuracy(right, desired);
+    update_parents(left);
 }
 
 DynamicallyConstructedStream::data_increment
@@ -109,11 +81,32 @@ streams::DynamicallyConstructedStream::insert_node(
     return it;
 }
 
+DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::find_root(
+    const DyadicInterval& interval) const
+{
+    // No dyadic interval has zero in its interior, so the data on either side
+    // of zero forms a tree of its own.
+    const auto end = m_data_tree.end();
+    if (m_data_tree.empty()) { return end; }
+
+    if (interval.inf() < 0) {
+        auto root = m_data_tree.begin();
+        return root->first.inf() < 0 ? root : end;
+    }
+
+    auto root = std::prev(end);
+    if (root->first.inf() < 0) { return end; }
+    while (root->second.parent() != end) { root = root->second.parent(); }
+    return root;
+}
+
 typename DynamicallyConstructedStream::data_increment
 streams::DynamicallyConstructedStream::expand_root_until_contains(
     data_increment root,
     DyadicInterval di) const
 {
+    const auto& md = metadata();
     while (!root->first.contains_dyadic(di)) {
         auto old_root = root;
         DyadicInterval new_root(old_root->first);
@@ -138,11 +131,17 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             make_neighbour_root_increment(neighbour),
             neighbour.power(),
             old_root);
+        // The data we already have determines the value of the new root.
+        const bool old_root_first = old_root->first.inf() < neighbour.inf();
+        const auto& first = old_root_first ? old_root : it_neighbour;
+        const auto& second = old_root_first ? it_neighbour : old_root;
         root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
+                           md.default_context->cbh(first->second.lie(),
+                                                   second->second.lie(),
+                                                   md.cached_vector_type),
+                           std::min(old_root->second.accuracy(),
+                                    it_neighbour->second.accuracy()),
                            old_root);
-        update_parent_accuracy(old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -220,11 +219,9 @@ void streams::DynamicallyConstructedStream::update_parents(
     //        top = update_parent_accuracy(below);
     //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
-
-    while (current != root) {
+    const auto tree_end = m_data_tree.end();
+    while (current->second.parent() != tree_end) {
         auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
         auto sibling = current->second.sibling();
 
         auto accuracy_available = std::min(current->second.accuracy(),
@@ -304,9 +301,9 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    auto root = find_root(interval);
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree currently holds no data on this side of zero.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0


From 5a133bec248fae73ed10903090cec757afc1e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 032/110] fix: Brownian increments have variance equal to the
 length of the interval

---
 streams/src/brownian_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..f40146c 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -34,6 +34,7 @@
 #include <roughpy/scalars/key_scalar_array.h>
 
 #include <cereal/types/vector.hpp>
+#include <cmath>
 
 using namespace rpy;
 using namespace rpy::streams;
@@ -46,7 +47,7 @@ algebra::Lie BrownianStream::gaussian_increment(
     const auto& md = metadata();
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(length)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,7 +70,8 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    // The midpoint of a Brownian bridge of length 2h has variance h/2
+    auto length = ldexp(0.5, -left_di.power());
 
     const auto perturbation = gaussian_increment(*md.default_context, length);
     return {mean.add(perturbation), mean.sub(perturbation)};
-- 
2.43.0


From eb43700f94b86acad5b2e432e2cb05505e8eb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 033/110] fix: default channel labels never collide

---
 streams/src/schema.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/src/schema.cpp b/streams/src/schema.cpp
index 01fba76..c290237 100644
--- a/streams/src/schema.cpp
+++ b/streams/src/schema.cpp
@@ -241,7 +241,11 @@ StreamChannel& StreamSchema::insert(
 )
 {
     RPY_CHECK(!m_is_final);
-    if (label.empty()) { label = std::to_string(size()); }
+    if (label.empty()) {
+        // Never hand out a label that is already in use
+        auto number = size();
+        do { label = std::to_string(number++); } while (find(label) != end());
+    }
 
     // Some users might have labelled their channels using numbers.
     // Silly, but handle it gracefully.
-- 
2.43.0


From 814929629f102918f299be2afe3d4ed5e8107dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 034/110] fix: reference and lifetime errors in
 TensorValuedStream

---
 roughpy/src/streams/tensor_valued_stream.cpp | 45 ++++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 3e9224a..db5372a 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -99,14 +99,14 @@ static PyObject* stvs_new(PyTypeObject* subtype,
     });
 
     RPY_DBG_ASSERT(self->p_data || !success);
-
+    if (!success) { return nullptr; }
     return new_obj.release().ptr();
 }
 
-static void stvs_finalize(PyObject* self)
+static void stvs_dealloc(PyObject* self)
 {
-    auto& data = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
-    if (data) { data.reset(); }
+    using data_t = std::shared_ptr<const ValueStream<FreeTensor>>;
+    reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data.~data_t();
     Py_TYPE(self)->tp_free(self);
 }
 
@@ -184,7 +184,12 @@ static PyObject* stvs_domain(PyObject* self)
     return result.release().ptr();
 }
 
-static PyObject* stvs_repr(PyObject* self) { return PyObject_Repr(self); }
+static PyObject* stvs_repr(PyObject* self)
+{
+    return PyUnicode_FromFormat("<%s object at %p>",
+                                Py_TYPE(self)->tp_name,
+                                self);
+}
 
 static PyObject* stvs_signature(PyObject* self,
                                 PyObject* args,
@@ -282,7 +287,9 @@ static PyObject* stvs_from_values(PyObject* cls,
                                   PyObject* kwargs)
 {
     using algebra::Lie;
-    auto py_kwargs = py::reinterpret_borrow<py::kwargs>(kwargs);
+    auto py_kwargs = kwargs != nullptr
+            ? py::reinterpret_borrow<py::kwargs>(kwargs)
+            : py::kwargs();
 
     py::object value_list;
 
@@ -331,14 +338,18 @@ static PyObject* stvs_from_values(PyObject* cls,
          * data vector. This will be sorted later.
          */
         for (Py_ssize_t i = 0; i < size; ++i) {
-            py::handle py_item(PySequence_ITEM(value_list.ptr(), i));
+            auto py_item = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(value_list.ptr(), i));
+            if (!py_item) { throw py::error_already_set(); }
 
             if (!py::isinstance<py::tuple>(py_item) || py::len(py_item) != 2) {
                 throw py::type_error("expected a tuple of length 2");
             }
 
-            py::handle py_param(PySequence_ITEM(py_item.ptr(), 0));
-            py::handle py_data(PySequence_ITEM(py_item.ptr(), 1));
+            auto py_param = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(py_item.ptr(), 0));
+            auto py_data = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(py_item.ptr(), 1));
 
             auto param = py::cast<param_t>(py_param);
 
@@ -365,6 +376,11 @@ static PyObject* stvs_from_values(PyObject* cls,
                     "expected a group-like free tensor or Lie data");
             }
         }
+        if (!path_md.ctx) {
+            path_md.ctx = ctx;
+            path_md.width = ctx->width();
+            path_md.scalar_type = ctx->ctype();
+        }
         RPY_CHECK_EQ(path_md.width, ctx->width(), py::value_error);
 
         // There is no reason to expect the values are provided in order.
@@ -409,7 +425,9 @@ static PyObject* stvs_from_values(PyObject* cls,
          * separates points.
          */
         if (!path_md.resolution) {
-            path_md.resolution = param_to_resolution(min_difference) + 1;
+            path_md.resolution = increment_data.empty()
+                    ? 0
+                    : param_to_resolution(min_difference) + 1;
         }
 
         /*
@@ -497,7 +515,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         "roughpy.TensorValuedStream",// tp_name
         sizeof(RPySimpleTensorValuedStream),// tp_basicsize
         0,// tp_itemsize
-        nullptr,// tp_dealloc
+        stvs_dealloc,// tp_dealloc
         0,// tp_vectorcall_offset
         0,// tp_getattr
         0,// tp_setattr
@@ -512,7 +530,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_getattro
         0,// tp_setattro
         0,// tp_as_buffer
-        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_FINALIZE,
+        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE,
         // tp_flags
         "A Simple Tensor Valued stream",// tp_doc
         0,// tp_traverse
@@ -540,8 +558,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_subclasses
         0,// tp_weaklist
         0,// tp_del
-        0,// tp_version_tag
-        stvs_finalize// tp_finalize
+        0// tp_version_tag
 };
 
 void python::init_tensor_valued_stream(py::module_& m)
-- 
2.43.0


From a7450a7957a7c9d567141777bba7151be7c105e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 035/110] fix: default support of tick stream contains all
 ticks

---
 roughpy/src/streams/tick_stream.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 827c9e4..79bc0c6 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -27,6 +27,7 @@
 
 #include "tick_stream.h"
 
+#include <algorithm>
 #include <map>
 #include <set>
 
@@ -132,9 +133,23 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
         pmd.resolution = 0;
     }
 
+    if (!pmd.support) {
+        // Make sure that no tick lies outside of the support.
+        param_t inf = 0;
+        param_t sup = 1;
+        for (const auto& tick : ticks) {
+            const intervals::DyadicInterval di(
+                    tick.timestamp, *pmd.resolution, pmd.interval_type
+            );
+            inf = std::min(inf, di.inf());
+            sup = std::max(sup, di.sup());
+        }
+        pmd.support = intervals::RealInterval(inf, sup);
+    }
+
     streams::StreamMetadata meta{
             pmd.width,
-            pmd.support ? *pmd.support : intervals::RealInterval(0, 1),
+            *pmd.support,
             pmd.ctx,
             pmd.scalar_type,
             pmd.vector_type ? *pmd.vector_type : algebra::VectorType::Dense,
-- 
2.43.0


From 2c6736a9ad7f6e0d0c1fffb6ea51282afc9473de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 036/110] fix: monomial product does not use an invalidated end
 iterator

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..1178c54 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,9 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 6cf5fb538571ca02f1e539fa3352204f3fa1a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 037/110] fix: packed type pointers keep every bit of the type
 info

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From b4c668e258ac843eb01e73aed1fe7fbaea324205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 038/110] fix: raw byte serialization of rational and
 polynomial scalars

---
 scalars/src/scalar/raw_bytes.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index 99a082d..daaaaaa 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -30,7 +30,7 @@ enable_if_t<is_trivially_copyable_v<T>> to_raw_bytes_impl(
     const auto nbytes = size * sizeof(T);
     const auto curr_size = out.size();
     out.resize(curr_size + nbytes);
-    std::memcpy(out.data() + curr_size, data, nbytes);
+    if (nbytes > 0) { std::memcpy(out.data() + curr_size, data, nbytes); }
 }
 
 template <typename I>
@@ -44,11 +44,11 @@ void to_raw_bytes_impl_helper(std::vector<byte>& out,
     auto it = out.begin() + curr_size;
     *it = (helper.is_negative()) ? 1 : 0;
     ++it;
-    uint64_t limbs_size = helper.size();
-    it = std::copy_n(reinterpret_cast<const byte*>(&limbs_size),
-                     sizeof(uint8_t),
+    const uint64_t nbytes = helper.nbytes();
+    it = std::copy_n(reinterpret_cast<const byte*>(&nbytes),
+                     sizeof(uint64_t),
                      it);
-    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_size, it);
+    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), nbytes, it);
 }
 
 
@@ -58,7 +58,7 @@ void to_raw_bytes_impl(std::vector<byte>& out,
 {
     out.reserve(out.size() + count * sizeof(rational_scalar_type));
     for (dimn_t i = 0; i < count; ++i) {
-        const auto& backend = data->backend();
+        const auto& backend = data[i].backend();
 #if RPY_USING_GMP
         using helper_t = scalars::dtl::MPIntegerSerializationHelper<
             remove_pointer_t
@@ -152,7 +152,7 @@ enable_if_t<is_trivially_copyable_v<T>> from_raw_bytes_impl(
 {
     const auto nbytes = count * sizeof(T);
     RPY_CHECK(bytes.size() >= nbytes);
-    std::memcpy(dst, bytes.begin(), nbytes);
+    if (nbytes > 0) { std::memcpy(dst, bytes.begin(), nbytes); }
 }
 
 template <typename I>
@@ -162,15 +162,14 @@ dimn_t from_raw_bytes_impl(
 {
     auto advance = 1 + sizeof(uint64_t);
     const auto* src = bytes.data();
-    RPY_CHECK(bytes.size() > advance);
-
+    RPY_CHECK(bytes.size() >= advance);
     auto is_negative = static_cast<bool>(*(src++));
     uint64_t nbytes_large = 0;
     std::memcpy(&nbytes_large, src, sizeof(uint64_t));
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
+    RPY_CHECK(bytes.size() - advance >= nbytes);
     advance += nbytes;
-    RPY_CHECK(bytes.size() > advance);
 
     dimn_t n_limbs = 0;
     if (nbytes > 0) {
@@ -211,6 +210,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         auto advance = from_raw_bytes_impl(num_helper, {src, remaining});
         src += advance;
         remaining -= advance;
+        offset += advance;
         advance = from_raw_bytes_impl(den_helper, {src, remaining});
         src += advance;
         remaining -= advance;
@@ -259,7 +259,7 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
         src += sizeof_term;
     }
 
-    return size + sizeof(uint64_t);
+    return size * sizeof_term + sizeof(uint64_t);
 }
 
 dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte> bytes)
@@ -279,6 +279,7 @@ dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte>
     dimn_t remaining = bytes.size() - sizeof(uint64_t);
 
     for (dimn_t i=0; i<count; ++i) {
+        tmp_key = monomial();
         advance = from_raw_bytes_impl(tmp_key, {src, remaining});
         from_raw_bytes_impl(&tmp_value, 1, {src + advance, remaining-advance}, &offset);
         advance += offset;
-- 
2.43.0


From 7fc2854d85be08b36971b3a140121ea48e691727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 039/110] fix: arithmetic with untyped, interface and
 pointer-held scalars

---
 .../sparse_mutable_ref_scalar_trait.h         | 14 ++++--
 scalars/include/roughpy/scalars/scalar.h      | 15 +++++--
 scalars/src/scalar.cpp                        | 20 +++++++--
 scalars/src/scalar/arithmetic.cpp             | 45 +++++++++++++++----
 scalars/src/scalar/type_promotion.cpp         |  5 ++-
 5 files changed, 77 insertions(+), 22 deletions(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..a0ae8de 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -77,7 +77,10 @@ private:
 public:
     void set_value(const Scalar& value) override;
 
-    const void* pointer() const noexcept override { return &m_data; }
+    const void* pointer() const noexcept override
+    {
+        return &static_cast<const value_type&>(m_data);
+    }
 
 private:
     template <typename F>
@@ -138,9 +141,12 @@ public:
 
     static Scalar make(reference arg)
     {
-        return Scalar(std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
-                std::move(arg)
-        ));
+        return Scalar(
+                std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
+                        std::move(arg)
+                ),
+                *scalar_type_of<value_type>()
+        );
     }
 };
 
diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..c21078f 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -142,7 +142,7 @@ inline ScalarContentType content_type_of(devices::TypeInfo info) noexcept
 inline ScalarContentType
 content_type_of(PackedScalarTypePointer<ScalarContentType> ptype) noexcept
 {
-    return content_type_of(ptype.get_type_info());
+    return content_type_of(type_info_from(ptype));
 }
 
 template <typename T>
@@ -209,6 +209,14 @@ class ROUGHPY_SCALARS_EXPORT Scalar
         void* opaque_pointer;
     };
 
+    RPY_NO_DISCARD
+    bool is_interface() const noexcept
+    {
+        const auto mode = p_type_and_content_type.get_enumeration();
+        return mode == dtl::ScalarContentType::Interface
+                || mode == dtl::ScalarContentType::OwnedInterface;
+    }
+
     void allocate_data();
 
     void copy_from_opaque_pointer(devices::TypeInfo info, const void* src);
@@ -319,9 +327,10 @@ public:
     template <
             typename I,
             typename = enable_if_t<is_base_of_v<ScalarInterface, I>>>
-    explicit Scalar(std::unique_ptr<I>&& iface)
+    explicit
+    Scalar(std::unique_ptr<I>&& iface, const ScalarType* type = nullptr)
         : p_type_and_content_type(
-                  nullptr,
+                  type,
                   dtl::ScalarContentType::OwnedInterface
           ),
           interface_ptr(std::move(iface).release())
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..c31162a 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,8 +52,9 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, p_type_and_content_type.get_enumeration());
     }
-
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
     opaque_pointer = p_type_and_content_type->allocate_single();
     p_type_and_content_type.update_enumeration(
@@ -257,7 +258,9 @@ Scalar::~Scalar()
 Scalar& Scalar::operator=(const Scalar& other)
 {
     if (&other != this) {
-        if (this->fast_is_zero()) {
+        if (this->is_interface()) {
+            interface_ptr->set_value(other);
+        } else if (this->fast_is_zero()) {
             p_type_and_content_type = other.p_type_and_content_type;
 
             const auto info = type_info();
@@ -310,7 +313,9 @@ Scalar& Scalar::operator=(const Scalar& other)
 Scalar& Scalar::operator=(Scalar&& other) noexcept
 {
     if (&other != this) {
-        if (p_type_and_content_type.is_null()) {
+        if (this->is_interface()) {
+            interface_ptr->set_value(other);
+        } else if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
@@ -455,6 +460,10 @@ optional<const ScalarType*> Scalar::type() const noexcept
 
 devices::TypeInfo Scalar::type_info() const noexcept
 {
+    // A scalar without a type is the constant zero
+    if (p_type_and_content_type.is_null()) {
+        return devices::type_info<double>();
+    }
     if (p_type_and_content_type.is_pointer()) {
         return p_type_and_content_type->type_info();
     }
@@ -475,7 +484,10 @@ std::ostream& rpy::scalars::operator<<(std::ostream& os, const Scalar& value)
 
 std::vector<byte> Scalar::to_raw_bytes() const
 {
-    return dtl::to_raw_bytes(pointer(), 1, type_info());
+    const auto info = type_info();
+    const auto* ptr = pointer();
+    if (ptr == nullptr) { return Scalar(info).to_raw_bytes(); }
+    return dtl::to_raw_bytes(ptr, 1, info);
 }
 
 void Scalar::from_raw_bytes(devices::TypeInfo info, Slice <byte> bytes)
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..a2923fe 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -39,6 +39,7 @@
 #include "traits.h"
 #include <roughpy/platform/devices/host_device.h>
 #include <roughpy/scalars/scalar.h>
+#include <roughpy/scalars/scalar_interface.h>
 #include <roughpy/scalars/scalar_type.h>
 #include <roughpy/scalars/scalar_types.h>
 
@@ -54,7 +55,14 @@ using rpy::scalars::dtl::ScalarContentType;
 
 static inline void
 uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
+{
+#define X(T)                                                                   \
+    *static_cast<T*>(dst) = static_cast<T>(-*static_cast<const T*>(ptr));      \
+    return
+    DO_FOR_EACH_X(info)
+#undef X
+    RPY_THROW(std::domain_error, "unsupported operation");
+}
 
 Scalar Scalar::operator-() const
 {
@@ -85,6 +93,8 @@ Scalar Scalar::operator-() const
                 break;
             case ScalarContentType::Interface:
             case ScalarContentType::OwnedInterface:
+                stype = type();
+                RPY_CHECK(stype);
                 result.p_type_and_content_type = type_pointer(
                         *stype,
                         dtl::ScalarContentType::OwnedPointer
@@ -202,28 +212,39 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 Scalar& Scalar::operator+=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, AddInplace());
+        if (is_interface()) {
+            interface_ptr->add_inplace(other);
+        } else if (p_type_and_content_type.is_null()) {
+            *this = Scalar(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, AddInplace());
+        }
     }
     return *this;
 }
 
 Scalar& Scalar::operator-=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, SubInplace());
+        if (is_interface()) {
+            interface_ptr->sub_inplace(other);
+        } else if (p_type_and_content_type.is_null()) {
+            *this = -other;
+        } else {
+            scalar_inplace_arithmetic(*this, other, SubInplace());
+        }
     }
     return *this;
 }
 
 Scalar& Scalar::operator*=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (!fast_is_zero() && !other.fast_is_zero()) {
+    if (is_interface()) {
+        interface_ptr->mul_inplace(other);
+    } else if (!fast_is_zero() && !other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, MulInplace());
-    } else {
+    } else if (!fast_is_zero()) {
         operator=(0);
     }
 
@@ -279,6 +300,12 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (is_interface()) {
+        interface_ptr->div_inplace(other);
+        return *this;
+    }
+    if (p_type_and_content_type.is_null()) { return *this; }
+
     /*
      * We need to check some additional things here.
      * Division need not be defined for all scalar types. For instance, integers
@@ -311,7 +338,7 @@ Scalar& Scalar::operator/=(const Scalar& other)
     // Now we should be ready
 #define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
     break
-    DO_FOR_EACH_X(num_info)
+    DO_FOR_EACH_X(type_info())
 #undef X
 
     return *this;
diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index ef8c145..0158e05 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -173,8 +173,9 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         case ScalarContentType::OpaquePointer:
         case ScalarContentType::ConstOpaquePointer:
         case ScalarContentType::Interface:
-        case ScalarContentType::OwnedInterface: return dst_type;
+        case ScalarContentType::OwnedInterface:
+            return type_info_from(dst_type);
     }
 
-    RPY_UNREACHABLE_RETURN(dst_type);
+    RPY_UNREACHABLE_RETURN(type_info_from(dst_type));
 }
-- 
2.43.0


From 3a40f6801f13dd459b46d87ce10fa4b69be0383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 040/110] fix: negative zero is zero

---
 scalars/src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index c31162a..91e341b 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -332,7 +332,7 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
-- 
2.43.0


From 9dd38edc407a570d72ea9334abdace668a0f3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 041/110] fix: copying, moving and loading scalar arrays

---
 scalars/src/scalar_array.cpp | 70 ++++++++++--------------------------
 1 file changed, 18 insertions(+), 52 deletions(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..2a6f03c 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -106,12 +106,13 @@ ScalarArray::ScalarArray(const ScalarType* type, dimn_t size)
 
 ScalarArray::ScalarArray(devices::TypeInfo info, dimn_t size)
     : p_type_and_mode(info, dtl::ScalarArrayStorageModel::Owned),
+      owned_buffer(),
       m_size(size)
 {
     RPY_CHECK(traits::is_fundamental(info));
     if (size != 0) {
         owned_buffer
-                = devices::get_host_device()->raw_alloc(size*info.alignment, info.alignment);
+                = devices::get_host_device()->raw_alloc(size*info.bytes, info.alignment);
     }
 }
 
@@ -163,57 +164,15 @@ ScalarArray::~ScalarArray()
 
 ScalarArray& ScalarArray::operator=(const ScalarArray& other)
 {
-    if (&other != this && !other.p_type_and_mode.is_null()) {
-        this->~ScalarArray();
-
-        if (p_type_and_mode.is_null()) {
-            p_type_and_mode = other.p_type_and_mode;
-        }
-
-        auto info = type_info();
-        if (p_type_and_mode.is_pointer()) {
-            auto device = p_type_and_mode->device();
-            owned_buffer = device->raw_alloc(
-                    other.size() * info.bytes,
-                    info.alignment
-            );
-            m_size = other.size();
-            p_type_and_mode->convert_copy(*this, other);
-        } else {
-            RPY_CHECK(traits::is_fundamental(info));
-            auto device = devices::get_host_device();
-
-            m_size = other.size();
-            auto nbytes = m_size * info.bytes;
-            owned_buffer = device->raw_alloc(nbytes, info.alignment);
-
-            if (other.p_type_and_mode.is_pointer()) {
-                other.p_type_and_mode->convert_copy(*this, other);
-            } else {
-                auto other_type_info = other.type_info();
-                RPY_CHECK(traits::is_fundamental(other_type_info));
-                if (info == other_type_info) {
-                    std::memcpy(
-                            owned_buffer.ptr(),
-                            other.raw_pointer(0),
-                            nbytes
-                    );
-                } else {
-                    if (!dtl::scalar_convert_copy(
-                                owned_buffer.ptr(),
-                                info,
-                                other.raw_pointer(0),
-                                other_type_info,
-                                m_size
-                        )) {
-                        RPY_THROW(
-                                std::runtime_error,
-                                "unable to convert scalar array values"
-                        );
-                    }
-                }
-            }
+    if (&other != this) {
+        ScalarArray tmp;
+        if (!other.p_type_and_mode.is_null()) {
+            const auto tp_o = other.type();
+            RPY_CHECK(tp_o);
+            tmp = ScalarArray(*tp_o, other.size());
+            if (!other.empty()) { (*tp_o)->convert_copy(tmp, other); }
         }
+        *this = std::move(tmp);
     }
     return *this;
 }
@@ -232,7 +191,10 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
                 const_borrowed = other.const_borrowed;
                 break;
             case dtl::ScalarArrayStorageModel::Owned:
-                owned_buffer = std::move(other.owned_buffer);
+                construct_inplace(
+                        &owned_buffer,
+                        std::move(other.owned_buffer)
+                );
                 break;
         }
     }
@@ -481,6 +443,10 @@ void ScalarArray::from_raw_bytes(
 {
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
+    if (tp_o && count == 0) {
+        *this = ScalarArray(*tp_o);
+        return;
+    }
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
-- 
2.43.0


From 6dd9d139a04c491634991b9232284274708ada60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 042/110] fix: segmentation predicates may keep the interval
 they are given

---
 roughpy/src/intervals/segmentation.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/intervals/segmentation.cpp b/roughpy/src/intervals/segmentation.cpp
index bc03817..64050bf 100644
--- a/roughpy/src/intervals/segmentation.cpp
+++ b/roughpy/src/intervals/segmentation.cpp
@@ -28,8 +28,11 @@
 
 #include "segmentation.h"
 
+#include <roughpy/intervals/real_interval.h>
 #include <roughpy/intervals/segmentation.h>
 
+#include <functional>
+
 using namespace rpy;
 using namespace rpy::intervals;
 using namespace pybind11::literals;
@@ -41,6 +44,18 @@ static const char* SEGMENT_DOC
 void python::init_segmentation(py::module_& m)
 {
 
-    m.def("segment", &segment, "interval"_a, "predicate"_a, "max_depth"_a,
-          SEGMENT_DOC);
+    // The predicate is called with a copy of the interval, which Interval itself
+    // does not have.
+    m.def("segment",
+          [](const Interval& interval,
+             const std::function<bool(const RealInterval&)>& predicate,
+             dyadic_depth_t max_depth) {
+              return segment(
+                      interval,
+                      [&predicate](const Interval& arg) {
+                          return predicate(RealInterval(arg));
+                      },
+                      max_depth);
+          },
+          "interval"_a, "predicate"_a, "max_depth"_a, SEGMENT_DOC);
 }
-- 
2.43.0


From 335f6659cdeaa34a9186aabbfc408ef981a858c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 043/110] fix: converting nan or infinity to a rational is
 refused instead of raising SIGFPE

---
 scalars/src/scalar/casts.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..5559400 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -34,6 +34,9 @@
 #include <roughpy/core/construct_inplace.hpp>
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
+#include <stdexcept>
+
 using namespace rpy;
 using namespace scalars;
 using devices::TypeInfo;
@@ -53,19 +56,25 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
 template <typename D, typename T>
 static inline void assign_result(D& result, const T& arg)
 {
+    if constexpr (is_floating_point_v<T>) {
+        // No exact value corresponds to an infinity or a nan
+        if (!std::isfinite(arg)) {
+            throw std::domain_error("value is not finite");
+        }
+    }
     result = static_cast<D>(arg);
 }
 
 template <typename D>
 static inline void assign_result(D& result, const half& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D>
 static inline void assign_result(D& result, const bfloat16& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D, typename T>
-- 
2.43.0


From 66eab93d49a454e9d6ccba2766b120358d17cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 044/110] fix: an invalid DLPack capsule raises instead of
 ending the process

---
 roughpy/src/args/dlpack_helpers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/args/dlpack_helpers.h b/roughpy/src/args/dlpack_helpers.h
index 4471de8..5a68e9d 100644
--- a/roughpy/src/args/dlpack_helpers.h
+++ b/roughpy/src/args/dlpack_helpers.h
@@ -140,12 +140,13 @@ inline const scalars::ScalarType* scalar_type_of_dl_info(const DLDataType& dtype
 
 RPY_NO_EXPORT inline py::capsule py_to_dlpack(py::handle arg)
 {
-    return py::reinterpret_borrow<py::capsule>(arg.attr("__dlpack__")(
-    ));
+    py::object result = arg.attr("__dlpack__")();
+    RPY_CHECK(PyCapsule_IsValid(result.ptr(), "dltensor"));
+    return py::reinterpret_steal<py::capsule>(result.release());
 }
 
 RPY_NO_EXPORT inline DLManagedTensor*
-unpack_dl_capsule(const py::capsule& cap) noexcept
+unpack_dl_capsule(const py::capsule& cap)
 {
     return cap.get_pointer<DLManagedTensor>();
 }
-- 
2.43.0


From 046682f48ba1bc4052cc9f900e04273ed66dd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 045/110] fix: index columns of array data are read without
 writing to the data

---
 roughpy/src/streams/lie_increment_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 1ae61ff..28a93a8 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -145,7 +145,7 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
             };
 
             for (dimn_t i = 0; i < num_increments; ++i) {
-                auto row = ks_stream[i];
+                const auto row = ks_stream[i];
 
                 if (row.has_keys()) {
 
-- 
2.43.0


From 54a23429478489d6efb4b96e24320d96c95007f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 046/110] fix: copying an empty array of another type is not an
 error

---
 scalars/src/scalar_type.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 46e62f0..429e7e2 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -129,6 +129,7 @@ void ScalarType::convert_copy(
     if (dst.size() < src.size()) {
         RPY_THROW(std::runtime_error, "insufficient size for copy");
     }
+    if (src.empty()) { return; }
     if (dst.device() != m_device) {
         RPY_THROW(std::runtime_error, "unable to copy into device memory");
     }
-- 
2.43.0


From 2bf27a6187f6ecd1d899ba01423ee0ab940f499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 047/110] fix: queries finer than the cached stream keep all of
 a cell's data

---
 streams/src/dyadic_caching_layer.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index f23644a..83fec5c 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -90,11 +90,23 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
-    if (empty(interval)) {
+    const auto stream_resolution = metadata().default_resolution;
+
+    // The data in a cell of the stream's resolution belongs to its included end,
+    // wherever in the cell it lies.
+    if (interval.power() > stream_resolution) {
+        intervals::DyadicInterval tmp(interval);
+        tmp.expand_interval(interval.power() - stream_resolution);
+        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
+        if (rational_equals(tmp, interval)) {
+            return log_signature(tmp, stream_resolution, ctx);
+        }
         return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
-    const auto stream_resolution = metadata().default_resolution;
+    if (empty(interval)) {
+        return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
+    }
 
     if (interval.power() == stream_resolution) {
         // The cache only holds values in the default context.
@@ -109,16 +121,6 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
         return algebra::Lie(cached);
     }
 
-    if (interval.power() > stream_resolution) {
-        intervals::DyadicInterval tmp(interval);
-        tmp.expand_interval(interval.power() - stream_resolution);
-        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
-        if (rational_equals(tmp, interval)) {
-            return log_signature(tmp, stream_resolution, ctx);
-        }
-        return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
-    }
-
     intervals::DyadicInterval lhs_itvl(interval);
     intervals::DyadicInterval rhs_itvl(interval);
     lhs_itvl.shrink_interval_left();
-- 
2.43.0


From 2eccd7398f904539f637ab77496b701503c4c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 048/110] fix: queries reaching the ends of the support keep
 the data in the last cells

---
 .../sound_file_data_source.cpp                | 16 ++++-
 streams/src/stream.cpp                        | 61 ++++++++++++++++++-
 2 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index 74e3ed0..aec6056 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -39,6 +39,7 @@
 #include <roughpy/scalars/scalar_types.h>
 
 #include <boost/url/parse.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace rpy;
@@ -84,9 +85,18 @@ dimn_t SoundFileDataSource::query_impl(
     std::vector<T> previous(m_handle.channels());
     std::vector<T> current(m_handle.channels());
 
-    auto frame_begin = param_to_frame(interval.inf());
-    auto frame_end = param_to_frame(interval.sup());
-
+    // There are no readings outside the file
+    const auto frame_limit = m_handle.frames();
+    auto frame_begin = std::clamp<sf_count_t>(
+            param_to_frame(interval.inf()),
+            0,
+            frame_limit
+    );
+    auto frame_end = std::clamp<sf_count_t>(
+            param_to_frame(interval.sup()),
+            0,
+            frame_limit
+    );
     if (frame_begin == frame_end) {
         // TODO: Check that this is the correct handling
         return 0;
diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index 74de60b..ca34160 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -29,8 +29,12 @@
 #include <roughpy/streams/stream.h>
 
 #include <roughpy/intervals/partition.h>
+#include <roughpy/streams/dynamically_constructed_stream.h>
 #include <roughpy/streams/piecewise_abelian_stream.h>
 
+#include <algorithm>
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
@@ -70,6 +74,50 @@ Stream::refine_interval(
     return {{query, resolution}};
 }
 
+namespace {
+
+/*
+ * Where a query reaches an end of the support at which the data of the stream
+ * itself stops, the end point of the trimmed query is moved outwards to the next
+ * end of a dyadic interval. Otherwise, rounding the trimmed end point would lose
+ * data next to the end of the support, all of which lies inside the query.
+ * Nothing but empty space is added to the query.
+ */
+Stream::RealInterval extend_to_whole_cells(
+        const StreamInterface& impl,
+        const Stream::RealInterval& query,
+        resolution_t resolution
+)
+{
+    using RealInterval = Stream::RealInterval;
+
+    // Streams that make their data on demand have no data to lose
+    if (dynamic_cast<const DynamicallyConstructedStream*>(&impl) != nullptr) {
+        return query;
+    }
+
+    const auto& md = impl.metadata();
+    const auto coarse = std::min(resolution, md.default_resolution);
+
+    auto inf = query.inf();
+    auto sup = query.sup();
+    if (inf == md.effective_support.inf()) {
+        const auto cell = ldexp(std::floor(ldexp(inf, coarse)), -coarse);
+        if (cell < inf && impl.empty(RealInterval(cell, inf, query.type()))) {
+            inf = cell;
+        }
+    }
+    if (sup == md.effective_support.sup()) {
+        const auto cell = ldexp(std::ceil(ldexp(sup, coarse)), -coarse);
+        if (sup < cell && impl.empty(RealInterval(sup, cell, query.type()))) {
+            sup = cell;
+        }
+    }
+    return RealInterval(inf, sup, query.type());
+}
+
+}// namespace
+
 void Stream::restrict_to(const Stream::Interval& interval)
 {
     if (p_impl) {
@@ -134,7 +182,12 @@ Stream::Lie Stream::log_signature(
     if (!query_params) {
         return zero_lie(ctx);
     }
-    return log_signature_impl(query_params->first, query_params->second, ctx);
+    const auto resolution = query_params->second;
+    return log_signature_impl(
+            extend_to_whole_cells(*p_impl, query_params->first, resolution),
+            resolution,
+            ctx
+    );
 }
 
 rpy::streams::Stream::Lie rpy::streams::Stream::log_signature(
@@ -154,7 +207,11 @@ rpy::streams::Stream::Lie rpy::streams::Stream::log_signature(
     auto amended_query = refine_interval(interval);
     if (!amended_query) { return zero_lie(ctx); }
 
-    return log_signature_impl(amended_query->first, resolution, ctx);
+    return log_signature_impl(
+            extend_to_whole_cells(*p_impl, amended_query->first, resolution),
+            resolution,
+            ctx
+    );
 }
 Stream::FreeTensor Stream::signature(
         const Stream::Interval& interval,
-- 
2.43.0


From 762654463d5f816ae9ca80a3951912f40bade20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 049/110] fix: a sound stream query covering only the first
 sample raised

---
 streams/src/external_data_sources/sound_file_data_source.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index aec6056..e42b2ba 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -104,6 +104,7 @@ dimn_t SoundFileDataSource::query_impl(
 
     // If we're at the beginning of time, skip the first reading
     if (frame_begin == 0) { ++frame_begin; }
+    if (frame_begin == frame_end) { return 0; }
 
     auto seek_pos = m_handle.seek(frame_begin - 1, SEEK_SET);
     m_handle.readf(previous.data(), 1);
-- 
2.43.0


From a232a1c131c4a1b907a52e0d49fcfd4a208a30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 050/110] fix: sound streams read samples with the wrong scalar
 type when the context has another coefficient type

---
 streams/src/external_data_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/src/external_data_stream.cpp b/streams/src/external_data_stream.cpp
index f4db371..1ab352b 100644
--- a/streams/src/external_data_stream.cpp
+++ b/streams/src/external_data_stream.cpp
@@ -63,7 +63,8 @@ algebra::Lie streams::ExternalDataStream::log_signature_impl(
 
     tmp.data_stream.reserve_size(num_increments);
     const auto width = static_cast<dimn_t>(metadata().width);
-    const auto info = metadata().data_scalar_type->type_info();
+    // The source writes the scalar type of the context
+    const auto info = ctx.ctype()->type_info();
 
     const auto* buf_ptr = buffer.as_slice<const byte>().data();
     for (dimn_t i = 0; i < num_increments; ++i) {
-- 
2.43.0


From 2c9a03eb9c7ba63607324f83f5dee48577da609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 051/110] fix: signature_derivative with sparse elements cast
 storage to the wrong type

---
 algebra/src/lite_context.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5f4b2c5..3f11cd5 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -531,6 +531,9 @@ LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
     // directly
     const auto& arg_context = arg->context();
     if (arg_context == this) {
+        if (arg.storage_type() != VType) {
+            return m_maps.lie_to_tensor(convert_impl<VType>(arg));
+        }
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
@@ -550,7 +553,7 @@ LiteContext<Coefficients>::tensor_to_lie_impl(const FreeTensor& arg) const
 {
 
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.tensor_to_lie(algebra_cast<free_tensor_t<VType>>(*arg));
     }
 
-- 
2.43.0


From 151c2c6e0c822cd34c63319c003dc086cb5e2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 052/110] fix: categorical ticks went to the first variant of
 their channel

---
 roughpy/src/streams/tick_stream.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 79bc0c6..2191ca6 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -177,10 +177,20 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
         auto lie_elt = pmd.ctx->zero_lie(meta.cached_vector_type);
 
         auto channel_it = schema.find(tick.label);
-        RPY_DBG_ASSERT(channel_it != schema.end());
+        RPY_CHECK(
+                channel_it != schema.end(),
+                "the schema has no channel labelled " + tick.label,
+                py::value_error
+        );
         auto& channel = channel_it->second;
-        auto idx = schema.label_to_stream_dim(tick.label);
-        auto key = schema.label_to_lie_key(tick.label);
+
+        // Each variant of a categorical channel has its own dimension
+        auto dim_label = tick.label;
+        if (tick.type == streams::ChannelType::Categorical) {
+            dim_label += ":" + tick.data.cast<string>();
+        }
+        auto idx = schema.label_to_stream_dim(dim_label);
+        auto key = schema.label_to_lie_key(dim_label);
 
         switch (tick.type) {
             case streams::ChannelType::Increment:
-- 
2.43.0


From 90e9ff926491dabd5230e015a5ce94d55f609a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 053/110] fix: tick streams with an event at zero and earlier
 ones could not be built

---
 streams/src/tick_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..43b5fb3 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -79,10 +79,12 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // The cell included at 0 lies on the positive side if it is clopen and on
+    // the negative side if it is opencl.
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-- 
2.43.0


From 67d5e721500cc8fcf0ab60fbefe164868643c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 054/110] fix: integer tick timestamps raised SystemError

---
 roughpy/src/args/convert_timestamp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/roughpy/src/args/convert_timestamp.cpp b/roughpy/src/args/convert_timestamp.cpp
index 6087156..74c6966 100644
--- a/roughpy/src/args/convert_timestamp.cpp
+++ b/roughpy/src/args/convert_timestamp.cpp
@@ -114,6 +114,18 @@ rpy::param_t rpy::python::convert_delta_from_datetimes(
         return current.cast<param_t>() - previous.cast<param_t>();
     }
 
+    const auto is_number = [](py::handle arg) {
+        return py::isinstance<py::float_>(arg) || py::isinstance<py::int_>(arg);
+    };
+    if (is_number(current) && is_number(previous)) {
+        // Numbers are seconds, their difference needs no calendar
+        const py::object delta = py::reinterpret_borrow<py::object>(current)
+                - py::reinterpret_borrow<py::object>(previous);
+        const auto result = pytimedelta_to_param(delta.ptr(), options);
+        if (PyErr_Occurred() != nullptr) { throw py::error_already_set(); }
+        return result;
+    }
+
     const py::object dt_current = generic_to_timestamp(current);
     const py::object dt_previous = generic_to_timestamp(previous);
 
-- 
2.43.0


From 1b5be841d682fa333b9c61ae0151fafe2d545ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 055/110] fix: StreamSchema insert methods raised TypeError
 after inserting

---
 roughpy/src/streams/schema.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/streams/schema.cpp b/roughpy/src/streams/schema.cpp
index 646bf4f..2098370 100644
--- a/roughpy/src/streams/schema.cpp
+++ b/roughpy/src/streams/schema.cpp
@@ -233,25 +233,25 @@ void rpy::python::init_schema(py::module_& m)
     cls.def(
             "insert_increment",
             [](StreamSchema* schema, string label) {
-                return &schema->insert_increment(std::move(label));
+                schema->insert_increment(std::move(label));
             },
-            "label"_a, py::return_value_policy::reference_internal
+            "label"_a
     );
 
     cls.def(
             "insert_value",
             [](StreamSchema* schema, string label) {
-                return &schema->insert_value(std::move(label));
+                schema->insert_value(std::move(label));
             },
-            "label"_a, py::return_value_policy::reference_internal
+            "label"_a
     );
 
     cls.def(
             "insert_categorical",
             [](StreamSchema* schema, string label) {
-                return &schema->insert_categorical(std::move(label));
+                schema->insert_categorical(std::move(label));
             },
-            "label"_a, py::return_value_policy::reference_internal
+            "label"_a
     );
 
     cls.def("get_labels", [](const StreamSchema* schema) {
-- 
2.43.0


From 6dd27526feb73e5f5dc32d937f5f2687676cdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 056/110] fix: StreamSchema.get_labels raised for schemas with
 a time or Lie channel

---
 roughpy/src/streams/schema.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/streams/schema.cpp b/roughpy/src/streams/schema.cpp
index 2098370..a1ef586 100644
--- a/roughpy/src/streams/schema.cpp
+++ b/roughpy/src/streams/schema.cpp
@@ -255,7 +255,9 @@ void rpy::python::init_schema(py::module_& m)
     );
 
     cls.def("get_labels", [](const StreamSchema* schema) {
-        py::list labels(schema->width());
+        // The parameter channel has no label
+        const auto width = schema->width_without_param();
+        py::list labels(width);
         auto* plist = labels.ptr();
         py::ssize_t i = 0;
         for (auto&& item : *schema) {
@@ -304,10 +306,15 @@ void rpy::python::init_schema(py::module_& m)
                     }
                     break;
                 }
-                case streams::ChannelType::Lie: break;
+                case streams::ChannelType::Lie:
+                    PyList_SET_ITEM(
+                            plist, i++, PyUnicode_FromString(item.first.c_str())
+                    );
+                    break;
             }
         }
-        RPY_CHECK(i == static_cast<deg_t>(schema->width()));
+
+        RPY_CHECK(i == static_cast<py::ssize_t>(width));
         return labels;
     });
 }
-- 
2.43.0


From c6e392f2598f94e0beee4f0b9d530c84623d61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 057/110] fix: a schema sequence item without options was
 rejected

---
 roughpy/src/args/parse_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index 0937099..aa28146 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -120,8 +120,8 @@ void handle_seq_item(StreamSchema* schema, string label, py::sequence data)
 {
 
     auto len = py::len(data);
+    RPY_CHECK(len > 0);
 
-    RPY_CHECK(len > 1);
     auto type = py_to_channel_type(data[0]);
 
     if (len == 1) {
-- 
2.43.0


From c472f9aa87921f8e529ea83db91ea1c61ad0cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 058/110] fix: StreamSchema.get_labels raised for lead-lag
 channels of increment type

---
 roughpy/src/streams/schema.cpp | 58 ++--------------------------------
 1 file changed, 2 insertions(+), 56 deletions(-)

diff --git a/roughpy/src/streams/schema.cpp b/roughpy/src/streams/schema.cpp
index a1ef586..0b4d26d 100644
--- a/roughpy/src/streams/schema.cpp
+++ b/roughpy/src/streams/schema.cpp
@@ -258,63 +258,9 @@ void rpy::python::init_schema(py::module_& m)
         // The parameter channel has no label
         const auto width = schema->width_without_param();
         py::list labels(width);
-        auto* plist = labels.ptr();
-        py::ssize_t i = 0;
-        for (auto&& item : *schema) {
-            switch (item.second->type()) {
-                case streams::ChannelType::Increment:
-                    PyList_SET_ITEM(
-                            plist, i++, PyUnicode_FromString(item.first.c_str())
-                    );
-                    break;
-                case streams::ChannelType::Value:
-                    if (item.second->is_lead_lag()) {
-                        PyList_SET_ITEM(
-                                plist, i++,
-                                PyUnicode_FromString(
-                                        (item.first
-                                         + item.second->label_suffix(0))
-                                                .c_str()
-                                )
-                        );
-                        PyList_SET_ITEM(
-                                plist, i++,
-                                PyUnicode_FromString(
-                                        (item.first
-                                         + item.second->label_suffix(1))
-                                                .c_str()
-                                )
-                        );
-                    } else {
-                        PyList_SET_ITEM(
-                                plist, i++,
-                                PyUnicode_FromString(item.first.c_str())
-                        );
-                    }
-                    break;
-                case streams::ChannelType::Categorical: {
-                    auto nvariants = item.second->num_variants();
-                    for (dimn_t idx = 0; idx < nvariants; ++idx) {
-                        PyList_SET_ITEM(
-                                plist, i++,
-                                PyUnicode_FromString(
-                                        (item.first
-                                         + item.second->label_suffix(idx))
-                                                .c_str()
-                                )
-                        );
-                    }
-                    break;
-                }
-                case streams::ChannelType::Lie:
-                    PyList_SET_ITEM(
-                            plist, i++, PyUnicode_FromString(item.first.c_str())
-                    );
-                    break;
-            }
+        for (dimn_t i = 0; i < width; ++i) {
+            labels[i] = py::str(schema->label_of_stream_dim(i));
         }
-
-        RPY_CHECK(i == static_cast<py::ssize_t>(width));
         return labels;
     });
 }
-- 
2.43.0


From 1008de083c78c4052a04a8cd0bd18c7f4678bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 059/110] fix: device object reference counts started
 uninitialised, so buffers were never (or wrongly) freed

---
 platform/include/roughpy/platform/devices/device_object_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/include/roughpy/platform/devices/device_object_base.h b/platform/include/roughpy/platform/devices/device_object_base.h
index 92da423..e437736 100644
--- a/platform/include/roughpy/platform/devices/device_object_base.h
+++ b/platform/include/roughpy/platform/devices/device_object_base.h
@@ -78,7 +78,7 @@ class RefCountBase : public Interface
     );
 
     using atomic_t = std::atomic_size_t;
-    atomic_t m_ref_count;
+    atomic_t m_ref_count{0};
 
 public:
     using Interface::Interface;
-- 
2.43.0


From 958128f001e6eb86f2051a052662b379de273cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 060/110] fix: ScalarArray::copy_or_clone dropped the data, and
 KeyScalarArray::copy_or_move overran the keys

---
 scalars/src/key_scalar_array.cpp | 6 ++++--
 scalars/src/scalar_array.cpp     | 8 +++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index 5ea82df..736dd8f 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -82,8 +82,10 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
     }
 
     KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
-    result.allocate_keys();
-    std::copy_n(p_keys, size(), result.keys());
+    if (p_keys != nullptr) {
+        result.allocate_keys();
+        std::copy_n(p_keys, result.size(), result.keys());
+    }
 
     return result;
 }
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 2a6f03c..9a2a49a 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -201,7 +201,13 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
     return *this;
 }
 
-ScalarArray ScalarArray::copy_or_clone() && { return ScalarArray(); }
+ScalarArray ScalarArray::copy_or_clone() &&
+{
+    if (is_owning()) { return std::move(*this); }
+    ScalarArray result;
+    result = static_cast<const ScalarArray&>(*this);
+    return result;
+}
 
 optional<const ScalarType*> ScalarArray::type() const noexcept
 {
-- 
2.43.0


From 90804bf8b5daec8f99d359d1f61793c482b15715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:48 +0000
Subject: [PATCH 061/110] fix: ScalarType::convert_copy into an empty array
 dereferenced a null type

---
 scalars/src/scalar_helpers/standard_scalar_type.h | 10 ++++++----
 scalars/src/scalar_type.cpp                       |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar_helpers/standard_scalar_type.h b/scalars/src/scalar_helpers/standard_scalar_type.h
index 47b92b1..6e8fe66 100644
--- a/scalars/src/scalar_helpers/standard_scalar_type.h
+++ b/scalars/src/scalar_helpers/standard_scalar_type.h
@@ -131,6 +131,11 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         // Nothing to do.
         return;
     }
+    if (dst.is_null()) {
+        // If the dst array is empty, allocate enough space for the new data.
+        dst = allocate(src.size());
+    }
+
     if (dst.is_const()) {
         RPY_THROW(std::runtime_error, "unable to copy into const array");
     }
@@ -161,10 +166,7 @@ void StandardScalarType<ScalarImpl>::convert_copy(
      */
     auto src_size = src.size();
     auto dst_cap = dst.capacity();
-    if (dst.is_null()) {
-        // If the dst array is empty, allocate enough space for the new data.
-        dst = allocate(src_size);
-    } else if (dst_cap < src_size * dst_info.bytes) {
+    if (dst_cap < src_size * dst_info.bytes) {
         if (dst.is_owning()) {
             if (dst_type) {
                 // If dst_type is defined, then it is this so a simple
diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 429e7e2..3b4819e 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -126,6 +126,7 @@ void ScalarType::convert_copy(
         const rpy::scalars::ScalarArray& src
 ) const
 {
+    if (dst.is_null() && !src.empty()) { dst = allocate(src.size()); }
     if (dst.size() < src.size()) {
         RPY_THROW(std::runtime_error, "insufficient size for copy");
     }
-- 
2.43.0


From 9071ea8483e6b29e5b4197de174999b32191974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:48 +0000
Subject: [PATCH 062/110] fix: a ScalarStream built from one array held rows of
 released data, or rejected const data

---
 scalars/src/scalar_stream.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index 7b6a981..36f22dc 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -52,6 +52,8 @@ ScalarStream::ScalarStream(ScalarStream&& other) noexcept
 {}
 
 ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
+    : m_stream(),
+      p_type(nullptr)
 {
     if (!base.is_null()) {
         auto tp = base.type();
@@ -68,8 +70,20 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 
         m_stream.reserve(rows);
 
+        const auto& data = base;
         for (dimn_t i = 0; i < rows; ++i) {
-            m_stream.push_back(base[{i * cols, (i + 1) * cols}]);
+            const SliceIndex row{i * cols, (i + 1) * cols};
+            if (base.is_owning()) {
+                // The base array is released at the end of this function, so
+                // the rows need to hold their own data.
+                ScalarArray copy;
+                copy = data[row];
+                m_stream.push_back(std::move(copy));
+            } else if (base.is_const()) {
+                m_stream.push_back(data[row]);
+            } else {
+                m_stream.push_back(base[row]);
+            }
         }
     }
 }
-- 
2.43.0


From c859c1b369129d15777f5b4bc78eb396a527cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 063/110] fix: rows of a ScalarStream built from an owning
 array were not copied

---
 scalars/src/scalar_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index 36f22dc..16e0b20 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -76,8 +76,9 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
             if (base.is_owning()) {
                 // The base array is released at the end of this function, so
                 // the rows need to hold their own data.
+                const ScalarArray slice = data[row];
                 ScalarArray copy;
-                copy = data[row];
+                copy = slice;
                 m_stream.push_back(std::move(copy));
             } else if (base.is_const()) {
                 m_stream.push_back(data[row]);
-- 
2.43.0


From e4f355d4117cf2b37dea517dde0aba34877fa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 064/110] fix: restoring an integer ScalarArray from an archive
 overran its buffer and lost its size

---
 scalars/src/scalar_array.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 9a2a49a..a3e16e9 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -456,13 +456,12 @@ void ScalarArray::from_raw_bytes(
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
-        p_type_and_mode
-                = type_pointer(info, dtl::ScalarArrayStorageModel::Owned);
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(count, info.alignment);
+        *this = ScalarArray(info, count);
     }
 
-    dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
+    if (count > 0) {
+        dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
+    }
 }
 
 ScalarArray ScalarArray::borrow() const
-- 
2.43.0


From 89e73fd5d722f8b38547cc9220ddd56874feb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 065/110] fix: constructing a rational or polynomial Scalar
 leaked its default value

---
 scalars/include/roughpy/scalars/scalar.h | 8 +++-----
 scalars/src/scalar/casts.cpp             | 4 ++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index c21078f..1273838 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -264,7 +264,7 @@ public:
             std::memcpy(trivial_bytes, &value, sizeof(T));
         } else {
             allocate_data();
-            construct_inplace(static_cast<T*>(opaque_pointer), value);
+            *static_cast<T*>(opaque_pointer) = value;
         }
         RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     }
@@ -304,10 +304,8 @@ public:
         auto this_info = type_info();
         auto value_info = devices::type_info<remove_cvref_t<T>>();
         if (this_info == value_info) {
-            construct_inplace(
-                    static_cast<remove_cvref_t<T>*>(opaque_pointer),
-                    std::forward<T>(value)
-            );
+            *static_cast<remove_cvref_t<T>*>(opaque_pointer)
+                    = std::forward<T>(value);
         } else {
             dtl::scalar_convert_copy(
                     opaque_pointer,
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 5559400..8ad84d8 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -209,12 +209,12 @@ assign_rational(T* dst, int64_t num, int64_t denom) noexcept
 
 inline bool assign_rational(rational_scalar_type* dst, int64_t num, int64_t denom) noexcept
 {
-    construct_inplace(dst, num, denom);
+    *dst = rational_scalar_type(num, denom);
     return true;
 }
 inline bool assign_rational(rational_poly_scalar* dst, int64_t num, int64_t denom) noexcept
 {
-    construct_inplace(dst, rational_scalar_type(num, denom));
+    *dst = rational_poly_scalar(rational_scalar_type(num, denom));
     return true;
 }
 
-- 
2.43.0


From 7dea8689738d03fe6b36fd379462594d10135de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 066/110] fix: rational and polynomial elements of a
 ScalarArray were never destroyed

---
 .../include/roughpy/scalars/scalar_array.h    |  2 ++
 scalars/src/scalar_array.cpp                  | 32 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/scalars/include/roughpy/scalars/scalar_array.h b/scalars/include/roughpy/scalars/scalar_array.h
index bdcd343..72dfc0b 100644
--- a/scalars/include/roughpy/scalars/scalar_array.h
+++ b/scalars/include/roughpy/scalars/scalar_array.h
@@ -190,6 +190,8 @@ public:
 
 private:
     void check_for_ptr_access(bool mut = false) const;
+    void destroy_owned_elements() noexcept;
+
     RPY_NO_DISCARD
     std::vector<byte> to_raw_bytes() const;
     void from_raw_bytes(devices::TypeInfo info, dimn_t count, Slice<byte> bytes);
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index a3e16e9..9f6977c 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -35,6 +35,7 @@
 #include "scalar/casts.h"
 #include "scalar_serialization.h"
 #include "scalar_type.h"
+#include "scalar_types.h"
 #include "traits.h"
 
 #include "scalar/raw_bytes.h"
@@ -44,6 +45,8 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <memory>
+
 using namespace rpy;
 using namespace scalars;
 
@@ -152,10 +155,39 @@ ScalarArray::ScalarArray(devices::TypeInfo info, devices::Buffer&& buffer)
       m_size(owned_buffer.size() / info.bytes)
 {}
 
+namespace {
+
+template <typename T>
+void destroy_elements(devices::Buffer& buffer) noexcept
+{
+    std::destroy_n(static_cast<T*>(buffer.ptr()), buffer.size() / sizeof(T));
+}
+
+}// namespace
+
+void ScalarArray::destroy_owned_elements() noexcept
+{
+    // The buffer only knows about raw memory, so elements that hold resources
+    // are destroyed here by the last array that refers to the buffer.
+    if (owned_buffer.ref_count() != 1 || owned_buffer.ptr() == nullptr) {
+        return;
+    }
+    switch (type_info().code) {
+        case devices::TypeCode::ArbitraryPrecisionRational:
+            destroy_elements<rational_scalar_type>(owned_buffer);
+            break;
+        case devices::TypeCode::APRationalPolynomial:
+            destroy_elements<rational_poly_scalar>(owned_buffer);
+            break;
+        default: break;
+    }
+}
+
 ScalarArray::~ScalarArray()
 {
     if (p_type_and_mode.get_enumeration()
         == dtl::ScalarArrayStorageModel::Owned) {
+        destroy_owned_elements();
         owned_buffer.~Buffer();
     }
     const_borrowed = nullptr;
-- 
2.43.0


From 8c87cb370f3a9cbc9ca2940587c79d1f42bfbd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 067/110] fix: scalar arithmetic with a zero operand kept the
 integer type, so later divisions truncated

---
 scalars/src/scalar/arithmetic.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index a2923fe..64a3d9f 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -66,6 +66,7 @@ uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
 
 Scalar Scalar::operator-() const
 {
+    if (fast_is_zero()) { return Scalar(*this); }
     Scalar result;
     const auto info = type_info();
     optional<const ScalarType*> stype;
@@ -208,6 +209,27 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
     }
 }
 
+
+/*
+ * The result of an operation has the common type of both operands even if one
+ * of them happens to be zero, so that the type does not depend on the values.
+ */
+inline void promote_for_zero(Scalar& dst, const Scalar& src)
+{
+    if (src.packed_type_info().is_null()) { return; }
+    if (dst.packed_type_info().is_null()) {
+        dst = Scalar(src.type_info());
+        return;
+    }
+    const auto dst_info = dst.type_info();
+    if (dst_info == src.type_info()) { return; }
+    const auto out_type = scalars::dtl::compute_dest_type(
+            dst.packed_type_info(),
+            src.packed_type_info()
+    );
+    if (out_type != dst_info) { dst.change_type(out_type); }
+}
+
 }// namespace
 
 Scalar& Scalar::operator+=(const Scalar& other)
@@ -220,6 +242,8 @@ Scalar& Scalar::operator+=(const Scalar& other)
         } else {
             scalar_inplace_arithmetic(*this, other, AddInplace());
         }
+    } else if (!is_interface()) {
+        promote_for_zero(*this, other);
     }
     return *this;
 }
@@ -234,6 +258,8 @@ Scalar& Scalar::operator-=(const Scalar& other)
         } else {
             scalar_inplace_arithmetic(*this, other, SubInplace());
         }
+    } else if (!is_interface()) {
+        promote_for_zero(*this, other);
     }
     return *this;
 }
@@ -244,8 +270,9 @@ Scalar& Scalar::operator*=(const Scalar& other)
         interface_ptr->mul_inplace(other);
     } else if (!fast_is_zero() && !other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, MulInplace());
-    } else if (!fast_is_zero()) {
-        operator=(0);
+    } else {
+        promote_for_zero(*this, other);
+        if (!fast_is_zero()) { operator=(0); }
     }
 
     return *this;
-- 
2.43.0


From 1905a55b065e8103e8c69f9af110e8b4dab61b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 068/110] fix: Scalar.scalar_type dereferenced an empty
 optional or raised for integers, rationals and polynomials

---
 roughpy/src/scalars/scalars.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index c761c72..cf7199d 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -40,6 +40,7 @@
 #include <roughpy/scalars/scalar_array.h>
 #include <roughpy/scalars/scalar_type.h>
 #include <roughpy/scalars/scalar_types.h>
+#include <roughpy/scalars/traits.h>
 
 #include "dlpack.h"
 #include "r_py_polynomial.h"
@@ -99,8 +100,20 @@ void python::init_scalars(pybind11::module_& m)
 
     py::class_<Scalar> klass(m, "Scalar", SCALAR_DOC);
 
-    klass.def("scalar_type", [](const Scalar& self) {
-        return scalar_type_to_py_type(*self.type());
+    klass.def("scalar_type", [](const Scalar& self) -> py::object {
+        const auto info = self.type_info();
+        if (scalars::traits::is_integral(info)) {
+            // Integers have no scalar type of their own
+            return py::reinterpret_borrow<py::object>(
+                    reinterpret_cast<PyObject*>(&PyLong_Type)
+            );
+        }
+        const auto type = scalars::scalar_type_of(info);
+        RPY_CHECK(type);
+        if (scalars::traits::is_floating_point(info)) {
+            return scalar_type_to_py_type(*type);
+        }
+        return to_ctype_type(*type);
     });
 
     RPY_WARNING_PUSH
-- 
2.43.0


From ea5677c06ab24bffe9fa8aecc26305450025373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 069/110] fix: a resolution of zero asked of a sound stream is
 not ignored

---
 roughpy/src/streams/externally_sourced_stream.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/roughpy/src/streams/externally_sourced_stream.cpp b/roughpy/src/streams/externally_sourced_stream.cpp
index e85b367..88e35b9 100644
--- a/roughpy/src/streams/externally_sourced_stream.cpp
+++ b/roughpy/src/streams/externally_sourced_stream.cpp
@@ -108,15 +108,12 @@ external_stream_constructor(string uri_string, py::kwargs kwargs)
     //        pmd.vector_type,
     //        pmd.resolution
     //    });
-    if (!pmd.resolution) {
-        pmd.resolution = 0;
-    }
 
     if (pmd.width != 0) { factory.set_width(pmd.width); }
     if (pmd.depth != 0) { factory.set_depth(pmd.depth); }
     if (pmd.scalar_type != nullptr) { factory.set_ctype(pmd.scalar_type); }
     if (pmd.ctx) { factory.set_context(pmd.ctx); }
-    if (pmd.resolution != 0) { factory.set_resolution(*pmd.resolution); }
+    if (pmd.resolution) { factory.set_resolution(*pmd.resolution); }
     if (pmd.support) { factory.set_support(*pmd.support); }
     if (pmd.vector_type) { factory.set_vtype(*pmd.vector_type); }
 
-- 
2.43.0


From de49d775d8f44cbcffefd1fd290bdf12fe34a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 070/110] fix: streams built from data had no cache identifier,
 so restored streams loaded the cached values of other streams

---
 streams/include/roughpy/streams/dyadic_caching_layer.h | 4 +++-
 streams/src/dyadic_caching_layer.cpp                   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/streams/include/roughpy/streams/dyadic_caching_layer.h b/streams/include/roughpy/streams/dyadic_caching_layer.h
index 7b4ba6a..08e7ea3 100644
--- a/streams/include/roughpy/streams/dyadic_caching_layer.h
+++ b/streams/include/roughpy/streams/dyadic_caching_layer.h
@@ -63,7 +63,9 @@ class ROUGHPY_STREAMS_EXPORT DyadicCachingLayer : public StreamInterface
     mutable std::map<intervals::DyadicInterval, algebra::Lie> m_cache;
     mutable std::recursive_mutex m_compute_lock;
 
-    uuids::uuid m_cache_id;
+    // Every stream has an identifier of its own, under which its cache is stored
+    static uuids::uuid new_cache_id();
+    uuids::uuid m_cache_id = new_cache_id();
 
 public:
     using StreamInterface::StreamInterface;
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 83fec5c..f0d3e48 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -54,9 +54,13 @@
 using namespace rpy;
 using namespace rpy::streams;
 
+uuids::uuid DyadicCachingLayer::new_cache_id()
+{
+    return uuids::random_generator()();
+}
+
 DyadicCachingLayer::DyadicCachingLayer()
-    : StreamInterface(), m_cache(), m_compute_lock(),
-          m_cache_id(uuids::random_generator()())
+    : StreamInterface(), m_cache(), m_compute_lock()
 {
 //    auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 //    {
-- 
2.43.0


From fc86815a23a7944770ae4c8086cbe2ac478c3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 071/110] fix: restoring a Brownian stream read its generator
 and seed in the wrong order

---
 streams/include/roughpy/streams/brownian_stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..399c096 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -109,12 +109,13 @@ RPY_SERIAL_LOAD_FN_IMPL(BrownianStream)
     const auto* stype = md.data_scalar_type;
 //    set_metadata(std::move(md));
 
-    std::string generator;
-    RPY_SERIAL_SERIALIZE_VAL(generator);
-
+    // The order must match that in which the values are saved
     std::vector<uint64_t> seed;
     RPY_SERIAL_SERIALIZE_VAL(seed);
 
+    std::string generator;
+    RPY_SERIAL_SERIALIZE_VAL(generator);
+
     std::string state;
     RPY_SERIAL_SERIALIZE_VAL(state);
 
-- 
2.43.0


From 90c9704addda5259e06e4ff9b033538d6123f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 072/110] fix: polynomials could not be pickled because their
 type is not called by the name it is exported under

---
 roughpy/src/scalars/r_py_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 6311268..6851718 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -441,7 +441,7 @@ static PyNumberMethods RPyPolynomial_number{
 
 PyTypeObject RPyPolynomial_Type = {
         PyVarObject_HEAD_INIT(nullptr, 0)      //
-        "roughpy.Polynomial",                  /* tp_name */
+        "roughpy.PolynomialScalar",            /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
         polynomial_dealloc,  /* tp_dealloc */
-- 
2.43.0


From 1fe6a826ce4f3103f3e81e1fb372a81e0d7b724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 073/110] fix: restoring a damaged archive of a stream
 generated on demand read outside of its cache

---
 .../roughpy/streams/dynamically_constructed_stream.h        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index 87a220d..80929b2 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -240,7 +240,13 @@ void DynamicallyConstructedStream::load_cache(Archive& archive,
     std::vector<dtl::DataIncrementSafe> linear_data;
     RPY_SERIAL_SERIALIZE_NVP("cache_data", linear_data);
 
+    const auto count = static_cast<idimn_t>(linear_data.size());
     for (auto& item : linear_data) {
+        // Data that might be damaged must not lead outside of the tree
+        RPY_CHECK(item.parent_idx >= -1 && item.parent_idx < count);
+        RPY_CHECK(item.sibling_idx >= -1 && item.sibling_idx < count);
+        RPY_CHECK((item.parent_idx == -1) == (item.sibling_idx == -1));
+
         auto& entry = m_data_tree[item.interval];
         entry.accuracy(item.resolution);
         entry.lie(std::move(item.content));
-- 
2.43.0


From 8bbae706a13d74466dec1a0824739f398a9ad10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 074/110] fix: restoring a polynomial left the factors of the
 previous monomial in the next, and trusted the sizes in the archive

---
 .../roughpy/scalars/scalar_serialization.h    | 57 +++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar_serialization.h b/scalars/include/roughpy/scalars/scalar_serialization.h
index a499374..be2a3e6 100644
--- a/scalars/include/roughpy/scalars/scalar_serialization.h
+++ b/scalars/include/roughpy/scalars/scalar_serialization.h
@@ -28,12 +28,17 @@
 #ifndef ROUGHPY_SCALARS_SCALAR_SERIALIZATION_H_
 #define ROUGHPY_SCALARS_SCALAR_SERIALIZATION_H_
 
+#include <roughpy/core/check.h>
 #include <roughpy/core/helpers.hpp>
 #include <roughpy/platform/serialization.h>
 
 #include "scalar_types.h"
 #include <cereal/types/utility.hpp>
 
+#include <algorithm>
+#include <limits>
+#include <vector>
+
 RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::half)
 {
     using namespace ::rpy;
@@ -192,10 +197,24 @@ public:
             size = static_cast<dimn_t>(tmp_size);
         }
 
-        dimn_t n_limbs = 0;
-        if (size > 0) {
-            n_limbs = (size + sizeof(limbs_t) - 1) / sizeof(limbs_t);
-            RPY_SERIAL_SERIALIZE_BYTES("data", resize(n_limbs), size);
+        RPY_CHECK(size % sizeof(limbs_t) == 0);
+        const dimn_t n_limbs = size / sizeof(limbs_t);
+        if (n_limbs > 0) {
+            // The size is not to be believed until the data has been read, so
+            // read it in parts of at most a megabyte
+            constexpr dimn_t max_part = (dimn_t(1) << 20) / sizeof(limbs_t);
+            std::vector<limbs_t> data;
+            while (data.size() < n_limbs) {
+                const auto offset = data.size();
+                const auto part = std::min(n_limbs - offset, max_part);
+                data.resize(offset + part);
+                RPY_SERIAL_SERIALIZE_BYTES(
+                        "data",
+                        data.data() + offset,
+                        part * sizeof(limbs_t)
+                );
+            }
+            std::copy(data.begin(), data.end(), resize(n_limbs));
         }
         finalize(n_limbs, is_negative);
     }
@@ -217,6 +236,26 @@ public:
          const std::uint32_t RPY_UNUSED_VAR version);
 };
 
+// What is read from an archive need not be a number in lowest terms
+inline void check_restored_rational(rational_scalar_type& value)
+{
+#if RPY_USING_GMP
+    auto* data = value.backend().data();
+    if (mpz_sgn(mpq_denref(data)) <= 0) {
+        mpq_set_ui(data, 0, 1);
+        RPY_THROW(std::runtime_error, "the denominator must be positive");
+    }
+    mpq_canonicalize(data);
+#else
+    auto& backend = value.backend();
+    if (backend.den().sign() || eval_is_zero(backend.den())) {
+        value = 0;
+        RPY_THROW(std::runtime_error, "the denominator must be positive");
+    }
+    backend.normalize();
+#endif
+}
+
 template <typename Archive>
 void save_rational(Archive& archive, const rational_scalar_type& value)
 {
@@ -259,6 +298,8 @@ void load_rational(Archive& archive, rational_scalar_type& value)
     RPY_SERIAL_SERIALIZE_NVP("numerator", helper_t(backend.num()));
     RPY_SERIAL_SERIALIZE_NVP("denominator", helper_t(backend.den()));
 #endif
+
+    check_restored_rational(value);
 }
 
 }// namespace dtl
@@ -313,12 +354,20 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::monomial)
     RPY_SERIAL_SERIALIZE_SIZE(static_cast<cereal::size_type&>(count));
 
     //    pair<indeterminate_type, deg_t> entry(indeterminate_type(0, 0), 0);
+    value = monomial();
+    deg_t total = 0;
     indeterminate_type id(0, 0);
     deg_t degree;
     for (size_t i = 0; i < count; ++i) {
         //        RPY_SERIAL_SERIALIZE_BARE(entry);
         RPY_SERIAL_SERIALIZE_BARE(::cereal::make_map_item(id, degree));
 
+        // The degree of the monomial has to be a number of the same type
+        RPY_CHECK(
+                degree > 0
+                && degree <= std::numeric_limits<deg_t>::max() - total
+        );
+        total += degree;
         value[id] = degree;
     }
 }
-- 
2.43.0


From 89a3aebb42f9d1ed5f5c424ebd4fcb30aa101d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 075/110] fix: restoring a damaged archive of an algebra
 element or scalar used sizes, keys and types that were never checked

---
 .../roughpy/algebra/algebra_base_impl.h        | 18 +++++++++++++++++-
 scalars/src/scalar.cpp                         |  3 ++-
 scalars/src/scalar/raw_bytes.cpp               | 13 +++++++++++--
 scalars/src/scalar_array.cpp                   |  4 ++++
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..936cda7 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -782,14 +782,21 @@ void AlgebraBase<Interface, Derived>::load(
 
     AlgebraType atype;
     RPY_SERIAL_SERIALIZE_NVP("algebra_type", atype);
+    RPY_CHECK(atype == algebra_t::s_alg_type);
 
     VectorType vtype;
     RPY_SERIAL_SERIALIZE_NVP("storage_type", vtype);
+    RPY_CHECK(vtype == VectorType::Dense || vtype == VectorType::Sparse);
 
     bool has_values;
     RPY_SERIAL_SERIALIZE_VAL(has_values);
 
-    if (!has_values) { return; }
+    if (!has_values) {
+        p_impl = dtl::downcast_interface_ptr<Interface>(
+                dtl::try_create_new_empty(ctx, atype)
+        );
+        return;
+    }
 
     if (vtype == VectorType::Dense) {
 
@@ -806,9 +813,18 @@ void AlgebraBase<Interface, Derived>::load(
         serial::size_type size;
         RPY_SERIAL_SERIALIZE_SIZE(size);
 
+        // Lie keys are counted from 1, the tensor words from 0
+        const auto is_lie = atype == AlgebraType::Lie;
+        const dimn_t first_key = is_lie ? 1 : 0;
+        const auto dimension = is_lie ? ctx->lie_size(ctx->depth())
+                                      : ctx->tensor_size(ctx->depth());
+
         for (serial::size_type i = 0; i < size; ++i) {
             std::pair<typename Interface::key_type, scalars::Scalar> val;
             RPY_SERIAL_SERIALIZE_BARE(val);
+            RPY_CHECK(
+                    val.first >= first_key && val.first - first_key < dimension
+            );
             p_impl->get_mut(val.first) = val.second;
         }
     }
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 91e341b..bcaad9a 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -492,9 +492,10 @@ std::vector<byte> Scalar::to_raw_bytes() const
 
 void Scalar::from_raw_bytes(devices::TypeInfo info, Slice <byte> bytes)
 {
+    auto tp_o = scalar_type_of(info);
+    RPY_CHECK(!tp_o || (*tp_o)->type_info() == info);
     // Make sure it is clear
     this->~Scalar();
-    auto tp_o = scalar_type_of(info);
     if (tp_o) {
         p_type_and_content_type
             = type_pointer(*tp_o, dtl::ScalarContentType::TrivialBytes);
diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index daaaaaa..2371abc 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -169,6 +169,7 @@ dimn_t from_raw_bytes_impl(
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
     RPY_CHECK(bytes.size() - advance >= nbytes);
+    RPY_CHECK(nbytes % helper.sizeof_limb() == 0);
     advance += nbytes;
 
     dimn_t n_limbs = 0;
@@ -216,6 +217,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         remaining -= advance;
 
         offset += advance;
+        scalars::dtl::check_restored_rational(dst[i]);
     }
 
     if (final_offset != nullptr) { *final_offset = offset; }
@@ -242,19 +244,25 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
 {
     constexpr auto sizeof_idep = sizeof(typename indeterminate_type::packed_type) + sizeof(typename indeterminate_type::integral_type);
     constexpr auto sizeof_term = sizeof_idep + sizeof(lal::deg_t);
-    RPY_CHECK(bytes.size() > sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= sizeof(uint64_t));
     uint64_t size_large = 0;
     from_raw_bytes_impl(&size_large, 1, bytes);
     auto size = static_cast<dimn_t>(size_large);
 
-    RPY_CHECK(bytes.size() > size_large*sizeof_term + sizeof(uint64_t));
+    RPY_CHECK(size_large <= (bytes.size() - sizeof(uint64_t)) / sizeof_term);
     const auto* src = bytes.data() + sizeof(uint64_t);
 
     indeterminate_type tmp_idep(0, 0);
     lal::deg_t power = 0;
+    lal::deg_t total = 0;
     for (dimn_t i=0; i<size; ++i) {
         from_raw_bytes_impl(tmp_idep, {src, sizeof_idep});
         from_raw_bytes_impl(&power, 1, {src + sizeof_idep, sizeof(lal::deg_t)});
+        RPY_CHECK(
+                power > 0
+                && power <= std::numeric_limits<lal::deg_t>::max() - total
+        );
+        total += power;
         value[tmp_idep] = power;
         src += sizeof_term;
     }
@@ -323,4 +331,5 @@ void scalars::dtl::from_raw_bytes(
 #define X(TP) return from_raw_bytes_impl((TP*) dst, count, bytes)
     DO_FOR_EACH_X(info)
 #undef X
+    RPY_THROW(std::runtime_error, "values of this type cannot be restored");
 }
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 9f6977c..8c0c750 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -481,6 +481,10 @@ void ScalarArray::from_raw_bytes(
 {
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
+    RPY_CHECK(!tp_o || (*tp_o)->type_info() == info);
+    RPY_CHECK(tp_o || (info.alignment == info.bytes && info.lanes == 1));
+    // No value is written in less than one byte
+    RPY_CHECK(count <= bytes.size());
     if (tp_o && count == 0) {
         *this = ScalarArray(*tp_o);
         return;
-- 
2.43.0


From 7468843f533cf07d23e30db8b2fb95d636465a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 076/110] fix: a damaged archive of a monomial ended the
 process

---
 roughpy/src/scalars/r_py_polynomial.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 6851718..1833774 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -172,16 +172,14 @@ static PyObject* monomial___setstate__(PyObject* self, PyObject* args)
             PyByteArray_AsString((PyObject*) data),
             PyByteArray_Size((PyObject*) data)
     );
-    try {
+    return guarded([&]() -> PyObject* {
         std::stringstream ss(sdata);
         archives::BinaryInputArchive ia(ss);
-        ia(cast_mon(self));
-    } catch (cereal::Exception& exc) {
-        PyErr_SetString(PyExc_RuntimeError, exc.what());
-        return nullptr;
-    }
-
-    Py_RETURN_NONE;
+        scalars::monomial restored;
+        ia(restored);
+        cast_mon(self) = std::move(restored);
+        Py_RETURN_NONE;
+    });
 }
 }
 
-- 
2.43.0


From 8167c50b1c19b3c72888393350b707751f2196ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 077/110] fix: an archive without a stream or schema was
 accepted as a stream

---
 roughpy/src/streams/stream.cpp                | 4 ++++
 streams/include/roughpy/streams/stream_base.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 84ef2c2..6ae98a5 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -637,6 +637,10 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
+            // An archive may hold a null pointer in place of the stream
+            if (!self->m_data.metadata().default_context) {
+                RPY_THROW(std::runtime_error, "the archive holds no stream");
+            }
             return py_self.release().ptr();
         });
     }
diff --git a/streams/include/roughpy/streams/stream_base.h b/streams/include/roughpy/streams/stream_base.h
index 8391a34..905f56d 100644
--- a/streams/include/roughpy/streams/stream_base.h
+++ b/streams/include/roughpy/streams/stream_base.h
@@ -200,6 +200,7 @@ RPY_SERIAL_SERIALIZE_FN_IMPL(StreamInterface)
 {
     RPY_SERIAL_SERIALIZE_NVP("metadata", m_metadata);
     RPY_SERIAL_SERIALIZE_NVP("schema", p_schema);
+    RPY_CHECK(p_schema);
 }
 
 }// namespace streams
-- 
2.43.0


From 112059f3a583674c388dca950d37158a4229d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:22 +0000
Subject: [PATCH 078/110] fix: guard the half-shuffle product caches with their
 mutexes

---
 .../libalgebra_lite/algebra/half_shuffle_multiplier.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
index d448c40..45a9af4 100644
--- a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
+++ b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
@@ -5,6 +5,8 @@
 #include "libalgebra_lite/shuffle_tensor.h"
 #include "libalgebra_lite/free_tensor.h"
 
+#include <mutex>
+
 
 
 
@@ -89,6 +91,8 @@ left_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
@@ -179,6 +183,8 @@ right_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
-- 
2.43.0


From d1a410af784527398266ba07e9d213c5a3bbc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:42 +0000
Subject: [PATCH 079/110] fix: serialise the reads of concurrent queries of a
 sound file stream

---
 streams/src/external_data_sources/sound_file_data_source.cpp | 1 +
 streams/src/external_data_sources/sound_file_data_source.h   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index e42b2ba..67aedb2 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -208,6 +208,7 @@ dimn_t SoundFileDataSource::query(
     //            break;
     //    }
     //
+    std::lock_guard<std::mutex> access(*p_lock);
     const auto* ctype = *result.type();
 
     /*
diff --git a/streams/src/external_data_sources/sound_file_data_source.h b/streams/src/external_data_sources/sound_file_data_source.h
index 833bd23..d5158a0 100644
--- a/streams/src/external_data_sources/sound_file_data_source.h
+++ b/streams/src/external_data_sources/sound_file_data_source.h
@@ -37,6 +37,9 @@
 
 #include <roughpy/platform/filesystem.h>
 
+#include <memory>
+#include <mutex>
+
 namespace rpy {
 namespace streams {
 
@@ -46,6 +49,8 @@ class SoundFileDataSource : public ExternalDataStreamSource
     param_t m_time_param_scaling = 1.0;
     fs::path m_path;
     SndfileHandle m_handle;
+    // Reading moves the position of the handle, which all queries share
+    std::unique_ptr<std::mutex> p_lock = std::make_unique<std::mutex>();
 
     sf_count_t param_to_frame(param_t param);
 
-- 
2.43.0


From b49770659ed360d3b94aa559c0354131f37e5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:38 +0000
Subject: [PATCH 080/110] fix: release the GIL before taking the lock of a
 function stream

---
 roughpy/src/streams/function_stream.cpp | 17 +++++++++++++++++
 roughpy/src/streams/function_stream.h   |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/roughpy/src/streams/function_stream.cpp b/roughpy/src/streams/function_stream.cpp
index c588b97..3071970 100644
--- a/roughpy/src/streams/function_stream.cpp
+++ b/roughpy/src/streams/function_stream.cpp
@@ -51,6 +51,23 @@ python::FunctionStream::FunctionStream(
       m_val_type(val_type)
 {}
 
+algebra::Lie python::FunctionStream::log_signature(
+        const intervals::DyadicInterval& interval,
+        resolution_t resolution,
+        const algebra::Context& ctx
+) const
+{
+    // Whoever holds the lock of the base class waits for the GIL to call the
+    // function, so the GIL must not be held whilst waiting for that lock.
+    optional<py::gil_scoped_release> released;
+    if (PyGILState_Check() == 1) { released.emplace(); }
+    return DynamicallyConstructedStream::log_signature(
+            interval,
+            resolution,
+            ctx
+    );
+}
+
 algebra::Lie python::FunctionStream::log_signature_impl(
         const intervals::Interval& interval,
         const algebra::Context& ctx
diff --git a/roughpy/src/streams/function_stream.h b/roughpy/src/streams/function_stream.h
index 17f55e0..db0f503 100644
--- a/roughpy/src/streams/function_stream.h
+++ b/roughpy/src/streams/function_stream.h
@@ -57,6 +57,13 @@ public:
             streams::StreamMetadata md
     );
 
+    using DynamicallyConstructedStream::log_signature;
+
+    algebra::Lie log_signature(
+            const intervals::DyadicInterval& interval, resolution_t resolution,
+            const algebra::Context& ctx
+    ) const override;
+
 protected:
     algebra::Lie log_signature_impl(
             const intervals::Interval& interval, const algebra::Context& ctx
-- 
2.43.0


From e008be6bed793b98b27b977b30aca187968fbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 081/110] fix: convert the operands of free functions on
 tensors to a common context

---
 roughpy/src/algebra/free_multiply_funcs.cpp | 56 +++++++++++++++++++--
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index 712fe5d..49f9c7e 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -14,9 +14,52 @@ using namespace rpy;
 
 namespace {
 
+/*
+ * The context functions take raw tensors and interpret them as tensors of that
+ * context, so an operand from a context with another depth or coefficient type
+ * has to be converted first.
+ */
+template <typename Tensor>
+py::object
+convert_to_context(const py::object& arg, const algebra::Context& ctx)
+{
+    const auto& tensor = arg.cast<const Tensor&>();
+    const auto tensor_ctx = tensor.context();
+    RPY_CHECK(static_cast<bool>(tensor_ctx));
+    if (&*tensor_ctx == &ctx) { return arg; }
+    if (tensor_ctx->width() != ctx.width()) {
+        RPY_THROW(
+                std::invalid_argument,
+                "arguments belong to contexts with different width"
+        );
+    }
+    return py::cast(ctx.convert(tensor, {}));
+}
+
+py::object in_context_of(const py::object& base, const py::object& arg)
+{
+    algebra::context_pointer ctx;
+    if (py::isinstance<algebra::FreeTensor>(base)) {
+        ctx = base.cast<const algebra::FreeTensor&>().context();
+    } else if (py::isinstance<algebra::ShuffleTensor>(base)) {
+        ctx = base.cast<const algebra::ShuffleTensor&>().context();
+    }
+    if (!ctx) { return arg; }
+
+    if (py::isinstance<algebra::FreeTensor>(arg)) {
+        return convert_to_context<algebra::FreeTensor>(arg, *ctx);
+    }
+    if (py::isinstance<algebra::ShuffleTensor>(arg)) {
+        return convert_to_context<algebra::ShuffleTensor>(arg, *ctx);
+    }
+    return arg;
+}
+
 static const char FREE_MULTIPLY_DOC[] = R"rpydoc()rpydoc";
-py::object free_multiply(const py::object& left, const py::object& right)
+py::object free_multiply(const py::object& left, const py::object& right_arg
+)
 {
+    const auto right = in_context_of(left, right_arg);
     algebra::ConstRawUnspecifiedAlgebraType left_raw, right_raw;
     algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
@@ -70,8 +113,10 @@ static const char SHUFFLE_MULTIPLY_DOC[] = R"rpydoc(
 Shuffle two :class:`FreeTensor` objects.
 Use a multiplication that isn't the native one.
 )rpydoc";
-py::object shuffle_multiply(const py::object& left, const py::object& right)
+py::object shuffle_multiply(const py::object& left, const py::object& right_arg
+)
 {
+    const auto right = in_context_of(left, right_arg);
     algebra::ConstRawUnspecifiedAlgebraType left_raw, right_raw;
     algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
@@ -126,8 +171,10 @@ Use a multiplication that isn't the native one.
 For example, half shuffle two :class:`ShuffleTensor` objects. Do what's not allowed by type using ``*`` (ish).
 )rpydoc";
 py::object
-half_shuffle_multiply(const py::object& left, const py::object& right)
+half_shuffle_multiply(const py::object& left, const py::object& right_arg
+)
 {
+    const auto right = in_context_of(left, right_arg);
     algebra::ConstRawUnspecifiedAlgebraType left_raw, right_raw;
     algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
@@ -179,8 +226,9 @@ half_shuffle_multiply(const py::object& left, const py::object& right)
 
 static const char ADJOINT_FREE_MULTIPLY_DOC[] = R"rpydoc(Performs the adjoint of the free multiplication, :math:`A > A`.)rpydoc";
 py::object
-adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
+adjoint_to_free_multiply(const py::object& multiplier, const py::object& argument)
 {
+    const auto arg = in_context_of(multiplier, argument);
     algebra::ConstRawUnspecifiedAlgebraType mul_raw, arg_raw;
     algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
-- 
2.43.0


From 4bf9f52e717b73b214e3dcd5164b723730e7a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 082/110] fix: do not read a ctype from the common base class
 of the scalar types

---
 roughpy/src/scalars/scalar_type.cpp | 19 +++++++++++++++++--
 roughpy/src/scalars/scalar_type.h   | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/scalars/scalar_type.cpp b/roughpy/src/scalars/scalar_type.cpp
index 4c0a843..ab6c7bb 100644
--- a/roughpy/src/scalars/scalar_type.cpp
+++ b/roughpy/src/scalars/scalar_type.cpp
@@ -54,7 +54,15 @@ PyScalarMetaType_call(PyObject* self, PyObject* args, PyObject* kwargs)
 {
     using namespace python;
     auto* type = reinterpret_cast<PyTypeObject*>(self);
-    const auto* stype = reinterpret_cast<PyScalarMetaType*>(type)->tp_ctype;
+    const auto* stype = scalar_meta_ctype(py::handle(self));
+    if (stype == nullptr) {
+        PyErr_Format(
+                PyExc_TypeError,
+                "cannot create instances of '%s'",
+                type->tp_name
+        );
+        return nullptr;
+    }
 
     static const char* kwords[] = {"data", "numerator", "denominator"};
 
@@ -258,6 +266,13 @@ pybind11::handle python::get_scalar_baseclass()
     return pybind11::handle(reinterpret_cast<PyObject*>(&PyScalarTypeBase_type)
     );
 }
+const scalars::ScalarType*
+python::scalar_meta_ctype(pybind11::handle scalar_type)
+{
+    // The common base class is an ordinary type object with no room for a ctype
+    if (scalar_type.is(get_scalar_baseclass())) { return nullptr; }
+    return reinterpret_cast<PyScalarMetaType*>(scalar_type.ptr())->tp_ctype;
+}
 void python::PyScalarMetaType_dealloc(PyObject* arg)
 {
     PyTypeObject* tp = Py_TYPE(arg);
@@ -457,7 +472,7 @@ const scalars::ScalarType* python::py_type_to_scalar_type(const py::type& type)
 const scalars::ScalarType* python::py_arg_to_ctype(const pybind11::object& arg)
 {
     if (py::isinstance(arg, python::get_scalar_metaclass())) {
-        return reinterpret_cast<python::PyScalarMetaType*>(arg.ptr())->tp_ctype;
+        return scalar_meta_ctype(arg);
     }
     if (py::isinstance<py::str>(arg)) {
         return scalars::ScalarType::for_id(arg.cast<string>());
diff --git a/roughpy/src/scalars/scalar_type.h b/roughpy/src/scalars/scalar_type.h
index cf09568..de88206 100644
--- a/roughpy/src/scalars/scalar_type.h
+++ b/roughpy/src/scalars/scalar_type.h
@@ -75,6 +75,13 @@ struct new_scalar_type_temps_manager {
 py::handle get_scalar_metaclass();
 py::handle get_scalar_baseclass();
 
+/**
+ * @brief Get the ctype of an instance of the scalar metaclass.
+ * @return the ctype, or null if there is none (the base class, and classes that
+ * are derived from it in Python)
+ */
+const scalars::ScalarType* scalar_meta_ctype(py::handle scalar_type);
+
 extern "C" void PyScalarMetaType_dealloc(PyObject* arg);
 
 void register_scalar_type(const scalars::ScalarType* ctype, py::handle py_type);
@@ -164,7 +171,11 @@ inline const scalars::ScalarType* to_stype_ptr(const py::handle& arg)
     if (!py::isinstance(arg, get_scalar_metaclass())) {
         RPY_THROW(py::type_error, "argument is not a valid scalar type");
     }
-    return reinterpret_cast<PyScalarMetaType*>(arg.ptr())->tp_ctype;
+    const auto* ctype = scalar_meta_ctype(arg);
+    if (ctype == nullptr) {
+        RPY_THROW(py::type_error, "argument is not a valid scalar type");
+    }
+    return ctype;
 }
 
 char format_to_type_char(const string& fmt);
-- 
2.43.0


From b080b7c50bad332b01a6f8a659140ec67ae2ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 083/110] fix: report a failed host allocation

---
 platform/src/devices/host/host_device_impl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/platform/src/devices/host/host_device_impl.cpp b/platform/src/devices/host/host_device_impl.cpp
index ceb2337..ba33468 100644
--- a/platform/src/devices/host/host_device_impl.cpp
+++ b/platform/src/devices/host/host_device_impl.cpp
@@ -60,6 +60,7 @@
 #include "kernels/masked_unary.h"
 
 #include <algorithm>
+#include <new>
 
 using namespace rpy;
 using namespace rpy::devices;
@@ -206,10 +207,10 @@ Buffer CPUDeviceHandle::raw_alloc(dimn_t count, dimn_t alignment) const
 {
     if (alignment == 0) { alignment = alignof(std::max_align_t); }
 
-    return Buffer(new CPUBuffer(
-            mem::aligned_alloc(alignment, count),
-            count
-    ));
+    void* raw = mem::aligned_alloc(alignment, count);
+    if (raw == nullptr && count > 0) { throw std::bad_alloc(); }
+
+    return Buffer(new CPUBuffer(raw, count));
 }
 void CPUDeviceHandle::raw_free(void* pointer, dimn_t size) const
 {
-- 
2.43.0


From f1cb461ff18a2c96adebe1c0a83ab1724a8ac544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 084/110] fix: read schemas from sequences that have no length

---
 roughpy/src/args/kwargs_to_path_metadata.cpp | 3 ++-
 roughpy/src/args/parse_schema.cpp            | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/args/kwargs_to_path_metadata.cpp b/roughpy/src/args/kwargs_to_path_metadata.cpp
index 85d2d09..5b230bb 100644
--- a/roughpy/src/args/kwargs_to_path_metadata.cpp
+++ b/roughpy/src/args/kwargs_to_path_metadata.cpp
@@ -116,7 +116,8 @@ python::PyStreamMetaData python::kwargs_to_metadata(pybind11::kwargs& kwargs)
 
             // unlabelled heterogeneous channel types
         } else if (py::isinstance<py::sequence>(channels)) {
-            auto channel_list = py::reinterpret_borrow<py::sequence>(channels);
+            // Some sequences (such as tensors) have no length
+            const py::list channel_list(channels);
             md.schema = std::make_shared<streams::StreamSchema>();
 
             for (auto&& item : channel_list) {
diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index aa28146..c14cfbf 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -394,9 +394,8 @@ void python::parse_into_schema(
                 schema.get(), py::reinterpret_borrow<py::dict>(data)
         );
     } else if (py::isinstance<py::sequence>(data)) {
-        handle_seq_schema(
-                schema.get(), py::reinterpret_borrow<py::sequence>(data)
-        );
+        // Some sequences (such as tensors) have no length
+        handle_seq_schema(schema.get(), py::list(data));
     } else {
         RPY_THROW(py::type_error, "expected dict or sequence");
     }
-- 
2.43.0


From 9d9715e1925118278f68337d7b74415a02ec340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 085/110] fix: stop when the length of the argument of Monomial
 cannot be read

---
 roughpy/src/scalars/r_py_polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 1833774..6617ad3 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -571,6 +571,7 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             dict_def = arg;
         } else if (PySequence_Check(arg)) {
             auto size = PySequence_Size(arg);
+            if (size < 0) { return false; }
             for (Py_ssize_t i = 0; i < size; ++i) {
                 auto py_item = py::reinterpret_steal<py::object>(
                         PySequence_GetItem(arg, i)
-- 
2.43.0


From 89f287af0599931d2d99c1ef05b2621140070d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 086/110] fix: compare exact scalars with infinities and nans

---
 scalars/src/scalar/comparison.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 802bc40..98c7162 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -34,6 +34,7 @@
 #include "do_macro.h"
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
 #include <limits>
 
 using namespace rpy;
@@ -191,6 +192,10 @@ template <typename L>
 constexpr bool
 compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
 {
+    if constexpr (is_floating_point_v<L>) {
+        // No exact value corresponds to an infinity or a nan
+        if (!std::isfinite(lhs)) { return false; }
+    }
     return rational_scalar_type(lhs) == rhs;
 }
 template <typename R>
-- 
2.43.0


From f985223f8464db50d0b676e862722d6e8c740085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 087/110] fix: report a value that cannot be converted on
 scalar assignment

---
 scalars/src/scalar.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index bcaad9a..ff3c804 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -300,11 +300,18 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                    );
             }
         } else {
-            dtl::scalar_convert_copy(
+            const auto converted = dtl::scalar_convert_copy(
                 mut_pointer(),
                 type_info(),
                 other
             );
+            if (!converted) {
+                RPY_THROW(
+                    std::invalid_argument,
+                    "the value cannot be represented in the type of the "
+                    "scalar it is assigned to"
+                );
+            }
         }
     }
     return *this;
-- 
2.43.0


From 7b7da3b13eb1eae74e4ebe48bb76a3bbc6ac547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 088/110] fix: bound the resolution of whole cells from below

---
 streams/src/stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index ca34160..b8e07e9 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -97,7 +97,11 @@ Stream::RealInterval extend_to_whole_cells(
     }
 
     const auto& md = impl.metadata();
-    const auto coarse = std::min(resolution, md.default_resolution);
+    // No stream reaches beyond the cells of length 2^1000
+    const auto coarse = std::max(
+            std::min(resolution, md.default_resolution),
+            resolution_t(-1000)
+    );
 
     auto inf = query.inf();
     auto sup = query.sup();
-- 
2.43.0


From e2153061591494bd16d0a599446803626bdbf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:09 +0000
Subject: [PATCH 089/110] fix: refuse arithmetic of exact scalars with
 infinities and nans

---
 scalars/src/scalar/arithmetic.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 64a3d9f..4ce324c 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -46,6 +46,8 @@
 #include "do_macro.h"
 #include "type_promotion.h"
 
+#include <cmath>
+
 
 
 using namespace rpy;
@@ -180,7 +182,19 @@ inline void scalar_inplace_arithmetic(
     } else {
         Scalar tmp(dst_info);
         void* tmp_ptr = tmp.mut_pointer();
-        scalars::dtl::scalar_convert_copy(tmp_ptr, dst_info, src, src_info, 1);
+        if (!scalars::dtl::scalar_convert_copy(
+                    tmp_ptr,
+                    dst_info,
+                    src,
+                    src_info,
+                    1
+            )) {
+            RPY_THROW(
+                    std::domain_error,
+                    "the value cannot be represented in the common type of "
+                    "the operands"
+            );
+        }
         do_op(dst, tmp_ptr, dst_info, std::forward<Op>(op));
     }
 }
@@ -293,6 +307,12 @@ static inline enable_if_t<
                 T&>>
 do_divide_impl(T* dst, const R* divisor)
 {
+    if constexpr (is_floating_point_v<R> && !is_trivially_copyable_v<T>) {
+        // No exact value corresponds to an infinity or a nan
+        if (!std::isfinite(*divisor)) {
+            RPY_THROW(std::domain_error, "value is not finite");
+        }
+    }
     *dst /= *divisor;
 }
 
-- 
2.43.0


From e831e1fe9a97c23e484e81a88fd7b5e8e6e18343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:46 +0000
Subject: [PATCH 090/110] fix: report a value that cannot be converted on a
 change of scalar type

---
 scalars/include/roughpy/scalars/scalar.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index 1273838..3cc7b9e 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -490,7 +490,16 @@ public:
     void change_type(devices::TypeInfo new_type_info)
     {
         Scalar tmp(new_type_info);
-        dtl::scalar_convert_copy(tmp.mut_pointer(), new_type_info, *this);
+        if (!dtl::scalar_convert_copy(
+                    tmp.mut_pointer(),
+                    new_type_info,
+                    *this
+            )) {
+            RPY_THROW(
+                    std::domain_error,
+                    "the value cannot be represented in the new type"
+            );
+        }
         this->~Scalar();
         construct_inplace(this, std::move(tmp));
     }
-- 
2.43.0


From ba73920ae6c3bc34f47fd497f084027ce302671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 091/110] fix: add the right operand of a generic rational
 addition

---
 .../src/generics/multiprecision_types/rational_arithmetic.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
index d9931ea..924de04 100644
--- a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
+++ b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
@@ -22,7 +22,7 @@ void RationalArithmetic::unsafe_add_inplace(
     RPY_DBG_ASSERT_NE(lhs, nullptr);
     RPY_DBG_ASSERT_NE(rhs, nullptr);
 
-    auto* src_ptr = static_cast<mpq_srcptr>(lhs);
+    auto* src_ptr = static_cast<mpq_srcptr>(rhs);
     auto* dst_ptr = static_cast<mpq_ptr>(lhs);
 
     mpq_add(dst_ptr, dst_ptr, src_ptr);
-- 
2.43.0


From 1035da2864a6fdc4736979237119f411c57f2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 092/110] fix: equal generic integers compare equal

---
 .../src/generics/multiprecision_types/integer_comparison.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/src/generics/multiprecision_types/integer_comparison.cpp b/platform/src/generics/multiprecision_types/integer_comparison.cpp
index a201efd..5fc657b 100644
--- a/platform/src/generics/multiprecision_types/integer_comparison.cpp
+++ b/platform/src/generics/multiprecision_types/integer_comparison.cpp
@@ -26,7 +26,7 @@ bool IntegerComparison::unsafe_compare_equal(
     const auto* lhs_ptr = static_cast<mpz_srcptr>(lhs);
     const auto* rhs_ptr = static_cast<mpz_srcptr>(rhs);
 
-    return mpz_cmp(lhs_ptr, rhs_ptr) != 0;
+    return mpz_cmp(lhs_ptr, rhs_ptr) == 0;
 }
 bool IntegerComparison::unsafe_compare_less(
         const void* lhs,
-- 
2.43.0


From 7bdc929b759288b5e40a22a47d638d2bd21f736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 093/110] fix: refuse division of a generic rational by zero

---
 .../src/generics/multiprecision_types/rational_arithmetic.cpp | 2 ++
 .../src/generics/multiprecision_types/rational_number.cpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
index 924de04..e057b04 100644
--- a/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
+++ b/platform/src/generics/multiprecision_types/rational_arithmetic.cpp
@@ -55,5 +55,7 @@ void RationalArithmetic::unsafe_div_inplace(void* lhs, const void* rhs) const
     auto* src_ptr = static_cast<mpq_srcptr>(rhs);
     auto* dst_ptr = static_cast<mpq_ptr>(lhs);
 
+    RPY_CHECK_NE(mpq_sgn(src_ptr), 0, std::domain_error);
+
     mpq_div(dst_ptr, dst_ptr, src_ptr);
 }
\ No newline at end of file
diff --git a/platform/src/generics/multiprecision_types/rational_number.cpp b/platform/src/generics/multiprecision_types/rational_number.cpp
index 60b33b3..d048162 100644
--- a/platform/src/generics/multiprecision_types/rational_number.cpp
+++ b/platform/src/generics/multiprecision_types/rational_number.cpp
@@ -69,6 +69,10 @@ void RationalNumber::unsafe_pow(
     auto* base_ptr = static_cast<mpq_srcptr>(base);
     auto* dst_ptr = static_cast<mpq_ptr>(dst);
 
+    if (exponent < 0) {
+        RPY_CHECK_NE(mpq_sgn(base_ptr), 0, std::domain_error);
+    }
+
     if (exponent == 0) {
         mpq_set_si(dst_ptr, 1, 1);
     } else if (exponent == 1) {
-- 
2.43.0


From af7c1193d0887274797e03ff44f6cd52782de372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 094/110] fix: negative powers of generic rationals

---
 .../src/generics/multiprecision_types/rational_number.cpp  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/multiprecision_types/rational_number.cpp b/platform/src/generics/multiprecision_types/rational_number.cpp
index d048162..5edd560 100644
--- a/platform/src/generics/multiprecision_types/rational_number.cpp
+++ b/platform/src/generics/multiprecision_types/rational_number.cpp
@@ -84,9 +84,10 @@ void RationalNumber::unsafe_pow(
         mpz_pow_ui(mpq_numref(dst_ptr), mpq_numref(base_ptr), expo);
         mpz_pow_ui(mpq_denref(dst_ptr), mpq_denref(base_ptr), expo);
     } else {
-        const auto expo = static_cast<uint64_t>(exponent);
-        mpz_pow_ui(mpq_numref(dst_ptr), mpq_denref(base_ptr), expo);
-        mpz_pow_ui(mpq_denref(dst_ptr), mpq_numref(base_ptr), expo);
+        const auto expo = -static_cast<uint64_t>(exponent);
+        mpz_pow_ui(mpq_numref(dst_ptr), mpq_numref(base_ptr), expo);
+        mpz_pow_ui(mpq_denref(dst_ptr), mpq_denref(base_ptr), expo);
+        mpq_inv(dst_ptr, dst_ptr);
     }
 }
 void RationalNumber::unsafe_from_rational(
-- 
2.43.0


From 8f1f897f3b652dfb4f6fe2eee076ea04828deb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 095/110] fix: reduce generic rationals constructed from a
 fraction

---
 .../multiprecision_types/rational_number.cpp       | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/platform/src/generics/multiprecision_types/rational_number.cpp b/platform/src/generics/multiprecision_types/rational_number.cpp
index 5edd560..d41cfe6 100644
--- a/platform/src/generics/multiprecision_types/rational_number.cpp
+++ b/platform/src/generics/multiprecision_types/rational_number.cpp
@@ -99,16 +99,12 @@ void RationalNumber::unsafe_from_rational(
     RPY_DBG_ASSERT_NE(dst, nullptr);
 
     // This should have been checked in the outer scope
-    RPY_DBG_ASSERT_NE(numerator, 0);
+    RPY_DBG_ASSERT_NE(denominator, 0);
 
     auto* dst_ptr = static_cast<mpq_ptr>(dst);
 
-    if (denominator < 0) {
-        numerator = -numerator;
-        denominator = -denominator;
-    }
-
-    const auto denom = static_cast<uint64_t>(denominator);
-
-    mpq_set_si(dst_ptr, numerator, denom);
+    mpz_set_si(mpq_numref(dst_ptr), numerator);
+    mpz_set_si(mpq_denref(dst_ptr), denominator);
+    // Reduces the fraction and moves the sign to the numerator
+    mpq_canonicalize(dst_ptr);
 }
-- 
2.43.0


From 47523826a4317a6877a3330ba8848bb6d4a7aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 096/110] fix: negative generic integers constructed from a
 fraction

---
 .../src/generics/multiprecision_types/integer_number.cpp  | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/platform/src/generics/multiprecision_types/integer_number.cpp b/platform/src/generics/multiprecision_types/integer_number.cpp
index 423942d..fe25bd7 100644
--- a/platform/src/generics/multiprecision_types/integer_number.cpp
+++ b/platform/src/generics/multiprecision_types/integer_number.cpp
@@ -68,14 +68,10 @@ void IntegerNumber::unsafe_from_rational(
     RPY_DBG_ASSERT_NE(dst, nullptr);
     RPY_CHECK_NE(denominator, 0);
 
-    if (numerator < 0) {
-        numerator = -numerator;
-        denominator = -denominator;
-    }
-
-    RPY_CHECK_EQ(denominator, 1);
+    RPY_CHECK(denominator == 1 || denominator == -1);
 
     auto* dst_ptr = static_cast<mpz_ptr>(dst);
 
     mpz_set_si(dst_ptr, numerator);
+    if (denominator < 0) { mpz_neg(dst_ptr, dst_ptr); }
 }
-- 
2.43.0


From b3675a5fc07d16eab70723e6a98bb4524a15a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 097/110] fix: number trait functions that called another
 function

---
 platform/src/generics/number_trait.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/number_trait.cpp b/platform/src/generics/number_trait.cpp
index 65b82e6..35b580d 100644
--- a/platform/src/generics/number_trait.cpp
+++ b/platform/src/generics/number_trait.cpp
@@ -80,7 +80,7 @@ void NumberTrait::sqrt(Ref dst, ConstRef src) const
     RPY_CHECK_EQ(dst.type(), *real_type());
     RPY_CHECK_EQ(src.type(), *p_type);
 
-    unsafe_abs(dst.data(), src.data());
+    unsafe_sqrt(dst.data(), src.data());
 }
 void NumberTrait::exp(Ref dst, ConstRef src) const
 {
@@ -127,7 +127,7 @@ Value NumberTrait::imaginary(ConstRef value) const
     RPY_CHECK_EQ(value.type(), *p_type);
 
     Value result(p_type);
-    unsafe_real(result.data(), value.data());
+    unsafe_imaginary(result.data(), value.data());
 
     return result;
 }
@@ -181,7 +181,7 @@ Value NumberTrait::log(ConstRef value) const
     RPY_CHECK_EQ(value.type(), *p_type);
 
     Value result(p_type);
-    unsafe_exp(result.data(), value.data());
+    unsafe_log(result.data(), value.data());
 
     return result;
 }
-- 
2.43.0


From 83d1f3e2fe813d39817d8da045fdfe61e17c8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 098/110] fix: construct generic values from data of their type

---
 platform/src/generics/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/src/generics/value.cpp b/platform/src/generics/value.cpp
index 3368469..f614c36 100644
--- a/platform/src/generics/value.cpp
+++ b/platform/src/generics/value.cpp
@@ -132,7 +132,7 @@ Value::Value(TypePtr type, const void* data)
     RPY_CHECK(p_type);
     if (!is_inline_stored()) { allocate_data(); }
     if (data != nullptr) {
-        copy_assign_value(type.get(), data);
+        copy_assign_value(p_type.get(), data);
     }
 }
 
@@ -140,7 +140,7 @@ Value::Value(TypePtr type, string_view str_data)
     : p_type(std::move(type))
 {
     RPY_DBG_ASSERT(p_type != nullptr);
-    ensure_constructed(type.get());
+    ensure_constructed(p_type.get());
     if (!p_type->parse_from_string(data(), str_data))
     {
         RPY_THROW(std::invalid_argument, "cannot parse string");
-- 
2.43.0


From f98ec3cda5f0131100185e725ea7e7a79574d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 099/110] fix: move assignment of generic values freed an
 object twice

---
 platform/include/roughpy/generics/values.h | 3 ++-
 platform/src/generics/value.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/platform/include/roughpy/generics/values.h b/platform/include/roughpy/generics/values.h
index d73fc88..6aa5945 100644
--- a/platform/include/roughpy/generics/values.h
+++ b/platform/include/roughpy/generics/values.h
@@ -229,7 +229,8 @@ public:
 
     ValueStorage &operator=(ValueStorage &&other) noexcept {
         if (&other != this) {
-            m_storage.pointer = other.m_storage.pointer;
+            m_storage = other.m_storage;
+            other.m_storage.pointer = nullptr;
         }
         return *this;
     }
diff --git a/platform/src/generics/value.cpp b/platform/src/generics/value.cpp
index f614c36..a8a3d37 100644
--- a/platform/src/generics/value.cpp
+++ b/platform/src/generics/value.cpp
@@ -209,7 +209,7 @@ Value& Value::operator=(Value&& other) // NOLINT(*-noexcept-move-constructor)
         if (is_inline_stored()) {
             std::memcpy(data(), other.data(), sizeof(void*));
         } else {
-            m_storage = std::move(other.m_storage);
+            std::swap(m_storage, other.m_storage);
         }
         return *this;
     }
-- 
2.43.0


From d234badccf1df85999345b280c651f19dd312d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 100/110] fix: assignment of generic arrays leaked the old
 elements

---
 platform/src/generics/array.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/platform/src/generics/array.cpp b/platform/src/generics/array.cpp
index 00a8405..81cf2fd 100644
--- a/platform/src/generics/array.cpp
+++ b/platform/src/generics/array.cpp
@@ -45,21 +45,23 @@ Array::~Array()
 
 Array& Array::operator=(const Array& other)
 {
-    copy_from(other);
+    if (&other != this) {
+        Array tmp(other);
+        *this = std::move(tmp);
+    }
     return *this;
 }
 
 Array& Array::operator=(Array&& other) noexcept
 {
-    p_type = std::move(other.p_type);
-    m_size = other.m_size;
-    m_capacity = other.m_capacity;
-    m_alignment = other.m_alignment;
-    m_data = other.m_data;
-
-    other.m_data = nullptr;
-    other.m_size = 0;
-    other.m_capacity = 0;
+    if (&other != this) {
+        Array tmp(std::move(other));
+        std::swap(p_type, tmp.p_type);
+        std::swap(m_size, tmp.m_size);
+        std::swap(m_capacity, tmp.m_capacity);
+        std::swap(m_alignment, tmp.m_alignment);
+        std::swap(m_data, tmp.m_data);
+    }
 
     return *this;
 }
@@ -110,6 +112,8 @@ void Array::copy_from(const Array& other)
     m_size = other.m_size;
     m_capacity = other.m_capacity;
     m_alignment = other.m_alignment;
+    if (m_capacity == 0) { return; }
+
     m_data = rpy::mem::aligned_alloc(m_alignment, m_capacity * p_type->object_size());
     p_type->copy_or_fill(m_data, other.m_data, m_size, true);
 }
-- 
2.43.0


From e40f4c59f98925306681797ca5afd3828f28e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 101/110] fix: growing a generic array assigned to objects that
 were never constructed

---
 platform/src/generics/array.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/array.cpp b/platform/src/generics/array.cpp
index 81cf2fd..bfe6960 100644
--- a/platform/src/generics/array.cpp
+++ b/platform/src/generics/array.cpp
@@ -98,11 +98,15 @@ void Array::reserve(dimn_t capacity)
 
     // Realloc and copy old data
     if (capacity > m_capacity) {
-        m_capacity = capacity;
-        void* new_data = rpy::mem::aligned_alloc(m_alignment, m_capacity * p_type->object_size());
-        p_type->copy_or_fill(new_data, m_data, m_size, false);
+        void* new_data = rpy::mem::aligned_alloc(m_alignment, capacity * p_type->object_size());
+        if (new_data == nullptr) { throw std::bad_alloc(); }
+        if (m_size != 0) {
+            p_type->copy_or_fill(new_data, m_data, m_size, true);
+            p_type->destroy_range(m_data, m_size);
+        }
         rpy::mem::aligned_free(m_data);
         m_data = new_data;
+        m_capacity = capacity;
     }
 }
 
-- 
2.43.0


From 60b91f806a2dd23b89351197f28f36530eaef2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:32 +0000
Subject: [PATCH 102/110] fix: refuse a generic rational with a zero
 denominator

---
 .../src/generics/multiprecision_types/rational_type.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/platform/src/generics/multiprecision_types/rational_type.cpp b/platform/src/generics/multiprecision_types/rational_type.cpp
index 7831896..ec85f72 100644
--- a/platform/src/generics/multiprecision_types/rational_type.cpp
+++ b/platform/src/generics/multiprecision_types/rational_type.cpp
@@ -86,6 +86,12 @@ bool RationalType::parse_from_string(void* data, string_view str) const noexcept
 
     if (mpq_set_str(ptr, tmp.c_str(), 10) == -1) { return false; }
 
+    // Fractions with a zero denominator are accepted by mpq_set_str
+    if (mpz_sgn(mpq_denref(ptr)) == 0) {
+        mpq_set_si(ptr, 0, 1);
+        return false;
+    }
+
     // Just in case the string was not a canonical rational number, reduce it
     mpq_canonicalize(ptr);
 
-- 
2.43.0


From a39d535e38da87aeca3cfc7411e6739e7326e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 103/110] fix: show single byte generic integers as numbers

---
 platform/src/generics/builtin_types/builtin_type_methods.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/src/generics/builtin_types/builtin_type_methods.h b/platform/src/generics/builtin_types/builtin_type_methods.h
index 970a5e4..10f4266 100644
--- a/platform/src/generics/builtin_types/builtin_type_methods.h
+++ b/platform/src/generics/builtin_types/builtin_type_methods.h
@@ -216,7 +216,8 @@ BuiltinTypeBase<T>::display(std::ostream& os, const void* value) const
     // Wrapping code should handle the case when value == nullptr,
     // so a null value jere is a bug
     RPY_DBG_ASSERT_NE(value, nullptr);
-    return os << *static_cast<const T*>(value);
+    // Promote so that single byte integers are shown as numbers
+    return os << +*static_cast<const T*>(value);
 }
 
 template <typename T>
-- 
2.43.0


From 1e482108dfc3a77c0b59d7147924164587dd0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:10 +0000
Subject: [PATCH 104/110] fix: a generic value that cannot be parsed leaked its
 object

---
 platform/src/generics/value.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/platform/src/generics/value.cpp b/platform/src/generics/value.cpp
index a8a3d37..ff5a3d0 100644
--- a/platform/src/generics/value.cpp
+++ b/platform/src/generics/value.cpp
@@ -136,11 +136,10 @@ Value::Value(TypePtr type, const void* data)
     }
 }
 
+// Delegates so that the object is destroyed if the string cannot be parsed
 Value::Value(TypePtr type, string_view str_data)
-    : p_type(std::move(type))
+    : Value(std::move(type))
 {
-    RPY_DBG_ASSERT(p_type != nullptr);
-    ensure_constructed(p_type.get());
     if (!p_type->parse_from_string(data(), str_data))
     {
         RPY_THROW(std::invalid_argument, "cannot parse string");
-- 
2.43.0


From 883bd16373282ef95f9b92381ca307d6e09a8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 105/110] fix: refuse products of monomials whose degree is too
 large

---
 roughpy/src/guarded.h                         |   2 +
 roughpy/src/scalars/r_py_polynomial.cpp       | 155 ++++++++++--------
 .../algebra/polynomial_multiplier.cpp         |  10 +-
 .../basis/polynomial_basis.cpp                |   7 +
 4 files changed, 93 insertions(+), 81 deletions(-)

diff --git a/roughpy/src/guarded.h b/roughpy/src/guarded.h
index f289a80..f52db20 100644
--- a/roughpy/src/guarded.h
+++ b/roughpy/src/guarded.h
@@ -22,6 +22,8 @@ Result guarded(Fn&& fn, Result failure = nullptr) noexcept
         exc.set_error();
     } catch (std::invalid_argument& exc) {
         PyErr_SetString(PyExc_ValueError, exc.what());
+    } catch (std::overflow_error& exc) {
+        PyErr_SetString(PyExc_OverflowError, exc.what());
     } catch (std::exception& exc) {
         PyErr_SetString(PyExc_RuntimeError, exc.what());
     }
diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 6617ad3..82f5b61 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -738,7 +738,7 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
                         result[comp.first] = comp.second;
                     }
                 }
-                if (power > 0) { result[letter] = power; }
+                if (power > 0) { result *= scalars::monomial(letter, power); }
                 mon = std::move(result);
                 return 0;
             },
@@ -792,7 +792,7 @@ PyObject* monomial_mul(PyObject* self, PyObject* other)
     if (self_mon && is_monomial(other)) {
         const auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
-        return PyMonomial_FromMonomial(lhs * rhs);
+        return guarded([&]() { return PyMonomial_FromMonomial(lhs * rhs); });
     }
 
     rat_t scalar;
@@ -819,8 +819,10 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
     if (self_mon && is_monomial(other)) {
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
-        lhs *= rhs;
-        return new_reference(self);
+        return guarded([&]() {
+            lhs *= rhs;
+            return new_reference(self);
+        });
     }
 
     rat_t scalar;
@@ -848,11 +850,12 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject* modulus)
     return guarded([&]() -> PyObject* {
         scalars::monomial result;
         if (power > 0) {
-            for (auto& comp : cast_mon(self)) {
-                if (comp.second > std::numeric_limits<deg_t>::max() / power) {
-                    PyErr_SetString(PyExc_OverflowError, "power is too large");
-                    return nullptr;
-                }
+            const auto& mon = cast_mon(self);
+            if (mon.degree() > std::numeric_limits<deg_t>::max() / power) {
+                PyErr_SetString(PyExc_OverflowError, "power is too large");
+                return nullptr;
+            }
+            for (auto& comp : mon) {
                 result[comp.first] = comp.second * power;
             }
         }
@@ -1379,84 +1382,88 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
-    bool lhs_poly = is_polynomial(self);
-    bool rhs_poly = is_polynomial(other);
-
-    if (lhs_poly && rhs_poly) {
-        const auto& lhs = cast_poly(self);
-        const auto& rhs = cast_poly(other);
-        return PyPolynomial_FromPolynomial(lhs * rhs);
-    }
+    return guarded([&]() -> PyObject* {
+        bool lhs_poly = is_polynomial(self);
+        bool rhs_poly = is_polynomial(other);
 
-    if (lhs_poly) {
-        const auto& poly = cast_poly(self);
-        if (is_monomial(other)) {
-            const auto& mon = cast_mon(other);
-            return PyPolynomial_FromPolynomial(poly * poly_t(mon, rat_t(1)));
+        if (lhs_poly && rhs_poly) {
+            const auto& lhs = cast_poly(self);
+            const auto& rhs = cast_poly(other);
+            return PyPolynomial_FromPolynomial(lhs * rhs);
         }
 
-        rat_t scalar;
-        if (py_scalar_to_rat(scalar, other)) {
-            return PyPolynomial_FromPolynomial(poly * poly_t(scalar));
-        }
-    } else {
-        const auto& poly = cast_poly(other);
+        if (lhs_poly) {
+            const auto& poly = cast_poly(self);
+            if (is_monomial(other)) {
+                const auto& mon = cast_mon(other);
+                return PyPolynomial_FromPolynomial(poly * poly_t(mon, rat_t(1)));
+            }
 
-        if (is_monomial(self)) {
-            const auto& mon = cast_mon(self);
-            return PyPolynomial_FromPolynomial(poly_t(mon, rat_t(1)) * poly);
-        }
+            rat_t scalar;
+            if (py_scalar_to_rat(scalar, other)) {
+                return PyPolynomial_FromPolynomial(poly * poly_t(scalar));
+            }
+        } else {
+            const auto& poly = cast_poly(other);
 
-        rat_t scalar;
-        if (py_scalar_to_rat(scalar, self)) {
-            return PyPolynomial_FromPolynomial(poly_t(scalar) * poly);
+            if (is_monomial(self)) {
+                const auto& mon = cast_mon(self);
+                return PyPolynomial_FromPolynomial(poly_t(mon, rat_t(1)) * poly);
+            }
+
+            rat_t scalar;
+            if (py_scalar_to_rat(scalar, self)) {
+                return PyPolynomial_FromPolynomial(poly_t(scalar) * poly);
+            }
         }
-    }
 
-    Py_RETURN_NOTIMPLEMENTED;
+        Py_RETURN_NOTIMPLEMENTED;
+    });
 }
 PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
 {
-    bool lhs_poly = is_polynomial(self);
-    bool rhs_poly = is_polynomial(other);
-
-    if (lhs_poly && rhs_poly) {
-        auto& lhs = cast_poly(self);
-        const auto& rhs = cast_poly(other);
-        lhs *= rhs;
-        return new_reference(self);
-    }
+    return guarded([&]() -> PyObject* {
+        bool lhs_poly = is_polynomial(self);
+        bool rhs_poly = is_polynomial(other);
 
-    if (lhs_poly) {
-        auto& poly = cast_poly(self);
-        if (is_monomial(other)) {
-            const auto& mon = cast_mon(other);
-            poly *= poly_t(mon, rat_t(1));
+        if (lhs_poly && rhs_poly) {
+            auto& lhs = cast_poly(self);
+            const auto& rhs = cast_poly(other);
+            lhs *= rhs;
             return new_reference(self);
         }
 
-        rat_t scalar;
-        if (py_scalar_to_rat(scalar, other)) {
-            poly *= poly_t(scalar);
-            return new_reference(self);
-        }
+        if (lhs_poly) {
+            auto& poly = cast_poly(self);
+            if (is_monomial(other)) {
+                const auto& mon = cast_mon(other);
+                poly *= poly_t(mon, rat_t(1));
+                return new_reference(self);
+            }
 
-        Py_RETURN_NOTIMPLEMENTED;
-    }
+            rat_t scalar;
+            if (py_scalar_to_rat(scalar, other)) {
+                poly *= poly_t(scalar);
+                return new_reference(self);
+            }
 
-    const auto& poly = cast_poly(other);
+            Py_RETURN_NOTIMPLEMENTED;
+        }
 
-    if (is_monomial(self)) {
-        const auto& mon = cast_mon(self);
-        return PyPolynomial_FromPolynomial(poly_t(mon, rat_t(1)) * poly);
-    }
+        const auto& poly = cast_poly(other);
 
-    rat_t scalar;
-    if (py_scalar_to_rat(scalar, self)) {
-        return PyPolynomial_FromPolynomial(poly_t(scalar) * poly);
-    }
+        if (is_monomial(self)) {
+            const auto& mon = cast_mon(self);
+            return PyPolynomial_FromPolynomial(poly_t(mon, rat_t(1)) * poly);
+        }
 
-    Py_RETURN_NOTIMPLEMENTED;
+        rat_t scalar;
+        if (py_scalar_to_rat(scalar, self)) {
+            return PyPolynomial_FromPolynomial(poly_t(scalar) * poly);
+        }
+
+        Py_RETURN_NOTIMPLEMENTED;
+    });
 }
 PyObject* polynomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
@@ -1474,12 +1481,16 @@ PyObject* polynomial_pow(PyObject* self, PyObject* other, PyObject*)
         return nullptr;
     }
 
-    if (power == 0) { return PyPolynomial_FromPolynomial(poly_t(rat_t(1))); }
-    poly_t result(poly);
+    return guarded([&]() {
+        if (power == 0) {
+            return PyPolynomial_FromPolynomial(poly_t(rat_t(1)));
+        }
+        poly_t result(poly);
 
-    for (long i = 1; i < power; ++i) { result *= poly; }
+        for (long i = 1; i < power; ++i) { result *= poly; }
 
-    return PyPolynomial_FromPolynomial(std::move(result));
+        return PyPolynomial_FromPolynomial(std::move(result));
+    });
 }
 PyObject* polynomial_floordiv(PyObject* self, PyObject* other)
 {
diff --git a/vendored/libalgebra_lite/algebra/polynomial_multiplier.cpp b/vendored/libalgebra_lite/algebra/polynomial_multiplier.cpp
index 99c3d5a..e0453ac 100644
--- a/vendored/libalgebra_lite/algebra/polynomial_multiplier.cpp
+++ b/vendored/libalgebra_lite/algebra/polynomial_multiplier.cpp
@@ -5,9 +5,6 @@
 
 #include "libalgebra_lite/polynomial.h"
 
-#include <map>
-
-
 namespace lal {
 
 
@@ -16,13 +13,8 @@ polynomial_multiplier::operator()(
         const polynomial_basis& basis,
         const key_type& lhs, const key_type& rhs) const
 {
-    std::map<letter_type, deg_t> tmp(lhs.begin(), lhs.end());
-
-    for (const auto& item : rhs) {
-        tmp[item.first] += item.second;
-    }
     product_type result;
-    result.emplace_back(key_type(tmp.begin(), tmp.end()), 1);
+    result.emplace_back(lhs * rhs, 1);
 
     return result;
 }
diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index 1178c54..2a726c0 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -4,7 +4,9 @@
 
 #include "libalgebra_lite/polynomial_basis.h"
 
+#include <limits>
 #include <mutex>
+#include <stdexcept>
 #include <unordered_map>
 #include <ostream>
 
@@ -34,6 +36,11 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
+    // The degree of the product, and so each of its powers, must be a deg_t
+    if (rhs.degree() > std::numeric_limits<deg_t>::max() - degree()) {
+        throw std::overflow_error("degree of monomial is too large");
+    }
+
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
         if (it == m_data.end()) {
-- 
2.43.0


From 9947de03435e0a019957f008c255db2195e9ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:49 +0000
Subject: [PATCH 106/110] fix: compare floating point scalars of different
 sizes

---
 scalars/src/scalar/comparison.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 98c7162..cd68ab8 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -188,6 +188,15 @@ compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
     return compare_wrap_unequal(rhs, lhs);
 }
 
+template <typename L, typename R>
+constexpr enable_if_t<
+        !is_same_v<L, R> && is_floating_point_v<L> && is_floating_point_v<R>,
+        bool>
+compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+{
+    return lhs == rhs;
+}
+
 template <typename L>
 constexpr bool
 compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
-- 
2.43.0


From d978df410f18556050d2463476eda46d14daca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:49 +0000
Subject: [PATCH 107/110] fix: scalar arithmetic that fails raises

---
 scalars/src/scalar/arithmetic.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 4ce324c..5448b8e 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -118,7 +118,7 @@ namespace {
 
 struct RPY_LOCAL AddInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs += rhs;
     }
@@ -126,7 +126,7 @@ struct RPY_LOCAL AddInplace {
 
 struct RPY_LOCAL SubInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs -= rhs;
     }
@@ -134,7 +134,7 @@ struct RPY_LOCAL SubInplace {
 
 struct RPY_LOCAL MulInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs *= rhs;
     }
@@ -147,7 +147,7 @@ struct RPY_LOCAL DivInplace {
             && is_same_v<
                     decltype(std::declval<T&>() /= std::declval<const R&>()),
                     T&>>
-    operator()(T& lhs, const R& rhs) noexcept
+    operator()(T& lhs, const R& rhs)
     {
         lhs /= rhs;
     }
-- 
2.43.0


From 0e2c927ec4a817019cd155834d326a1633182e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:29 +0000
Subject: [PATCH 108/110] fix: raise for a numerator or denominator that does
 not fit

---
 roughpy/src/scalars/scalar_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/roughpy/src/scalars/scalar_type.cpp b/roughpy/src/scalars/scalar_type.cpp
index ab6c7bb..0c2802a 100644
--- a/roughpy/src/scalars/scalar_type.cpp
+++ b/roughpy/src/scalars/scalar_type.cpp
@@ -140,7 +140,9 @@ PyScalarMetaType_call(PyObject* self, PyObject* args, PyObject* kwargs)
         }
 
         auto num = PyLong_AsLongLong(numerator);
+        if (num == -1 && PyErr_Occurred() != nullptr) { return nullptr; }
         auto denom = PyLong_AsLongLong(denominator);
+        if (denom == -1 && PyErr_Occurred() != nullptr) { return nullptr; }
 
         try {
             result = scalars::Scalar(stype, num, denom);
-- 
2.43.0


From 5d346515141789e45b3ecefbcfe5f305914744a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:45 +0000
Subject: [PATCH 109/110] fix: renaming a scalar type freed its name twice

---
 roughpy/src/scalars/scalar_type.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/roughpy/src/scalars/scalar_type.h b/roughpy/src/scalars/scalar_type.h
index de88206..9c5b791 100644
--- a/roughpy/src/scalars/scalar_type.h
+++ b/roughpy/src/scalars/scalar_type.h
@@ -146,6 +146,7 @@ inline void make_scalar_type(py::module_& m, const scalars::ScalarType* ctype)
 
     hto->ht_qualname = ht_name.release().ptr();
     hto->ht_name = hto->ht_qualname;
+    Py_INCREF(hto->ht_name);
 
     type->tp_name = tmp_manager.ht_name;
     tmp_manager.ht_name = nullptr;
-- 
2.43.0


From 8338a30c4bc1575045c4c1aeb9cc57141176bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:24 +0000
Subject: [PATCH 110/110] fix: a refused scalar division keeps the type of the
 numerator

---
 scalars/src/scalar/arithmetic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 5448b8e..45bf329 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -383,10 +383,16 @@ Scalar& Scalar::operator/=(const Scalar& other)
     }
 
     // Now we should be ready
+    try {
 #define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
     break
-    DO_FOR_EACH_X(type_info())
+        DO_FOR_EACH_X(type_info())
 #undef X
+    } catch (...) {
+        // A division that is refused leaves the numerator as it was
+        if (type_info() != num_info) { change_type(num_info); }
+        throw;
+    }
 
     return *this;
 }
-- 
2.43.0

