From e4715ff5ac290407865d82c435a0eebdb56c744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 01/59] fix: Vector::inf() is filled with inf() instead of
 -inf()

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From 7406503cd182ddba3bc350c770dd6157e3fd2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 02/59] fix: Raster constructors do not check the size against
 a moved-from shape

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From 32f7038a5706bbf06e4679285c7a2921c5f4a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/59] fix: iterating over an empty box visits no position

---
 LitlRaster/LitlRaster/BoxIterator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..d99405a 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -22,6 +22,11 @@ public:
    * @brief The beginning position.
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.length(i) <= 0) { // Nothing to iterate over
+        return endPosition(box);
+      }
+    }
     return box.front();
   }
 
-- 
2.43.0


From 6078def5c745d56f2fb31c985425691c36de5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 04/59] fix: clamp() of a position in a box compiles

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..a70e494 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -297,9 +297,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  auto out = position;
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From 9b17e6902843f9cdadb20d73a9f2446a8953c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 05/59] fix: domain of variable-dimension rasters has the
 dimension of the raster

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..26357b2 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape; // Position<-1>::zero() would be 1D
+  front.fill(0);
+  return Box<N>::fromShape(front, m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From de4d439f5c6e0d6d2ec67b7843e1002cfc240bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 06/59] fix: sections of variable-dimension rasters do not
 write out of bounds

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 36 ++++++++++-----------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 26357b2..53fd393 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -6,6 +6,7 @@
 
 #include "LitlRaster/Raster.h"
 
+#include <algorithm> // copy_n
 #include <functional> // multiplies
 #include <numeric> // accumulate
 
@@ -176,44 +177,33 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = shape();
+  reduced[last] = back - front + 1;
+  return PtrRaster<const T, N> {reduced, this->data() + front * shapeStride(shape(), last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = shape();
+  reduced[last] = back - front + 1;
+  return PtrRaster<T, N> {reduced, this->data() + front * shapeStride(shape(), last)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
+  Position < N == -1 ? -1 : N - 1 > reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<const T, N == -1 ? -1 : N - 1> {reduced, this->data() + index * shapeStride(shape(), last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication
+  Position < N == -1 ? -1 : N - 1 > reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<T, N == -1 ? -1 : N - 1> {reduced, this->data() + index * shapeStride(shape(), last)};
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 7fb0fa20aa9d66c5061f2f7465d1e920221e5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 07/59] fix: unary plus of containers compiles

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..4773d89 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -142,7 +142,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -228,7 +228,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From c26c3a3d3802cdb1c4bab96e48dfe0989447d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 08/59] fix: scalar minus container has the size of the
 container

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 4773d89..01e5204 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -156,6 +155,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -242,6 +251,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
-- 
2.43.0


From 2c8876faa004f858655d82e90c70a400f6f63d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 09/59] fix: scalar operand of in-place operators may be an
 element of the container

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 01e5204..8439d31 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [rhs](auto e) { /* Copy rhs, which may be an element of the container */ \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From f95ee7dc38c47c164fc924c972c05931f1267ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 10/59] fix: pixel-wise min() and max() are not hidden by the
 extrema

---
 LitlContainer/LitlContainer/DataContainer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..72be426 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -215,6 +215,10 @@ public:
 
   /// @group_operations
 
+  // Do not hide the pixel-wise functions
+  using MathFunctionsMixin<T, TDerived>::min;
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From 9ee70ae6a04982775ca43325e2dd4871f0b81f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 11/59] fix: linspace() of empty and singleton containers

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 72be426..4745ef6 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -160,6 +160,9 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
+    if (this->size() < 2) {
+      return fill(max);
+    }
     const auto step = (max - min) / (this->size() - 1);
     auto it = this->begin();
     for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-- 
2.43.0


From 4ad5fd83d8301639d47481c784fa09888fe3702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 12/59] fix: moving an AlignedBuffer moves the ownership

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..3f53fd2 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
-- 
2.43.0


From 0e140c0a40cd95077b04303630287e2936cc84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 13/59] fix: assigning to an owning AlignedBuffer does not leak

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 3f53fd2..bf59198 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset(); // Free owned memory
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset(); // Free owned memory
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 4aba4a9e428e20dd4a73b0f1753c2a64ea86d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 14/59] fix: subrasters of writable rasters are iterable

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..656c9c0 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(const_cast<Parent&>(subraster.raster())), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From 8791a050daff32bc24ee6a10aba7219b01a9bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 15/59] fix: the size of a ball is its number of positions

---
 LitlRaster/LitlRaster/Ball.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..92333e9 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -7,6 +7,8 @@
 
 #include "LitlRaster/Box.h"
 
+#include <iterator> // distance
+
 namespace Litl {
 
 /// @cond
@@ -99,7 +101,7 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    return std::distance(begin(*this), end(*this));
   }
 
   /**
-- 
2.43.0


From 861bc86fbf6b7169fb1c853be58c4154de125d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 16/59] fix: rasterize() copies lvalue containers

---
 LitlRaster/LitlRaster/Raster.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index ec61f9a..f34cc6d 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -456,6 +456,16 @@ rasterize(TContainer&& data, Longs... shape) {
       std::forward<TContainer>(data)};
 }
 
+/**
+ * @relates Raster
+ * @copybrief rasterize()
+ */
+template <typename TContainer, typename... Longs>
+Raster<typename TContainer::value_type, sizeof...(Longs), StdHolder<TContainer>>
+rasterize(const TContainer& data, Longs... shape) {
+  return rasterize(TContainer(data), shape...);
+}
+
 /**
  * @relates Raster
  * @copybrief rasterize()
-- 
2.43.0


From a9519f65d61f76bef223c62aa10b4d7bf733b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 17/59] fix: range() step may be an element of the container

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 4745ef6..dab0660 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const T s = step; // Copy step, which may be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += s;
     }
     return t;
   }
-- 
2.43.0


From ae2c81c8b2cef71e2e5331b42e574649b5ecacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 18/59] fix: linspace() bounds may be elements of the container

---
 LitlContainer/LitlContainer/DataContainer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index dab0660..ead21e8 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -164,12 +164,14 @@ public:
     if (this->size() < 2) {
       return fill(max);
     }
-    const auto step = (max - min) / (this->size() - 1);
+    const T first = min; // Copy min and max, which may be elements of the container
+    const T last = max;
+    const auto step = (last - first) / (this->size() - 1);
     auto it = this->begin();
     for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+      *it = first + step * i;
     }
-    *it = max;
+    *it = last;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From d138713d5648f5892700c7a3c636e048a855cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 19/59] fix: linspace() of decreasing signed integers

---
 LitlContainer/LitlContainer/DataContainer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index ead21e8..368e3f2 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -166,9 +166,10 @@ public:
     }
     const T first = min; // Copy min and max, which may be elements of the container
     const T last = max;
-    const auto step = (last - first) / (this->size() - 1);
+    const Index count = this->size() - 1; // Signed, in case last < first
+    const auto step = (last - first) / count;
     auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
+    for (Index i = 0; i < count; ++i, ++it) {
       *it = first + step * i;
     }
     *it = last;
-- 
2.43.0


From 707dc9c9255fa879ac94aab369e256bfd97d1bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 20/59] fix: mean of integers is not truncated

---
 LitlContainer/LitlContainer/DataDistribution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..554e9c9 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -8,6 +8,7 @@
 #include "LitlTypes/TypeUtils.h"
 
 #include <algorithm>
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -107,7 +108,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return std::accumulate(m_values.begin(), m_values.end(), Floating(0)) / size();
   }
 
   /**
-- 
2.43.0


From 3055124d589a3f5adc942fde80b4a5867761bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 21/59] fix: variance() compiles

---
 LitlContainer/LitlContainer/DataDistribution.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 554e9c9..e874b65 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -46,11 +46,9 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
     }
   }
 
@@ -122,7 +120,11 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    const auto m = mean();
+    const auto sum2 = std::accumulate(m_values.begin(), m_values.end(), Floating(0), [=](auto s, auto v) {
+      return s + (v - m) * (v - m);
+    });
+    return sum2 / (size() - unbiased);
   }
 
   /**
@@ -210,11 +212,6 @@ private:
    * @brief The cached sum.
    */
   T m_sum;
-
-  /**
-   * @brief The cached sum of squares.
-   */
-  T m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From 48a77038b4a0cac1181bc6dcf2af0c683f836d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 22/59] fix: weights of the interpolated quantiles

---
 LitlContainer/LitlContainer/DataDistribution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index e874b65..f2e2fd7 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -154,7 +154,7 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    return nth(f) * (1. - d) + nth(f + 1) * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 809c3f3ea655d8f92872a744571cca69909c4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 23/59] fix: absolute deviations are not truncated

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index f2e2fd7..66af2ba 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -131,12 +131,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From ac4ce3cf5e0600e4fd076099f9f398ba7a1bf1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 24/59] fix: histogram does not write past its last bin

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 66af2ba..e8bcaf6 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -179,8 +179,8 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    for (; it != m_values.end() && not out.empty() && *it == bins.back(); ++it) {
+      ++out.back();
     }
     return out;
   }
-- 
2.43.0


From 4044cc3b24cec4dc785a04d7184a26f8ff7513cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 25/59] fix: floor() of negative integral values

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From 190b0d6fa0856f814af9c0bbb325f16f1ed01fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 26/59] fix: nearest neighbor of negative positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..0b4e8fe 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From daa2836578545c564101141fdbea70f1e3963cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 27/59] fix: linear interpolation weights are not swapped

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 0b4e8fe..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From 8c132243ac134d87226172513b56b972106d0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 28/59] fix: correlation visits the rows of the kernel and
 input properly

---
 LitlTransforms/LitlTransforms/Kernel.h | 27 +++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..8c9b783 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -97,29 +97,30 @@ private:
     }
 
     // Compute constants
-    auto boxWidth = box.template length<0>();
+    const auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the kernel rows in the input raster
+    std::vector<Index> offsets;
+    for (const auto& q : project(m_window)) {
+      offsets.push_back(in.index(q));
+    }
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
-      // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      // Loop over the pixels of the row which begins in the hyperplane
+      auto inIt = in.data() + in.index(p);
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
+        auto kIt = m_values.data();
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        for (const auto o : offsets) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + o, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From a79102a2d3560bcd8b05f23874a8bc7a0c4ed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 29/59] fix: correlation with a kernel larger than the input

---
 LitlTransforms/LitlTransforms/Kernel.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 8c9b783..7f9853a 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -78,6 +78,13 @@ public:
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
     const auto inner = in.domain() - m_window;
+    const auto innerShape = inner.shape();
+    if (std::any_of(innerShape.begin(), innerShape.end(), [](auto l) {
+          return l <= 0;
+        })) { // Kernel larger than the input
+      correlateWithExtrapolation(in, in.domain(), out);
+      return;
+    }
     const auto outers = inner.surround(m_window);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
-- 
2.43.0


From 1c0eb6e8617387faa40fe0982b7119ec47d98e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 30/59] fix: correlation with const kernels compiles

---
 LitlTransforms/LitlTransforms/Kernel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 7f9853a..060eb77 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -66,7 +66,7 @@ public:
    * Correlation is like convolution with the reversed kernel.
    */
   template <typename TRaster, typename TMethod>
-  Raster<Value, Dimension> operator*(const Extrapolator<TRaster, TMethod>& in) {
+  Raster<Value, Dimension> operator*(const Extrapolator<TRaster, TMethod>& in) const {
     Raster<Value, Dimension> out(in.shape());
     correlateTo(in, out);
     return out;
@@ -76,7 +76,7 @@ public:
    * @copybrief operator*()
    */
   template <typename TRaster, typename TMethod, typename TOut>
-  void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
+  void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) const {
     const auto inner = in.domain() - m_window;
     const auto innerShape = inner.shape();
     if (std::any_of(innerShape.begin(), innerShape.end(), [](auto l) {
@@ -97,7 +97,7 @@ private:
    * @brief Correlate an input raster over a given region.
    */
   template <typename TRasterIn, typename TRasterOut>
-  void correlateWithoutExtrapolation(const TRasterIn& in, Box<N> box, TRasterOut& out) {
+  void correlateWithoutExtrapolation(const TRasterIn& in, Box<N> box, TRasterOut& out) const {
 
     if (box.size() == 0) {
       return;
@@ -138,7 +138,7 @@ private:
    * @brief Correlate an input raster over a given region.
    */
   template <typename TExtrapolatorIn, typename TRasterOut>
-  void correlateWithExtrapolation(const TExtrapolatorIn& in, const Box<N>& box, TRasterOut& out) {
+  void correlateWithExtrapolation(const TExtrapolatorIn& in, const Box<N>& box, TRasterOut& out) const {
 
     if (box.size() == 0) {
       return;
-- 
2.43.0


From 00229519c5497e8d4bbf1ae9ee98c30d0516af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 31/59] fix: data samples are shifted by any index, whatever
 the value type

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..2921c86 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -323,7 +323,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -331,7 +331,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From c0490751a0dc7be9b4943d7718b2f16f7aaa4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 32/59] fix: post-incrementation of samplings

---
 LitlRaster/LitlRaster/Sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 2921c86..470b432 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From 14b1e29f2a4b486ec7bf57d14755f69383be3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 33/59] fix: iteration over data samples stops at the last
 sample

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 470b432..790caee 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -349,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -363,7 +363,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From ebdabbb05e2642e954a7f83bd8e4195be4d28a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 34/59] fix: along(Index) compiles

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 790caee..3f60560 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From 9ed950ca1ff20ac32536cf0384221a681e01e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 35/59] fix: shape of variable-dimension position samplings

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 3f60560..bc32bbb 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -137,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
-- 
2.43.0


From ce20ce9c249516f57f834c4ebead8805981528c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 36/59] fix: 1D correlation does not read or write out of
 bounds

---
 LitlTransforms/LitlTransforms/Convolution.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..d0970d9 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -85,13 +85,14 @@ public:
     printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
 
     // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    const Index size = in.size();
+    for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
       printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
     }
 
     // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
       printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
-- 
2.43.0


From 181e6cf5ca24d589fec7eccd7fd462bfb471a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 37/59] fix: line kernels do not read or write out of bounds

---
 LitlTransforms/LitlTransforms/LineKernel.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..d19a636 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -95,13 +95,14 @@ public:
     auto i = in.front();
 
     // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    const Index size = in.size();
+    const Index forward = this->size() - m_origin - 1;
+    for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
     }
 
-- 
2.43.0


From e0512e5bc2a8baea5f3ad5803ddb8dec4766cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:56 +0000
Subject: [PATCH 38/59] fix: correlation does not print its intermediate values

---
 LitlTransforms/LitlTransforms/Convolution.h   | 44 -------------------
 .../LitlTransforms/SeparableKernel.h          |  1 -
 2 files changed, 45 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index d0970d9..9d4be2a 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -82,25 +82,20 @@ public:
     auto outIt = out.begin();
     Index i = in.front();
 
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
     // Backward-croped
     const Index size = in.size();
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
     }
 
     // Central
     for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
     }
   }
 
@@ -127,7 +122,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -137,67 +131,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..4f1ffad 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -201,7 +201,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 419d775cc69565d12135a2c7e531b8f2707f2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 39/59] fix: back of a segment made from its size

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..2cf432e 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + size - 1);
   }
 
   Index front() const {
-- 
2.43.0


From a86bd6b02b828605897c4f632109e868df5b0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 40/59] fix: kernelize() of sequences compiles

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index d19a636..6d41bfa 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -128,7 +128,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -137,7 +137,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return kernelize(values.data(), Segment::fromSize(-origin, values.size()));
 }
 
 /**
@@ -148,7 +148,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, values.size() / 2);
 }
 
 } // namespace Litl
-- 
2.43.0


From f28a231321a6fc10a04a20ca8dff27815716b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 41/59] fix: window and axes of separable kernels compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 4f1ffad..93e223f 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,24 +101,25 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
       auto i = k.first;
       const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
+      if (w.front() < front[i]) {
+        front[i] = w.front();
       }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
+      if (w.back() > back[i]) {
+        back[i] = w.back();
       }
     }
-    return box;
+    return {front, back};
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From 03d1c4e36d5627c98488b0c8fec6544fa30ed7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 42/59] fix: composed kernel is neither flipped nor cropped

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 93e223f..634b115 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -147,9 +147,13 @@ public:
       shape[k.first] = k.second.size();
       origin[k.first] = k.second.origin();
     }
-    auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    auto raster = Raster<Value, Dimension>(shape).fill(T(1));
+    for (const auto& p : raster.domain()) {
+      for (const auto& k : m_kernels) {
+        raster[p] *= k.second[p[k.first]];
+      }
+    }
+    return kernelize(raster, origin);
   }
 
   /**
-- 
2.43.0


From 8ad187da7d63fe53e46acd7fceaa5946bc515f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 43/59] fix: laplacian() and copy of separable kernels compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 634b115..594c0cd 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -41,7 +41,9 @@ public:
   /**
    * @brief Map-based constructor.
    */
-  template <typename... Ts>
+  template <
+      typename... Ts,
+      typename std::enable_if_t<std::is_constructible<std::map<Index, LineKernel<T>>, Ts&&...>::value>* = nullptr>
   explicit SeparableKernel(Ts&&... args) : m_kernels(std::forward<Ts>(args)...) {}
 
   /**
-- 
2.43.0


From 712f455d742e074d4d5f604e8575deef42151d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:20 +0000
Subject: [PATCH 44/59] fix: median of even-sized windows

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..30ee5e1 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*n + *std::max_element(b, n)) * .5;
   }
 
 private:
-- 
2.43.0


From 70dc36250c61385d5e311bfe9e3fe2e3eff7b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:20 +0000
Subject: [PATCH 45/59] fix: the default region of the median filter is bounded

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 30ee5e1..4760837 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -60,7 +60,7 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
@@ -72,6 +72,14 @@ public:
     }
   }
 
+  /**
+   * @brief Apply the filter to the whole input into a given output raster.
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, in.domain());
+  }
+
   /**
    * @brief Compute the median value of an iterable.
    * @warning
-- 
2.43.0


From 7d73966b1d88116dab9da83bbbbdd965a3fd92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 46/59] fix: assigning to a DftPlan does not leak the FFTW plan

---
 LitlTransforms/LitlTransforms/DftPlan.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..64073d7 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -109,7 +109,25 @@ public:
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
   LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&& other) = default;
+
+  /**
+   * @brief Move assignment.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan);
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From 3f250cfa21a750d3d7778f8422f914f302576e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 47/59] fix: FITS values are written and read with their type
 instead of as bytes

---
 LitlIo/LitlIo/Fits.h | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..52a1890 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -12,6 +12,41 @@
 
 namespace Litl {
 
+/// @cond
+namespace Internal {
+
+/**
+ * @brief The CFITSIO image and data type codes of a value type.
+ */
+template <typename T>
+struct FitsType;
+
+#define LITL_FITS_TYPE(type, imageCode, dataCode) \
+  template <> \
+  struct FitsType<type> { \
+    static constexpr int Image = imageCode; \
+    static constexpr int Data = dataCode; \
+  };
+
+LITL_FITS_TYPE(char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(signed char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(unsigned char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(short, SHORT_IMG, TSHORT)
+LITL_FITS_TYPE(unsigned short, USHORT_IMG, TUSHORT)
+LITL_FITS_TYPE(int, LONG_IMG, TINT)
+LITL_FITS_TYPE(unsigned int, ULONG_IMG, TUINT)
+LITL_FITS_TYPE(long, LONGLONG_IMG, TLONG)
+LITL_FITS_TYPE(unsigned long, ULONGLONG_IMG, TULONG)
+LITL_FITS_TYPE(long long, LONGLONG_IMG, TLONGLONG)
+LITL_FITS_TYPE(unsigned long long, ULONGLONG_IMG, TULONGLONG)
+LITL_FITS_TYPE(float, FLOAT_IMG, TFLOAT)
+LITL_FITS_TYPE(double, DOUBLE_IMG, TDOUBLE)
+
+#undef LITL_FITS_TYPE
+
+} // namespace Internal
+/// @endcond
+
 class Fits {
 
 public:
@@ -27,7 +62,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsType<typename TRaster::Value>::Data,
         1,
         out.size(),
         nullptr,
@@ -46,13 +81,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        Internal::FitsType<typename TRaster::Value>::Image,
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsType<typename TRaster::Value>::Data,
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From 2312de8c27158b47af46c654c2c7cd170e7aac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 48/59] fix: FITS errors are thrown, instead of returning
 garbage and disabling next operations

---
 LitlIo/LitlIo/Fits.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 52a1890..2ed92be 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -57,6 +57,13 @@ public:
     int naxis = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    mayThrow();
+    constexpr Index dimension = TRaster::Dimension;
+    if (dimension != -1 && dimension != naxis) {
+      fits_close_file(m_fptr, &m_status);
+      m_fptr = nullptr;
+      throw SizeError(naxis, dimension);
+    }
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
     TRaster out(shape);
@@ -70,14 +77,15 @@ public:
         nullptr,
         &m_status);
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow();
     return out;
   }
 
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
+    mayThrow();
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
@@ -93,11 +101,28 @@ public:
         raster.data(),
         &m_status);
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow();
   }
 
 private:
+  /**
+   * @brief Throw if some operation failed; the next operations are not impacted.
+   */
+  void mayThrow() {
+    if (m_status) {
+      char text[FLEN_STATUS];
+      fits_get_errstatus(m_status, text);
+      m_status = 0;
+      if (m_fptr) {
+        int status = 0;
+        fits_close_file(m_fptr, &status);
+        m_fptr = nullptr;
+      }
+      throw Exception("FITS error", m_filename + ": " + text);
+    }
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From 90c1fd37a21845d5187fdb61056fcd87d5dfa729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 49/59] fix: standard deviation of long increments

---
 LitlRun/LitlRun/Chronometer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..ad431e9 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -8,7 +8,7 @@
 #include <algorithm> // accumulate, min_element, max_element
 #include <chrono>
 #include <cmath> // sqrt
-#include <numeric> // inner_product
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](auto sum, auto e) {
+      return sum + (e - m) * (e - m); // Centering first avoids cancellation, e.g. for long increments in short unit
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From 2e5fc124db5c6c9d26930fb4ed17123b8e85f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 50/59] fix: copies of program options declare their own
 options

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..f09227d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description); // Not cached because it points to m_named
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description); // Not cached because it points to m_named
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 16cc9ddb712561eb85eb74d828010298f3a42e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 51/59] fix: flags consume the following argument

---
 LitlRun/LitlRun/ProgramOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index f09227d..bef6b49 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -109,7 +109,7 @@ public:
    * @brief Declare a flag option.
    */
   void flag(const char* name, const char* description) {
-    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);
+    named(name, boost::program_options::bool_switch(), description); // No token, not to consume the following argument
   }
 
   /**
-- 
2.43.0


From 17b31bfc8c6f8b488541a7c6d751d9888904ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 52/59] fix: half limits of complexes compile

---
 LitlTypes/LitlTypes/TypeUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index e82796e..d52620b 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -246,14 +246,14 @@ struct Limits {
    * @brief The min over two.
    */
   static T halfMin() {
-    return min() / 2;
+    return min() / Scalar(2);
   }
 
   /**
    * @brief The max over two in general, rounded up for integers, or `true` for Booleans.
    */
   static T halfMax() {
-    return max() / 2 + std::is_integral<T>::value;
+    return max() / Scalar(2) + Scalar(std::is_integral<T>::value);
   }
 };
 
-- 
2.43.0


From 7c0d2093d79ce3cddedfec6c7bc78c40440c7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 53/59] fix: sum the weighted values in their own type in
 correlations

The sums were accumulated in the kernel value type, and the inputs of the border pixels
were even converted to it: with integer kernels, the fractions of the input were lost,
differently at the borders and inside.
---
 LitlTransforms/LitlTransforms/Convolution.h | 7 ++++---
 LitlTransforms/LitlTransforms/Kernel.h      | 6 +++---
 LitlTransforms/LitlTransforms/LineKernel.h  | 7 ++++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 9d4be2a..a1a6e35 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -80,22 +80,23 @@ public:
     inMinIt -= in.front();
     inIt -= m_backward;
     auto outIt = out.begin();
+    const decltype(*this->begin() * *inIt) bias = m_bias;
     Index i = in.front();
 
     // Backward-croped
     const Index size = in.size();
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
+      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, bias);
     }
 
     // Central
     for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), this->end(), inIt, bias);
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, bias);
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 060eb77..d68c0b4 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -124,7 +124,7 @@ private:
 
         // Compute the weighted sum row by row
         auto kIt = m_values.data();
-        T sum {};
+        decltype(std::declval<T>() * *inIt) sum {};
         for (const auto o : offsets) {
           sum = std::inner_product(kIt, kIt + kWidth, inIt + o, sum);
           kIt += kWidth;
@@ -145,7 +145,7 @@ private:
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    std::vector<std::decay_t<typename TExtrapolatorIn::Value>> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
@@ -162,7 +162,7 @@ private:
       });
 
       // Compute the weighted sum
-      out[p] = std::inner_product(kBegin, kEnd, bBegin, T {});
+      out[p] = std::inner_product(kBegin, kEnd, bBegin, decltype(*kBegin * *bBegin) {});
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 6d41bfa..fe9976b 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -92,23 +92,24 @@ public:
     inMinIt -= in.front();
     inIt -= m_origin;
     auto outIt = out.begin();
+    const decltype(*this->begin() * *inIt) bias = m_bias;
     auto i = in.front();
 
     // Backward-croped
     const Index size = in.size();
     const Index forward = this->size() - m_origin - 1;
     for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
+      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, bias);
     }
 
     // Central
     for (; i < size - forward && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), this->end(), inIt, bias);
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, bias);
     }
   }
 
-- 
2.43.0


From d7afa93fce2b5776b2e661b3c8e26acdf5d38d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 54/59] fix: shape of balls of variable dimension

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 92333e9..ac813c5 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -87,7 +87,7 @@ public:
    * @brief Compute the bounding box shape.
    */
   Position<N> shape() const {
-    return Position<N>(N).fill(length<0>());
+    return Position<N>(dimension()).fill(length<0>());
   }
 
   /**
-- 
2.43.0


From a7357053b8338fad3537ef3a479a288c47ddfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 55/59] fix: post-increment of box, ball and subraster
 iterators yields the element before the increment

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 6 ++++--
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..533acd1 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index d99405a..165e398 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -63,8 +63,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 656c9c0..b96790f 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From fe3db7a96a66a315b5ddac8527f5c6f632fbb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 56/59] fix: copies of ball and subraster iterators do not
 refer to the copied iterator

---
 LitlRaster/LitlRaster/BallIterator.h      | 4 ++++
 LitlRaster/LitlRaster/SubrasterIterator.h | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index 533acd1..f7c8329 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -22,6 +22,10 @@ public:
     }
   }
 
+  Iterator(const Iterator& other) : // Iterate over this box, not other's one
+      m_radiusP(other.m_radiusP), m_center(other.m_center), m_box(other.m_box), m_current(m_box, *other.m_current),
+      m_end(m_box, *other.m_end) {}
+
   static Position<N> beginPosition(const Ball<N, P>& region) {
     return Box<N>::Iterator::beginPosition(region.box());
   }
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index b96790f..e9e5e0c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -24,6 +24,13 @@ public:
       m_raster(const_cast<Parent&>(subraster.raster())), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
+  /**
+   * @brief Copy constructor.
+   */
+  Iterator(const Iterator& other) : // Iterate over this plane, not other's one
+      m_raster(other.m_raster), m_beginPlane(other.m_beginPlane), m_beginIt(m_beginPlane, *other.m_beginIt),
+      m_width(other.m_width), m_current(other.m_current), m_eol(other.m_eol) {}
+
   /**
    * @brief Dereference operator.
    */
-- 
2.43.0


From 0f2418326cac869f5a56eb2d6a5c73c6250f55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 57/59] fix: report memory exhaustion in AlignedBuffer as
 std::bad_alloc

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index bf59198..fe172e8 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -10,6 +10,9 @@
 
 #include <algorithm> // copy_n
 #include <cstdint> // uintptr_t
+#include <cstdlib> // malloc, free
+#include <limits>
+#include <new> // bad_alloc
 #include <sstream>
 
 namespace Litl {
@@ -118,7 +121,13 @@ public:
     if (m_data) {
       AlignmentError::mayThrow(m_data, m_as);
     } else {
+      if (m_size > (std::numeric_limits<std::size_t>::max() - m_as) / sizeof(T)) {
+        throw std::bad_alloc(); // The size in bytes is not representable
+      }
       m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+      if (not m_container) {
+        throw std::bad_alloc();
+      }
       m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
     }
   }
@@ -147,17 +156,14 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      if (other.owns()) {
+        return *this = AlignedBuffer(other); // Allocate before freeing, in case there is not enough memory
+      }
       reset(); // Free owned memory
       m_size = other.m_size;
       m_as = other.m_as;
-      if (other.owns()) {
-        m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
-        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
-        std::copy_n(other.m_data, m_size, m_data);
-      } else {
-        m_container = other.m_container;
-        m_data = other.m_data;
-      }
+      m_container = other.m_container;
+      m_data = other.m_data;
     }
     return *this;
   }
-- 
2.43.0


From 845235d83fe4d52c6027ea9cfb45e57d541c2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:01 +0000
Subject: [PATCH 58/59] fix: Fits::read() left the file open when the raster
 could not be allocated

---
 LitlIo/LitlIo/Fits.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 2ed92be..221c385 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -64,8 +64,10 @@ public:
       m_fptr = nullptr;
       throw SizeError(naxis, dimension);
     }
+    Closer closer {*this}; // The raster may not be allocated
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    mayThrow();
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -106,6 +108,27 @@ public:
   }
 
 private:
+  /**
+   * @brief Close the file, if any.
+   */
+  void close() {
+    if (m_fptr) {
+      int status = 0;
+      fits_close_file(m_fptr, &status);
+      m_fptr = nullptr;
+    }
+  }
+
+  /**
+   * @brief Close the file when leaving the scope, even because of an exception.
+   */
+  struct Closer {
+    Fits& io;
+    ~Closer() {
+      io.close();
+    }
+  };
+
   /**
    * @brief Throw if some operation failed; the next operations are not impacted.
    */
@@ -114,11 +137,7 @@ private:
       char text[FLEN_STATUS];
       fits_get_errstatus(m_status, text);
       m_status = 0;
-      if (m_fptr) {
-        int status = 0;
-        fits_close_file(m_fptr, &status);
-        m_fptr = nullptr;
-      }
+      close();
       throw Exception("FITS error", m_filename + ": " + text);
     }
   }
-- 
2.43.0


From 28d3135ba724e60a702f0245ac27b6284252f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:38 +0000
Subject: [PATCH 59/59] fix: the median of even-sized windows overflowed with
 large integers

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 4760837..4b23785 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -95,7 +95,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    return (*n + *std::max_element(b, n)) * .5;
+    return (1. * *n + *std::max_element(b, n)) * .5;
   }
 
 private:
-- 
2.43.0

