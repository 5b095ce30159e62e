// C28: vectors and positions: special values, predicates, slicing and extension, strides and sizes, comparisons.
#include "nd.h"

using namespace Litl;

namespace {

template <typename T>
bool same(T a, T b) {
  return a == b;
}

template <typename T>
struct Special {
  static T zero() {
    return T(0);
  }
  static T one() {
    return T(1);
  }
  static T inf() {
    return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
  }
};
template <typename S>
struct Special<std::complex<S>> {
  using T = std::complex<S>;
  static T zero() {
    return T(0, 0);
  }
  static T one() {
    return T(1, 1);
  }
  static T inf() {
    return T(std::numeric_limits<S>::infinity(), std::numeric_limits<S>::infinity());
  }
};

template <typename T>
struct Draw {
  static T close(pbt::Gen& g, std::true_type) {
    using L = std::numeric_limits<T>;
    return g.pick<T>({T(.5), T(-.5), L::denorm_min(), -L::min(), L::epsilon(), 1 + L::epsilon(), 1 - L::epsilon(), T(1.5), L::max(), -L::infinity()});
  }
  static T close(pbt::Gen& g, std::false_type) {
    using L = std::numeric_limits<T>;
    return sizeof(T) == 8 ? static_cast<T>(g.pick<long>({1L << 32, (1L << 32) + 1, -(1L << 32), 1L << 31, (1L << 53) + 1, static_cast<long>(L::max() - 1)})) :
                            static_cast<T>(L::max() - g.i(1, 2));
  }
  static T any(pbt::Gen& g) {
    switch (g.draw(6)) {
      case 6: // Close to the special values in some sense
        return close(g, std::is_floating_point<T>());
      case 0:
        return Special<T>::zero();
      case 1:
        return Special<T>::one();
      case 2:
        return Special<T>::inf();
      case 3:
        return static_cast<T>(std::is_unsigned<T>::value ? g.i(0, 100) : g.z(-100, 100));
      case 4:
        return std::numeric_limits<T>::lowest();
      default:
        return static_cast<T>(g.i(0, 3));
    }
  }
};
template <typename S>
struct Draw<std::complex<S>> {
  static std::complex<S> any(pbt::Gen& g) {
    const S re = Draw<S>::any(g);
    return {re, g.coin() ? re : Draw<S>::any(g)};
  }
};

template <typename T, Index N>
std::vector<T> values(const Vector<T, N>& v) {
  return std::vector<T>(v.begin(), v.end());
}

template <typename T>
bool all(const std::vector<T>& v, T e) {
  for (const auto& i : v) {
    if (!(i == e)) {
      return false;
    }
  }
  return true;
}

template <typename T, Index N, Index M>
struct Slice {
  static void run(const Vector<T, N>& v, const std::vector<T>& x, const std::vector<T>& padding) {
    if (M <= static_cast<Index>(x.size())) {
      const Vector<T, M> s = v.template slice<M>();
      REQUIRE(values(s) == std::vector<T>(x.begin(), x.begin() + M), "slice<" << M << ">() is " << pbt::showAll(values(s)));
    }
    if (M >= static_cast<Index>(x.size())) {
      auto e = x;
      e.resize(M, Special<T>::zero());
      REQUIRE(values(v.template extend<M>()) == e, "extend<" << M << ">() is " << pbt::showAll(values(v.template extend<M>())));
      Vector<T, M> p(M);
      std::copy_n(padding.begin(), M, p.begin());
      const auto before = p;
      std::copy(padding.begin() + x.size(), padding.begin() + M, e.begin() + x.size());
      const auto out = v.template extend<M>(p);
      REQUIRE(values(out) == e, "extend<" << M << ">(padding) is " << pbt::showAll(values(out)));
      REQUIRE(p == before, "extend() changes the padding");
    }
    REQUIRE(values(v) == x, "the vector itself has changed");
  }
};

template <typename T, Index N>
void law(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 6);
  std::vector<T> x(n);
  const auto mode = g.draw(4);
  const T c = mode == 0 ? Special<T>::zero() : mode == 1 ? Special<T>::one() : mode == 2 ? Special<T>::inf() : Draw<T>::any(g);
  const auto odd = n > 0 && g.coin() ? g.i(0, n - 1) : -1;
  for (std::size_t i = 0; i < n; ++i) {
    x[i] = mode == 4 || static_cast<long>(i) == odd ? Draw<T>::any(g) : c;
  }
  NOTE("N=" << N << " x=" << pbt::showAll(x));
  g.nontrivial(n > 1);
  Vector<T, N> v(x);
  const auto& cv = v;
  REQUIRE(values(v) == x, "values are " << pbt::showAll(values(v)));
  REQUIRE_EQ(cv.isZero(), all(x, Special<T>::zero()), "isZero");
  REQUIRE_EQ(cv.isOne(), all(x, Special<T>::one()), "isOne");
  REQUIRE_EQ(cv.isInf(), all(x, Special<T>::inf()), "isInf");
  g.label(cv.isZero() ? "zero" : cv.isOne() ? "one" : cv.isInf() ? "infinity" : "any");
  // special vectors
  const std::size_t m = N == -1 ? 1 : N;
  REQUIRE(values(Vector<T, N>::zero()) == std::vector<T>(m, Special<T>::zero()), "zero() is " << pbt::showAll(values(Vector<T, N>::zero())));
  REQUIRE(values(Vector<T, N>::one()) == std::vector<T>(m, Special<T>::one()), "one() is " << pbt::showAll(values(Vector<T, N>::one())));
  REQUIRE(values(Vector<T, N>::inf()) == std::vector<T>(m, Special<T>::inf()), "inf() is " << pbt::showAll(values(Vector<T, N>::inf())));
  // comparison
  auto y = x;
  if (n > 0 && g.coin()) {
    y[g.i(0, n - 1)] = Draw<T>::any(g);
  }
  const Vector<T, N> w(y);
  REQUIRE_EQ(v == w, x == y, "==");
  REQUIRE_EQ(v != w, x != y, "!=");
  if (N == -1 && g.coin()) {
    auto z = x;
    z.push_back(T(0));
    REQUIRE((!(v == Vector<T, N>(z)) && v != Vector<T, N>(z)), "vectors of different dimensions are equal");
  }
  // slice, extend
  std::vector<T> padding(8);
  for (auto& e : padding) {
    e = Draw<T>::any(g);
  }
  const auto mIndex = g.draw(6);
  switch (N == -1 ? mIndex : N >= 4 ? 2 + g.draw(4) : g.draw(6)) {
#define SLICE(M) \
  case M: \
    Slice<T, N, M>::run(v, x, padding); \
    break;
    SLICE(0)
    SLICE(1)
    SLICE(2)
    SLICE(3)
    SLICE(4)
    SLICE(5)
    default:
      SLICE(6)
  }
}

/// Coordinates which are not numbers equal nothing.
template <typename T, Index N>
void nan(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 6);
  const auto c = g.pick<T>({T(0), T(1), Special<T>::inf(), T(-1)});
  std::vector<T> x(n, c);
  const bool zero = g.chance(1, 4);
  x[g.i(0, n - 1)] = zero ? T(-0.) : std::numeric_limits<T>::quiet_NaN();
  NOTE("N=" << N << " x=" << pbt::showAll(x));
  g.nontrivial(n > 1);
  const Vector<T, N> v(x);
  REQUIRE_EQ(v.isZero(), all(x, T(0)), "isZero");
  REQUIRE_EQ(v.isOne(), all(x, T(1)), "isOne");
  REQUIRE_EQ(v.isInf(), all(x, Special<T>::inf()), "isInf");
  auto y = x;
  if (zero && g.coin()) {
    std::replace(y.begin(), y.end(), T(0), g.coin() ? T(0) : T(-0.));
  }
  const Vector<T, N> w(y);
  REQUIRE_EQ(v == w, x == y, "==");
  REQUIRE_EQ(v != w, x != y, "!=");
}

template <Index N>
void strides(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 6);
  nd::Pos shape(n);
  const bool null = g.chance(1, 8);
  for (auto& e : shape) {
    e = null ? g.i(0, 3) : g.coin() ? g.i(1, 4) : g.i(1, n <= 2 ? 2000000000 : n <= 4 ? 40000 : n <= 6 ? 1000 : 100);
  }
  NOTE("N=" << N << " shape=" << nd::str(shape));
  const auto s = nd::to<N>(shape);
  long stride = 1;
  for (std::size_t i = 0; i <= n; ++i) {
    REQUIRE_EQ(shapeStride(s, i), stride, "shapeStride(" << i << ")");
    switch (i) {
      case 0:
        REQUIRE_EQ((shapeStride<0>(s)), stride, "shapeStride<0>()");
        break;
      case 1:
        REQUIRE_EQ((shapeStride<1>(s)), stride, "shapeStride<1>()");
        break;
      case 2:
        REQUIRE_EQ((shapeStride<2>(s)), stride, "shapeStride<2>()");
        break;
      default:
        break;
    }
    if (i < n) {
      stride *= shape[i];
    }
  }
  REQUIRE_EQ(shapeSize(s), n == 0 ? 0 : stride, "shapeSize");
  g.nontrivial(n > 1);
  g.label(stride > std::numeric_limits<int>::max() ? "beyond 32 bits" : "within 32 bits");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C28, position, 2) {
  switch (g.draw(3)) {
    case 0:
      return law<Index, 2>(g);
    case 1:
      return law<Index, 3>(g);
    case 2:
      return law<Index, 4>(g);
    default:
      return law<Index, -1>(g);
  }
}
PBT_LAW(C28, strides, 1) {
  switch (g.draw(5)) {
    case 0:
      return strides<0>(g);
    case 1:
      return strides<1>(g);
    case 2:
      return strides<2>(g);
    case 3:
      return strides<3>(g);
    case 4:
      return strides<5>(g);
    default:
      return strides<-1>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C28, not_a_number, .3) {
  switch (g.draw(2)) {
    case 0:
      return nan<double, 2>(g);
    case 1:
      return nan<float, 5>(g);
    default:
      return nan<double, -1>(g);
  }
}
PBT_LAW(C28, floating, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<double, 2>(g);
    case 1:
      return law<float, 5>(g);
    case 2:
      return law<double, 1>(g);
    default:
      return law<double, -1>(g);
  }
}
#else
PBT_LAW(C28, others, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<short, 6>(g);
    case 1:
      return law<unsigned char, 3>(g);
    case 2:
      return law<int, -1>(g);
    default:
      return law<Index, 0>(g);
  }
}
#endif
