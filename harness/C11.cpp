// C11: mathematical functions apply the standard function to each element, in place or as a new container.
#include "nd.h"

#include "LitlContainer/Sequence.h"

#include <list>

using namespace Litl;

namespace {

template <typename T>
bool equal(T a, T b) {
  return a == b || (a != a && b != b);
}
template <typename T>
bool equal(std::complex<T> a, std::complex<T> b) {
  return equal(a.real(), b.real()) && equal(a.imag(), b.imag());
}

template <typename T>
struct Value {
  /// wild: 0 = finite; 1 = any; 2 = any but NaN
  static T any(pbt::Gen& g, int wild) {
    if (wild && g.chance(1, 10)) {
      return g.pick<T>({
          std::numeric_limits<T>::infinity(),
          -std::numeric_limits<T>::infinity(),
          wild == 1 ? std::numeric_limits<T>::quiet_NaN() : T(0),
          std::numeric_limits<T>::max(),
          std::numeric_limits<T>::lowest(),
          std::numeric_limits<T>::denorm_min(),
          T(-0.)});
    }
    switch (g.draw(3)) {
      case 0:
        return static_cast<T>(g.z(-4, 4)) / 2;
      case 1:
        return static_cast<T>(g.real(1));
      case 2:
        return static_cast<T>(g.real(20));
      default:
        return static_cast<T>(g.real(100000));
    }
  }
};
template <>
struct Value<int> {
  static int any(pbt::Gen& g, int) {
    return static_cast<int>(g.small(1000000));
  }
};
template <typename S>
struct Value<std::complex<S>> {
  static std::complex<S> any(pbt::Gen& g, int) {
    const S re = g.real(4);
    return {re, static_cast<S>(g.real(4))};
  }
};

template <typename C>
struct Maker;

template <typename T, Index N, typename H>
struct Maker<Raster<T, N, H>> {
  using Value = T;
  nd::Pos shape;
  explicit Maker(pbt::Gen& g) : shape(nd::shapeOrEmpty(g, nd::dim(g, N), 40)) {}
  std::size_t size() const {
    return nd::size(shape);
  }
  Raster<T, N, H> operator()(const std::vector<T>& v) const {
    Raster<T, N, H> out(nd::to<N>(shape));
    std::copy(v.begin(), v.end(), out.begin());
    return out;
  }
  void check(const Raster<T, N, H>& c) const {
    REQUIRE(nd::from(c.shape()) == shape, "shape of the result");
  }
};

template <typename T, typename H>
struct Maker<Sequence<T, H>> {
  using Value = T;
  std::size_t n;
  explicit Maker(pbt::Gen& g) : n(g.count(0, 40)) {}
  std::size_t size() const {
    return n;
  }
  Sequence<T, H> operator()(const std::vector<T>& v) const {
    Sequence<T, H> out(n);
    std::copy(v.begin(), v.end(), out.begin());
    return out;
  }
  void check(const Sequence<T, H>&) const {}
};

template <typename T, Index N>
struct Maker<Vector<T, N>> {
  using Value = T;
  explicit Maker(pbt::Gen&) {}
  std::size_t size() const {
    return N;
  }
  Vector<T, N> operator()(const std::vector<T>& v) const {
    return Vector<T, N>(v);
  }
  void check(const Vector<T, N>&) const {}
};

template <typename T>
void same(const T* got, std::size_t n, const std::vector<T>& expected, const char* name, const char* what) {
  REQUIRE_EQ(n, expected.size(), name << ": size of the " << what);
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE(equal(got[i], expected[i]), name << ": element " << i << " of the " << what << " is " << pbt::show(got[i]) << " instead of " << pbt::show(expected[i]));
  }
}

/// One function of the table.
template <typename C>
struct Function {
  using T = typename Maker<C>::Value;
  const char* name;
  int wild;
  C& (*inplace)(C&, const C&, T, int);
  C (*instance)(const C&, const C&, T, int);
  T (*model)(T, T);
};

/// mode: 0 = container operand, 1 = scalar operand (binary functions only)
template <typename C>
void check(pbt::Gen& g, const Function<C>* functions, std::size_t count, bool binary) {
  using T = typename Maker<C>::Value;
  const auto& f = functions[g.draw(count - 1)];
  const int mode = binary ? static_cast<int>(g.draw(1)) : 0;
  Maker<C> make(g);
  std::vector<T> v(make.size()), w(make.size());
  for (auto& e : v) {
    e = Value<T>::any(g, f.wild);
  }
  if (binary) {
    for (auto& e : w) {
      e = Value<T>::any(g, f.wild);
    }
  }
  const T a = Value<T>::any(g, f.wild);
  NOTE(f.name << (binary ? mode ? " (scalar)" : " (container)" : "") << " v=" << pbt::showAll(v) << " w=" << pbt::showAll(w) << " a=" << pbt::show(a));
  g.nontrivial(v.size() > 1);
  std::vector<T> expected(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) {
    expected[i] = f.model(v[i], mode ? a : w[i]);
  }
  C x = make(v);
  const C y = make(w);
  const C out = f.instance(x, y, a, mode);
  make.check(out);
  same(out.data(), out.size(), expected, f.name, "new container");
  same(x.data(), x.size(), v, f.name, "input after the creation of a new instance");
  same(y.data(), y.size(), w, f.name, "operand after the creation of a new instance");
  C& ref = f.inplace(x, y, a, mode);
  REQUIRE(&ref == &x, f.name << " does not return its object");
  make.check(x);
  same(x.data(), x.size(), expected, f.name, "modified container");
  same(y.data(), y.size(), w, f.name, "operand after the modification");
}

#define UNARY(f, wild) \
  { \
    #f, wild, [](C& x, const C&, T, int) -> C& { return x.f(); }, \
        [](const C& x, const C&, T, int) -> C { return Litl::f(x); }, [](T e, T) -> T { return std::f(e); } \
  }
#define BINARY(f, wild) \
  { \
    #f, wild, \
        [](C& x, const C& y, T a, int mode) -> C& { return mode ? x.f(a) : const_cast<C&>(x.f(y)); }, \
        [](const C& x, const C& y, T a, int mode) -> C { return mode ? Litl::f(x, a) : Litl::f(x, y); }, \
        [](T e, T h) -> T { return std::f(e, h); } \
  }

template <typename C>
void unary1(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {
      UNARY(abs, true),
      UNARY(ceil, true),
      UNARY(floor, true),
      UNARY(trunc, true),
      UNARY(round, true),
      UNARY(cos, true),
      UNARY(sin, true),
      UNARY(tan, true),
      UNARY(acos, true),
      UNARY(asin, true),
      UNARY(atan, true),
      UNARY(cosh, true),
      UNARY(sinh, true),
      UNARY(tanh, true),
      UNARY(acosh, true),
      UNARY(asinh, true),
      UNARY(atanh, true)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), false);
}

template <typename C>
void unary2(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {
      UNARY(exp, true),
      UNARY(exp2, true),
      UNARY(expm1, true),
      UNARY(log, true),
      UNARY(log2, true),
      UNARY(log10, true),
      UNARY(logb, true),
      UNARY(ilogb, true),
      UNARY(log1p, true),
      UNARY(sqrt, true),
      UNARY(cbrt, true),
      UNARY(erf, true),
      UNARY(erfc, true),
      UNARY(tgamma, true),
      UNARY(lgamma, true)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), false);
}

template <typename C>
void binary(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {
      BINARY(max, 2), // NaNs do not satisfy the requirements of std::max and min
      BINARY(min, 2),
      BINARY(fdim, true),
      BINARY(fmod, true),
      BINARY(atan2, true),
      BINARY(pow, true),
      BINARY(hypot, true)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), true);
}

template <typename C>
void complexUnary(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {
      UNARY(cos, false),
      UNARY(sin, false),
      UNARY(tan, false),
      UNARY(acos, false),
      UNARY(asin, false),
      UNARY(atan, false),
      UNARY(cosh, false),
      UNARY(sinh, false),
      UNARY(tanh, false),
      UNARY(acosh, false),
      UNARY(asinh, false),
      UNARY(atanh, false),
      UNARY(exp, false),
      UNARY(log, false),
      UNARY(log10, false),
      UNARY(sqrt, false)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), false);
}

template <typename C>
void complexBinary(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {BINARY(pow, false)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), true);
}

template <typename C>
void intUnary(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {UNARY(abs, false)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), false);
}

template <typename C>
void intBinary(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  static const Function<C> table[] = {BINARY(max, false), BINARY(min, false)};
  check<C>(g, table, sizeof(table) / sizeof(table[0]), true);
}

/// Operands of other types: vector, list, other rasters, integral exponents; and the container itself.
template <typename C>
void mixed(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Maker<C> make(g);
  std::vector<T> v(make.size());
  std::vector<double> w(make.size());
  for (auto& e : v) {
    e = static_cast<T>(g.i(1, 20)) / 2;
  }
  for (auto& e : w) {
    e = g.z(-6, 6) / 2.;
  }
  const int a = static_cast<int>(g.z(-3, 3));
  NOTE("v=" << pbt::showAll(v) << " w=" << pbt::showAll(w) << " a=" << a);
  g.nontrivial(v.size() > 1);
  auto expected = v;
  C x = make(v);
  switch (g.draw(4)) {
    case 0:
      for (auto& e : expected) {
        e = static_cast<T>(std::pow(e, a));
      }
      x.pow(a);
      break;
    case 1:
      for (std::size_t i = 0; i < v.size(); ++i) {
        expected[i] = static_cast<T>(std::pow(v[i], w[i]));
      }
      x.pow(w);
      break;
    case 2: {
      const std::list<double> l(w.begin(), w.end());
      for (std::size_t i = 0; i < v.size(); ++i) {
        expected[i] = static_cast<T>(std::atan2(v[i], w[i]));
      }
      x = Litl::atan2(x, l);
      break;
    }
    case 3:
      for (auto& e : expected) {
        e = static_cast<T>(std::hypot(e, e));
      }
      x.hypot(x);
      break;
    default:
      for (auto& e : expected) {
        e = static_cast<T>(std::sqrt(std::exp(std::floor(e) / T(16))));
      }
      C y = x;
      Litl::sqrt(Litl::exp(y.floor() / T(16)));
      x = Litl::sqrt((Litl::floor(x) / T(16)).exp());
  }
  make.check(x);
  same(x.data(), x.size(), expected, "mixed operands", "result");
}

/// Values and operands of different types: integral values, real scalars or containers of reals.
/// The function is evaluated with the operand as it is, and only its result is converted.
template <typename C, typename U>
void promoted(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  struct Entry {
    const char* name;
    void (*scalar)(C&, U);
    void (*container)(C&, const std::vector<U>&);
    C (*instance)(const C&, U);
    C (*instances)(const C&, const std::vector<U>&);
    double (*model)(T, U);
  };
#define PROMOTED(f) \
  { \
    #f, [](C& x, U a) { x.f(a); }, [](C& x, const std::vector<U>& w) { x.f(w); }, \
        [](const C& x, U a) -> C { return Litl::f(x, a); }, \
        [](const C& x, const std::vector<U>& w) -> C { return Litl::f(x, w); }, \
        [](T e, U h) -> double { return std::f(e, h); } \
  }
#define PROMOTED_UNARY(f) \
  { \
    #f, [](C& x, U) { x.f(); }, [](C& x, const std::vector<U>&) { x.f(); }, \
        [](const C& x, U) -> C { return Litl::f(x); }, \
        [](const C& x, const std::vector<U>&) -> C { return Litl::f(x); }, [](T e, U) -> double { return std::f(e); } \
  }
  static const Entry table[] = {
      PROMOTED(pow),
      PROMOTED(fdim),
      PROMOTED(fmod),
      PROMOTED(atan2),
      PROMOTED(hypot),
      PROMOTED_UNARY(sqrt),
      PROMOTED_UNARY(cbrt),
      PROMOTED_UNARY(exp),
      PROMOTED_UNARY(exp2),
      PROMOTED_UNARY(log),
      PROMOTED_UNARY(log2),
      PROMOTED_UNARY(sinh),
      PROMOTED_UNARY(round),
      PROMOTED_UNARY(floor),
      PROMOTED_UNARY(tgamma)};
#undef PROMOTED
#undef PROMOTED_UNARY
  const Entry& f = table[g.draw(sizeof(table) / sizeof(table[0]) - 1)];
  const bool container = g.coin();
  Maker<C> make(g);
  std::vector<T> v(make.size());
  std::vector<U> w(make.size());
  const U a = static_cast<U>(g.z(-40, 40)) / 8;
  for (std::size_t i = 0; i < v.size(); ++i) {
    v[i] = static_cast<T>(g.i(1, 100));
    w[i] = container ? static_cast<U>(g.z(-40, 40)) / 8 : a;
    const double r = f.model(v[i], w[i]);
    if (not(std::abs(r) < 120) || (std::is_unsigned<T>::value && r < 0)) { // The conversion must be defined
      v[i] = 1;
      w[i] = container ? U(.5) : a;
    }
    const double s = f.model(v[i], w[i]);
    if (not(std::abs(s) < 120) || (std::is_unsigned<T>::value && s < 0)) {
      return;
    }
  }
  NOTE(f.name << (container ? " (container)" : " (scalar)") << " v=" << pbt::showAll(v) << " w=" << pbt::showAll(w) << " a=" << a);
  g.nontrivial(v.size() > 1);
  std::vector<T> expected(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) {
    expected[i] = static_cast<T>(f.model(v[i], w[i]));
  }
  C x = make(v);
  const C out = container ? f.instances(x, w) : f.instance(x, a);
  make.check(out);
  same(out.data(), out.size(), expected, f.name, "new container (promoted)");
  same(x.data(), x.size(), v, f.name, "input after the creation of a new instance");
  container ? f.container(x, w) : f.scalar(x, a);
  make.check(x);
  same(x.data(), x.size(), expected, f.name, "modified container (promoted)");
}

/// Complex to real functions.
template <typename S, Index N>
void complexToReal(pbt::Gen& g) {
  using C = VecRaster<std::complex<S>, N>;
  Maker<C> make(g);
  std::vector<std::complex<S>> v(make.size());
  for (auto& e : v) {
    e = Value<std::complex<S>>::any(g, false);
  }
  NOTE("v=" << pbt::showAll(v));
  g.nontrivial(v.size() > 1);
  const C x = make(v);
  std::vector<S> expected(v.size());
  Raster<S, N> out;
  const char* name = "";
#define COMPLEX_CASE(k, f) \
  case k: \
    name = #f; \
    for (std::size_t i = 0; i < v.size(); ++i) { \
      expected[i] = std::f(v[i]); \
    } \
    out = Litl::f(x); \
    break;
  switch (g.draw(5)) {
    COMPLEX_CASE(0, real)
    COMPLEX_CASE(1, imag)
    COMPLEX_CASE(2, abs)
    COMPLEX_CASE(3, arg)
    COMPLEX_CASE(4, norm)
    default: {
      // in-place absolute value stays complex
      name = "in-place abs";
      C y = x;
      y.abs();
      for (std::size_t i = 0; i < v.size(); ++i) {
        expected[i] = std::abs(v[i]);
        REQUIRE(y[i].imag() == 0, "in-place abs: imaginary part");
      }
      out = Litl::real(y);
    }
  }
  REQUIRE(nd::from(out.shape()) == make.shape, name << ": shape");
  same(out.data(), out.size(), expected, name, "real raster");
  same(x.data(), x.size(), v, name, "input");
}

/// In-place functions on a view modify the viewed elements only.
template <typename TView, typename T>
void views(pbt::Gen& g) {
  const auto shape = nd::shape(g, 3, 60);
  const auto plane = static_cast<std::size_t>(shape[0] * shape[1]);
  const auto k = static_cast<std::size_t>(g.i(0, shape[2] - 1));
  VecRaster<T, 3> parent(nd::to<3>(shape));
  for (auto& e : parent) {
    e = Value<T>::any(g, true);
  }
  std::vector<T> model(parent.begin(), parent.end());
  std::vector<T> other(plane);
  for (auto& e : other) {
    e = Value<T>::any(g, true);
  }
  const auto otherModel = other;
  const T a = Value<T>::any(g, true);
  TView x({shape[0], shape[1]}, parent.data() + k * plane);
  TView y({shape[0], shape[1]}, other.data());
  const auto op = g.draw(7);
  NOTE("shape=" << nd::str(shape) << " k=" << k << " op=" << op << " values=" << pbt::showAll(model) << " other=" << pbt::showAll(other) << " a=" << pbt::show(a));
  g.nontrivial(plane > 1 && shape[2] > 1);
  const TView* ref = nullptr;
  const char* name = "";
  switch (op) {
#define VIEW_CASE(n, statement, expr) \
  case n: \
    name = #statement; \
    ref = &(x.statement); \
    for (std::size_t i = 0; i < plane; ++i) { \
      const T e = model[k * plane + i]; \
      const T f = otherModel[i]; \
      (void)f; \
      model[k * plane + i] = static_cast<T>(expr); \
    } \
    break;
    VIEW_CASE(0, abs(), std::abs(e))
    VIEW_CASE(1, sqrt(), std::sqrt(e))
    VIEW_CASE(2, exp(), std::exp(e))
    VIEW_CASE(3, floor(), std::floor(e))
    VIEW_CASE(4, pow(a), std::pow(e, a))
    VIEW_CASE(5, pow(y), std::pow(e, f))
    VIEW_CASE(6, fmod(y), std::fmod(e, f))
    VIEW_CASE(7, hypot(a), std::hypot(e, a))
#undef VIEW_CASE
  }
  REQUIRE(ref == &x, name << " does not return the view");
  same(parent.data(), parent.size(), model, name, "viewed raster");
  same(other.data(), other.size(), otherModel, name, "argument");
}

/// Free functions of views should leave the viewed elements alone.
void viewOperands(pbt::Gen& g) {
  const auto op = g.draw(1);
  std::vector<double> v(g.count(1, 20), 4);
  const auto old = v;
  const PtrRaster<double, 1> x({static_cast<Index>(v.size())}, v.data());
  NOTE((op ? "pow(x, 2)" : "sqrt(x)") << " x=" << pbt::showAll(v));
  const auto z = op ? Litl::pow(x, 2.) : Litl::sqrt(x);
  for (std::size_t i = 0; i < v.size(); ++i) {
    REQUIRE_EQ(z[i], op ? 16 : 2, "result");
  }
  REQUIRE(v == old, "the argument is modified");
}

} // namespace

using DoubleRaster = VecRaster<double, 2>;
using FloatRaster = VecRaster<float, -1>;
using DoubleSequence = Sequence<double>;
using FloatVector = Vector<float, 3>;
using ComplexRaster = VecRaster<std::complex<double>, 2>;
using IntRaster = AlignedRaster<int, 3>;

#if PBT_PART == 0
PBT_LAW(C11, raster_double_unary1, 1) {
  unary1<DoubleRaster>(g);
}
#elif PBT_PART == 1
PBT_LAW(C11, raster_double_unary2, 1) {
  unary2<DoubleRaster>(g);
}
#elif PBT_PART == 2
PBT_LAW(C11, raster_double_binary, 1) {
  binary<DoubleRaster>(g);
}
PBT_LAW(C11, raster_mixed, 1) {
  mixed<DoubleRaster>(g);
}
#elif PBT_PART == 3
PBT_LAW(C11, raster_float_unary1, 1) {
  unary1<FloatRaster>(g);
}
PBT_LAW(C11, raster_float_mixed, 1) {
  mixed<FloatRaster>(g);
}
#elif PBT_PART == 4
PBT_LAW(C11, raster_float_binary, 1) {
  binary<FloatRaster>(g);
}
PBT_LAW(C11, sequence_unary2, 1) {
  unary2<DoubleSequence>(g);
}
#elif PBT_PART == 5
PBT_LAW(C11, raster_complex, 1) {
  complexUnary<ComplexRaster>(g);
}
PBT_LAW(C11, raster_complex_pow, .4) {
  complexBinary<ComplexRaster>(g);
}
PBT_LAW(C11, complex_to_real, 1) {
  switch (g.draw(2)) {
    case 0:
      return complexToReal<double, 2>(g);
    case 1:
      return complexToReal<float, 3>(g);
    default:
      return complexToReal<double, -1>(g);
  }
}
#elif PBT_PART == 6
PBT_LAW(C11, promoted, 1.5) {
  switch (g.draw(3)) {
    case 0:
      return promoted<Sequence<int>, double>(g);
    case 1:
      return promoted<VecRaster<unsigned char, 2>, float>(g);
    case 2:
      return promoted<Vector<long, 3>, double>(g);
    default:
      return promoted<VecRaster<float, 2>, double>(g);
  }
}
PBT_LAW(C11, constant, .01) {
  const double v = g.real(10);
  NOTE("v=" << v);
  g.nontrivial(true);
  REQUIRE(pi<double>() == 3.14159265358979323846, "pi is " << pi<double>());
  REQUIRE(pi<float>() == 3.14159265358979323846f, "pi is " << pi<float>());
  Sequence<double> s({pi<double>() / 2 + v, v});
  REQUIRE(std::abs(sin(s)[0] - std::cos(v)) < 1e-12, "sin(pi / 2 + v)");
}
PBT_LAW(C11, raster_int_abs, .4) {
  intUnary<IntRaster>(g);
}
PBT_LAW(C11, raster_int_minmax, 1) {
  intBinary<IntRaster>(g);
}
PBT_LAW(C11, vector_unary2, 1) {
  unary2<FloatVector>(g);
}
#else
PBT_LAW(C11, sequence_binary, 1) {
  binary<DoubleSequence>(g);
}
PBT_LAW(C11, vector_unary1, 1) {
  unary1<FloatVector>(g);
}
PBT_LAW(C11, views, .6) {
  g.coin() ? views<PtrRaster<double, 2>, double>(g) : views<PtrRaster<float, 2>, float>(g);
}
/// Known findings, replayed only.
PBT_LAW(C11, view_operands, 0) {
  viewOperands(g);
}
#endif
