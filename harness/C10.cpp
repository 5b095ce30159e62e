// C10: arithmetic operators of rasters, sequences and vectors are element-wise, and leave their operands alone.
#include "nd.h"

#include "LitlContainer/Sequence.h"

using namespace Litl;

namespace {

template <typename T>
struct Values {
  static T any(pbt::Gen& g) {
    // |sum|, |product| fit in each type; values of unsigned types are positive
    if (std::is_floating_point<T>::value) {
      if (g.chance(1, 12)) {
        return g.pick<T>({T(0), T(-0.), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max()});
      }
      return static_cast<T>(g.real(1000));
    }
    const long m = sizeof(T) == 1 ? 11 : sizeof(T) == 2 ? 180 : 30000;
    return static_cast<T>(std::is_unsigned<T>::value ? g.i(0, m) : g.small(m));
  }
  /// A divisor: only floating point numbers can be divided by zero.
  static T nonzero(pbt::Gen& g) {
    if (std::is_floating_point<T>::value && g.chance(1, 10)) {
      return g.pick<T>({T(0), T(-0.), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()});
    }
    const T v = any(g);
    return v == T(0) ? T(3) : v;
  }
  /// Up to a quarter of the range: sums fit, and integers have more bits than floating point numbers.
  static T large(pbt::Gen& g) {
    if (std::is_floating_point<T>::value) {
      return static_cast<T>(g.real(1000000) * 1e25L);
    }
    const long m = static_cast<long>(std::numeric_limits<T>::max() / 4);
    const auto v = static_cast<T>(std::is_unsigned<T>::value ? g.i(0, m) : g.z(-m, m));
    return v == T(0) ? T(5) : v;
  }
};
template <typename S>
struct Values<std::complex<S>> {
  static std::complex<S> any(pbt::Gen& g) {
    const S re = g.chance(1, 30) ? S(-0.) : S(g.z(-100, 100));
    return {re, static_cast<S>(g.z(-100, 100))};
  }
  static std::complex<S> nonzero(pbt::Gen& g) {
    const auto v = any(g);
    return v == std::complex<S>(0) ? std::complex<S>(3, -1) : v;
  }
  static std::complex<S> large(pbt::Gen& g) {
    return nonzero(g);
  }
};

/// How to make a container with given values.
template <typename C>
struct Maker;

template <typename T, Index N, typename H>
struct Maker<Raster<T, N, H>> {
  using Value = T;
  nd::Pos shape;
  explicit Maker(pbt::Gen& g) : shape(nd::shapeOrEmpty(g, nd::dim(g, N), 60)) {}
  std::size_t size() const {
    return nd::size(shape);
  }
  Raster<T, N, H> operator()(const std::vector<T>& v) const {
    Raster<T, N, H> out(nd::to<N>(shape));
    std::copy(v.begin(), v.end(), out.begin());
    return out;
  }
  void check(const Raster<T, N, H>& c) const {
    REQUIRE(nd::from(c.shape()) == shape, "shape of the result");
  }
};

template <typename T, typename H>
struct Maker<Sequence<T, H>> {
  using Value = T;
  std::size_t n;
  explicit Maker(pbt::Gen& g) : n(g.count(0, 60)) {}
  std::size_t size() const {
    return n;
  }
  Sequence<T, H> operator()(const std::vector<T>& v) const {
    Sequence<T, H> out(n);
    std::copy(v.begin(), v.end(), out.begin());
    return out;
  }
  void check(const Sequence<T, H>&) const {}
};

template <typename T, Index N>
struct Maker<Vector<T, N>> {
  using Value = T;
  std::size_t n;
  explicit Maker(pbt::Gen& g) : n(N == -1 ? g.size(0, 10) : N) {}
  std::size_t size() const {
    return n;
  }
  Vector<T, N> operator()(const std::vector<T>& v) const {
    return Vector<T, N>(v);
  }
  void check(const Vector<T, N>&) const {}
};

template <typename T>
bool equal(const T& a, const T& b) {
  if (a == T(0) && b == T(0)) {
    return std::signbit(static_cast<double>(a)) == std::signbit(static_cast<double>(b)); // Signed zeros
  }
  return a == b || (a != a && b != b); // NaN included
}
template <typename T>
bool equal(const std::complex<T>& a, const std::complex<T>& b) {
  return equal(a.real(), b.real()) && equal(a.imag(), b.imag());
}

template <typename T>
void same(const T* got, std::size_t n, const std::vector<T>& expected, const char* what) {
  REQUIRE_EQ(n, expected.size(), what << ": size");
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE(equal(got[i], expected[i]), what << ": element " << i << " is " << pbt::show(got[i]) << " instead of " << pbt::show(expected[i]));
  }
}

template <typename C>
struct Check {
  using T = typename Maker<C>::Value;

  pbt::Gen& g;
  bool large;
  Maker<C> make;
  std::vector<T> v, w, res;
  T a;
  /// Container initialized with v, container initialized with w.
  C x, y;

  explicit Check(pbt::Gen& gen, bool nonzero, bool big = false) : g(gen), large(big), make(gen), v(make.size()), w(make.size()), res(make.size()), a(large ? Values<T>::large(gen) : nonzero ? Values<T>::nonzero(gen) : Values<T>::any(gen)), x(init(v, false)), y(init(w, nonzero)) {
    g.nontrivial(v.size() > 1);
    NOTE("v=" << pbt::showAll(v) << " w=" << pbt::showAll(w) << " a=" << pbt::show(a));
  }

  C init(std::vector<T>& values, bool nonzero) {
    for (auto& e : values) {
      e = large ? Values<T>::large(g) : nonzero ? Values<T>::nonzero(g) : Values<T>::any(g);
    }
    return make(values);
  }

  void unchanged() {
    same(x.data(), x.size(), v, "left operand after the operation");
    same(y.data(), y.size(), w, "right operand after the operation");
  }

  void result(const C& c, const char* what) {
    make.check(c);
    same(c.data(), c.size(), res, what);
    unchanged();
  }

  void inplace(C& ref, const char* what) {
    REQUIRE(&ref == &x, what << " does not return its left operand");
    make.check(x);
    same(x.data(), x.size(), res, what);
    same(y.data(), y.size(), w, "right operand after the operation");
  }
};

#define EXPECT_EACH(expr) \
  for (std::size_t i = 0; i < c.v.size(); ++i) { \
    const auto e = c.v[i]; \
    const auto f = c.w[i]; \
    const auto a = c.a; \
    (void)e; \
    (void)f; \
    (void)a; \
    c.res[i] = static_cast<T>(expr); \
  }

template <typename C>
void additive(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, false, g.chance(1, 3));
  const C& x = c.x;
  const C& y = c.y;
  switch (g.draw(10)) {
    case 0:
      EXPECT_EACH(e + f);
      return c.result(x + y, "V + U");
    case 1:
      EXPECT_EACH(e - f);
      return c.result(x - y, "V - U");
    case 2:
      EXPECT_EACH(e + a);
      return c.result(x + c.a, "V + a");
    case 3:
      EXPECT_EACH(e + a);
      return c.result(c.a + x, "a + V");
    case 4:
      EXPECT_EACH(e - a);
      return c.result(x - c.a, "V - a");
    case 5:
      EXPECT_EACH(a - e);
      return c.result(c.a - x, "a - V");
    case 6:
      EXPECT_EACH(e + f);
      return c.inplace(c.x += y, "V += U");
    case 7:
      EXPECT_EACH(e - f);
      return c.inplace(c.x -= y, "V -= U");
    case 8:
      EXPECT_EACH(e + a);
      return c.inplace(c.x += c.a, "V += a");
    case 9:
      EXPECT_EACH(e - a);
      return c.inplace(c.x -= c.a, "V -= a");
    default:
      if (g.coin()) {
        EXPECT_EACH(-e);
        return c.result(-x, "-V");
      }
      EXPECT_EACH(e);
      return c.result(+x, "+V");
  }
}

template <typename C>
void multiplicative(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  const auto op = g.draw(4);
  Check<C> c(g, true, (op == 2 || op == 4) && g.coin());
  const C& x = c.x;
  switch (op) {
    case 0:
      EXPECT_EACH(e * a);
      return c.result(x * c.a, "V * a");
    case 1:
      EXPECT_EACH(e * a);
      return c.result(c.a * x, "a * V");
    case 2:
      EXPECT_EACH(e / a);
      return c.result(x / c.a, "V / a");
    case 3:
      EXPECT_EACH(e * a);
      return c.inplace(c.x *= c.a, "V *= a");
    default:
      EXPECT_EACH(e / a);
      return c.inplace(c.x /= c.a, "V /= a");
  }
}

template <typename C>
void euclid(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, true);
  const C& x = c.x;
  const C& y = c.y;
  switch (g.draw(3)) {
    case 0:
      EXPECT_EACH(e * f);
      return c.result(x * y, "V * U");
    case 1:
      EXPECT_EACH(e / f);
      return c.result(x / y, "V / U");
    case 2:
      EXPECT_EACH(e * f);
      return c.inplace(c.x *= y, "V *= U");
    default:
      EXPECT_EACH(e / f);
      return c.inplace(c.x /= y, "V /= U");
  }
}

template <typename C>
void integral(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, true, g.chance(1, 3));
  const C& x = c.x;
  const C& y = c.y;
  switch (g.draw(3)) {
    case 0:
      EXPECT_EACH(e % f);
      return c.result(x % y, "V % U");
    case 1:
      EXPECT_EACH(e % a);
      return c.result(x % c.a, "V % a");
    case 2:
      EXPECT_EACH(e % f);
      return c.inplace(c.x %= y, "V %= U");
    default:
      EXPECT_EACH(e % a);
      return c.inplace(c.x %= c.a, "V %= a");
  }
}

template <typename C>
void steps(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, false, g.chance(1, 3));
  switch (g.draw(3)) {
    case 0:
      EXPECT_EACH(e + T(1));
      return c.inplace(++c.x, "++V");
    case 1:
      EXPECT_EACH(e - T(1));
      return c.inplace(--c.x, "--V");
    case 2: {
      const C old = c.x++;
      c.make.check(old);
      same(old.data(), old.size(), c.v, "value of V++");
      EXPECT_EACH(e + T(1));
      return c.inplace(c.x, "V++");
    }
    default: {
      const C old = c.x--;
      c.make.check(old);
      same(old.data(), old.size(), c.v, "value of V--");
      EXPECT_EACH(e - T(1));
      return c.inplace(c.x, "V--");
    }
  }
}

/// The operands may be, or be part of, the modified container.
template <typename C>
void alias(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, false);
  if (c.v.empty()) {
    return;
  }
  const auto k = g.i(0, c.v.size() - 1);
  const T b = c.v[k];
  const auto& r = c.x.data()[k];
  NOTE("k=" << k);
  switch (g.draw(7)) {
    case 0:
      EXPECT_EACH(e + e);
      return c.inplace(c.x += c.x, "V += V");
    case 1:
      EXPECT_EACH(e - e);
      return c.inplace(c.x -= c.x, "V -= V");
    case 2:
      EXPECT_EACH(e + b);
      return c.inplace(c.x += r, "V += V[k]");
    case 3:
      EXPECT_EACH(e - b);
      return c.inplace(c.x -= r, "V -= V[k]");
    case 4:
      EXPECT_EACH(e * b);
      return c.inplace(c.x *= r, "V *= V[k]");
    case 5:
      EXPECT_EACH(b - e);
      return c.result(r - c.x, "V[k] - V");
    case 6:
      EXPECT_EACH(e + b);
      return c.result(c.x + r, "V + V[k]");
    default:
      if (b == T(0)) {
        return;
      }
      EXPECT_EACH(e / b);
      return c.inplace(c.x /= r, "V /= V[k]");
  }
}

/// Random expressions: (x + a * y) - (b - x) + y...
template <typename C>
void expressions(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Check<C> c(g, false);
  C acc = c.x;
  auto model = c.v;
  const auto n = g.i(1, 6);
  for (long k = 0; k < n; ++k) {
    const T s = static_cast<T>(g.i(0, 2));
    switch (g.draw(5)) {
      case 0:
        acc = acc + s * c.y;
        for (std::size_t i = 0; i < model.size(); ++i) {
          model[i] = model[i] + static_cast<T>(s * c.w[i]);
        }
        break;
      case 1:
        acc = (s - acc) - c.y;
        for (std::size_t i = 0; i < model.size(); ++i) {
          model[i] = static_cast<T>(s - model[i]) - c.w[i];
        }
        break;
      case 2:
        (acc += s) -= c.y;
        for (std::size_t i = 0; i < model.size(); ++i) {
          model[i] = static_cast<T>(model[i] + s) - c.w[i];
        }
        break;
      case 3:
        acc = -acc;
        for (auto& m : model) {
          m = -m;
        }
        break;
      case 4:
        acc = +std::move(acc) + c.x;
        for (std::size_t i = 0; i < model.size(); ++i) {
          model[i] = model[i] + c.v[i];
        }
        break;
      default:
        acc += acc - c.x;
        for (std::size_t i = 0; i < model.size(); ++i) {
          model[i] = model[i] + static_cast<T>(model[i] - c.v[i]);
        }
    }
  }
  c.make.check(acc);
  same(acc.data(), acc.size(), model, "expression");
  c.unchanged();
}

template <typename C>
void numeric(pbt::Gen& g) {
  switch (g.draw(4)) {
    case 0:
      return additive<C>(g);
    case 1:
      return multiplicative<C>(g);
    case 2:
      return steps<C>(g);
    case 3:
      return expressions<C>(g);
    default:
      return alias<C>(g);
  }
}

/// In-place operators on a view modify the viewed elements only.
template <typename TView, typename T>
void views(pbt::Gen& g) {
  const auto shape = nd::shape(g, 3, 60);
  const auto plane = static_cast<std::size_t>(shape[0] * shape[1]);
  const auto k = static_cast<std::size_t>(g.i(0, shape[2] - 1));
  Raster<T, 3, StdHolder<std::vector<T>>> parent(nd::to<3>(shape));
  for (auto& e : parent) {
    e = Values<T>::nonzero(g);
  }
  std::vector<T> model(parent.begin(), parent.end());
  std::vector<T> other(plane);
  for (auto& e : other) {
    e = Values<T>::nonzero(g);
  }
  const auto otherModel = other;
  const T a = Values<T>::nonzero(g);
  TView x({shape[0], shape[1]}, parent.data() + k * plane);
  TView y({shape[0], shape[1]}, other.data());
  const auto op = g.draw(9);
  NOTE("shape=" << nd::str(shape) << " k=" << k << " op=" << op << " values=" << pbt::showAll(model) << " other=" << pbt::showAll(other) << " a=" << pbt::show(a));
  g.nontrivial(plane > 1 && shape[2] > 1);
  const T* const from = x.data();
  TView* ref = nullptr;
  switch (op) {
#define VIEW_CASE(n, statement, expr) \
  case n: \
    ref = &(statement); \
    for (std::size_t i = 0; i < plane; ++i) { \
      const T e = model[k * plane + i]; \
      const T f = otherModel[i]; \
      (void)f; \
      model[k * plane + i] = static_cast<T>(expr); \
    } \
    break;
    VIEW_CASE(0, x += y, e + f)
    VIEW_CASE(1, x -= y, e - f)
    VIEW_CASE(2, x *= y, e * f)
    VIEW_CASE(3, x /= y, e / f)
    VIEW_CASE(4, x += a, e + a)
    VIEW_CASE(5, x -= a, e - a)
    VIEW_CASE(6, x *= a, e * a)
    VIEW_CASE(7, x /= a, e / a)
    VIEW_CASE(8, ++x, e + T(1))
    VIEW_CASE(9, --x, e - T(1))
#undef VIEW_CASE
  }
  REQUIRE(ref == &x, "the operator does not return its left operand");
  REQUIRE(x.data() == from && x.size() == plane, "the view points to something else");
  same(parent.data(), parent.size(), model, "viewed raster");
  same(other.data(), other.size(), otherModel, "right operand");
}

/// Out-of-place operators on views should leave the viewed elements alone.
template <typename T>
void viewOperands(pbt::Gen& g) {
  const auto op = g.draw(2);
  std::vector<T> v(g.count(1, 20)), w(v.size());
  for (auto& e : v) {
    e = Values<T>::nonzero(g);
  }
  for (auto& e : w) {
    e = Values<T>::nonzero(g);
  }
  const auto oldV = v, oldW = w;
  const PtrRaster<T, 1> x({static_cast<Index>(v.size())}, v.data());
  const PtrRaster<T, 1> y({static_cast<Index>(w.size())}, w.data());
  NOTE((op == 0 ? "x + y" : op == 1 ? "x + 1" : "-x") << " x=" << pbt::showAll(v) << " y=" << pbt::showAll(w));
  const auto z = op == 0 ? x + y : op == 1 ? x + T(1) : -x;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const T expected = op == 0 ? oldV[i] + oldW[i] : op == 1 ? oldV[i] + T(1) : -oldV[i];
    REQUIRE_EQ(z[i], expected, "result");
  }
  REQUIRE(v == oldV && w == oldW, "operands are modified");
}

} // namespace

#define RASTER_LAW(name, ...) \
  PBT_LAW(C10, name, 1) { \
    using C = __VA_ARGS__; \
    g.chance(1, 4) ? euclid<C>(g) : numeric<C>(g); \
  }
#define RASTER_INT_LAW(name, ...) \
  RASTER_LAW(name, __VA_ARGS__) \
  PBT_LAW(C10, name##_mod, .3) { \
    integral<__VA_ARGS__>(g); \
  }
#define VECTOR_LAW(name, ...) \
  PBT_LAW(C10, name, 1) { \
    numeric<__VA_ARGS__>(g); \
  }

#if PBT_PART == 0
RASTER_INT_LAW(raster_int, VecRaster<int, 2>)
#elif PBT_PART == 1
RASTER_LAW(raster_float, VecRaster<float, -1>)
#elif PBT_PART == 2
RASTER_INT_LAW(raster_char, VecRaster<unsigned char, 3>)
#elif PBT_PART == 3
RASTER_LAW(raster_aligned, AlignedRaster<double, 2>)
#elif PBT_PART == 4
PBT_LAW(C10, raster_complex, 1) {
  using C = VecRaster<std::complex<double>, 2>;
  switch (g.draw(4)) {
    case 0:
      return additive<C>(g);
    case 1:
      return multiplicative<C>(g);
    case 2:
      return euclid<C>(g);
    case 3:
      return expressions<C>(g);
    default:
      return alias<C>(g);
  }
}
#elif PBT_PART == 5
RASTER_INT_LAW(sequence_long, Sequence<long>)
#elif PBT_PART == 6
VECTOR_LAW(vector_3, Vector<long, 3>)
VECTOR_LAW(vector_variable, Vector<double, -1>)
#elif PBT_PART == 7
PBT_LAW(C10, raster_short, 1) {
  using C = VecRaster<short, 1>;
  g.coin() ? integral<C>(g) : numeric<C>(g);
}
PBT_LAW(C10, vector_mod, .3) {
  integral<Vector<long, 2>>(g);
}
PBT_LAW(C10, views, .6) {
  switch (g.draw(2)) {
    case 0:
      return views<PtrRaster<int, 2>, int>(g);
    case 1:
      return views<PtrRaster<double, 2>, double>(g);
    default:
      return views<AlignedRaster<int, 2>, int>(g);
  }
}
/// Known findings, replayed only.
PBT_LAW(C10, view_operands, 0) {
  viewOperands<int>(g);
}
#endif
