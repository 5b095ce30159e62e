// C12: fillers (fill, range, linspace, generate, apply) and extrema of containers.
#include "nd.h"

#include "LitlContainer/Sequence.h"

#include <list>

using namespace Litl;

namespace {

template <typename C>
struct Maker;

template <typename T, Index N, typename H>
struct Maker<Raster<T, N, H>> {
  using Value = T;
  nd::Pos shape;
  explicit Maker(pbt::Gen& g, long min) : shape(min ? nd::shape(g, nd::dim(g, N), 300) : nd::shapeOrEmpty(g, nd::dim(g, N), 300)) {}
  std::size_t size() const {
    return nd::size(shape);
  }
  Raster<T, N, H> operator()() const {
    return Raster<T, N, H>(nd::to<N>(shape));
  }
};

template <typename T, typename H>
struct Maker<Sequence<T, H>> {
  using Value = T;
  std::size_t n;
  explicit Maker(pbt::Gen& g, long min) : n(g.chance(1, 20) ? g.size(min, 3000) : g.count(min, 60)) {}
  std::size_t size() const {
    return n;
  }
  Sequence<T, H> operator()() const {
    return Sequence<T, H>(n);
  }
};

template <typename T, Index N>
struct Maker<Vector<T, N>> {
  using Value = T;
  std::size_t n;
  explicit Maker(pbt::Gen& g, long min) : n(N == -1 ? g.size(min, 10) : N) {}
  std::size_t size() const {
    return n;
  }
  Vector<T, N> operator()() const {
    Vector<T, N> out(static_cast<T>(n));
    out.fill(T(0));
    return out;
  }
};

template <typename T>
T value(pbt::Gen& g, long m) {
  if (std::is_floating_point<T>::value) {
    return static_cast<T>(g.real(m));
  }
  if (sizeof(T) == 1) {
    m = std::min(m, 60L);
  }
  return static_cast<T>(std::is_unsigned<T>::value ? g.i(0, m) : g.small(m));
}

template <typename C, typename T>
void same(const C& c, const std::vector<T>& expected, const char* what) {
  REQUIRE_EQ(static_cast<std::size_t>(c.size()), expected.size(), what << ": size");
  for (std::size_t i = 0; i < expected.size(); ++i) {
    REQUIRE(c.data()[i] == expected[i], what << ": element " << i << " is " << pbt::show(c.data()[i]) << " instead of " << pbt::show(expected[i]));
  }
}

template <typename C>
void fillers(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Maker<C> make(g, 0);
  const auto n = make.size();
  C c = make();
  std::vector<T> init(n);
  for (auto& e : init) {
    e = value<T>(g, 100);
  }
  std::copy(init.begin(), init.end(), c.begin());
  std::vector<T> expected(n);
  T a = value<T>(g, 1000);
  T step = std::is_floating_point<T>::value ? value<T>(g, 10) : sizeof(T) == 1 ? T(0) : value<T>(g, 100);
  if (std::is_integral<T>::value && sizeof(T) == 8 && g.chance(1, 3)) { // Not representable in floating point
    const long m = (1L << 62) / static_cast<long>(n + 1) / 2;
    a = static_cast<T>(std::is_unsigned<T>::value ? g.i(0, 1L << 61) : g.z(-(1L << 61), 1L << 61));
    step = static_cast<T>(g.i(0, m));
    g.label("big");
  }
  g.nontrivial(n > 1);
  const auto mode = g.draw(5);
  NOTE("n=" << n << " mode=" << mode << " a=" << pbt::show(a) << " step=" << pbt::show(step) << " init=" << pbt::showAll(init));
  C* ref = nullptr;
  switch (mode) {
    case 0:
      std::fill(expected.begin(), expected.end(), a);
      ref = &c.fill(a);
      break;
    case 1: {
      T v = a;
      for (auto& e : expected) {
        e = v;
        v += step;
      }
      ref = &c.range(a, step);
      break;
    }
    case 2: {
      // default step
      if (sizeof(T) == 1) {
        return;
      }
      T v = a;
      for (auto& e : expected) {
        e = v;
        v += T(1);
      }
      ref = &c.range(a);
      break;
    }
    case 3: {
      // from 0
      T v = T(0);
      for (auto& e : expected) {
        e = v;
        v = static_cast<T>(v + T(1));
      }
      ref = &c.range();
      break;
    }
    case 4: {
      // filled with one of its elements
      if (n == 0) {
        return;
      }
      const auto k = g.i(0, n - 1);
      std::fill(expected.begin(), expected.end(), init[k]);
      ref = &c.fill(c.data()[k]);
      break;
    }
    default: {
      // range defined by elements of the container
      if (n == 0 || sizeof(T) == 1) {
        return;
      }
      const auto k = g.i(0, n - 1);
      const auto l = g.i(0, n - 1);
      NOTE("k=" << k << " l=" << l);
      T v = init[k];
      for (auto& e : expected) {
        e = v;
        v += init[l];
      }
      ref = &c.range(c.data()[k], c.data()[l]);
    }
  }
  REQUIRE(ref == &c, "the filler does not return its object");
  same(c, expected, mode == 0 || mode == 4 ? "fill" : "range");
}

/// Expected linspace element, and tolerance.
template <typename T>
std::enable_if_t<std::is_floating_point<T>::value> checkLinspace(const T* got, std::size_t n, T min, T max) {
  for (std::size_t i = 0; i < n; ++i) {
    const long double e = i + 1 == n ? static_cast<long double>(max) : min + (static_cast<long double>(max) - min) / (n - 1) * i;
    const long double tol = i == 0 || i + 1 == n ? 0 : 4 * std::numeric_limits<T>::epsilon() * (std::abs(static_cast<long double>(min)) + std::abs(static_cast<long double>(max)));
    REQUIRE(std::abs(got[i] - e) <= tol, "linspace(" << min << "," << max << "): element " << i << " of " << n << " is " << pbt::show(got[i]) << " instead of " << pbt::show(static_cast<double>(e)));
  }
}

template <typename T>
std::enable_if_t<std::is_integral<T>::value> checkLinspace(const T* got, std::size_t n, T min, T max) {
  for (std::size_t i = 0; i < n; ++i) {
    const long e = i + 1 == n ? static_cast<long>(max) : static_cast<long>(min) + (static_cast<long>(max) - static_cast<long>(min)) / static_cast<long>(n - 1) * static_cast<long>(i);
    REQUIRE(static_cast<long>(got[i]) == e, "linspace(" << +min << "," << +max << "): element " << i << " of " << n << " is " << +got[i] << " instead of " << e);
  }
}

template <typename C>
void linspaces(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Maker<C> make(g, 0);
  const auto n = make.size();
  C c = make();
  std::vector<T> init(n);
  for (auto& e : init) {
    e = value<T>(g, 100);
  }
  std::copy(init.begin(), init.end(), c.begin());
  T a = value<T>(g, g.coin() ? 10 : 100000);
  T b = value<T>(g, g.coin() ? 10 : 100000);
  if (std::is_integral<T>::value && sizeof(T) == 8 && g.chance(1, 3)) { // Not representable in floating point
    a = static_cast<T>(std::is_unsigned<T>::value ? g.i(0, 1L << 61) : g.z(-(1L << 61), 1L << 61));
    b = static_cast<T>(std::is_unsigned<T>::value ? g.i(0, 1L << 61) : g.z(-(1L << 61), 1L << 61));
    g.label("big");
  }
  const bool decreasing = std::is_signed<T>::value;
  if (!decreasing && a > b) {
    std::swap(a, b);
  }
  const bool alias = n > 1 && g.chance(1, 4);
  long k = 0, l = 0;
  if (alias) {
    k = g.i(0, n - 1);
    l = g.i(0, n - 1);
    a = init[k];
    b = init[l];
    if (!decreasing && a > b) {
      std::swap(a, b);
      std::swap(k, l);
    }
  }
  g.nontrivial(n > 2 && a != b);
  NOTE("n=" << n << " min=" << pbt::show(a) << " max=" << pbt::show(b) << (alias ? " elements " : " ") << k << " " << l);
  C& ref = alias ? c.linspace(c.data()[k], c.data()[l]) : c.linspace(a, b);
  REQUIRE(&ref == &c, "linspace does not return its object");
  REQUIRE_EQ(static_cast<std::size_t>(c.size()), n, "linspace: size");
  checkLinspace<T>(c.data(), n, a, b);
  if (n > 1 && g.chance(1, 8)) {
    c.linspace();
    checkLinspace<T>(c.data(), n, T(0), T(1));
  }
}

template <typename C>
void functions(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Maker<C> make(g, 0);
  const auto n = make.size();
  C c = make();
  std::vector<T> v(n);
  std::vector<int> w(n + g.i(0, 3));
  std::list<unsigned char> l;
  for (auto& e : v) {
    e = value<T>(g, 50);
  }
  for (auto& e : w) {
    e = static_cast<int>(g.i(0, 20));
  }
  for (std::size_t i = 0; i < n; ++i) {
    l.push_back(static_cast<unsigned char>(g.i(0, 20)));
  }
  const std::vector<long> u(l.begin(), l.end());
  std::copy(v.begin(), v.end(), c.begin());
  std::vector<T> expected(n);
  std::size_t calls = 0;
  const auto mode = g.draw(7);
  NOTE("n=" << n << " mode=" << mode << " v=" << pbt::showAll(v) << " w=" << pbt::showAll(w));
  g.nontrivial(n > 1);
  C* ref = nullptr;
  switch (mode) {
    case 0:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(i * 3 % 100);
      }
      ref = &c.generate([&] {
        return static_cast<T>(calls++ * 3 % 100);
      });
      break;
    case 1:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(w[i] * 2);
      }
      ref = &c.generate(
          [&](auto e) {
            ++calls;
            return e * 2;
          },
          w);
      break;
    case 2:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(w[i] + 2 * u[i]);
      }
      ref = &c.generate(
          [&](int e, unsigned char f) {
            ++calls;
            return e + 2 * f;
          },
          w,
          l);
      break;
    case 3:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(v[i] + T(i % 7));
      }
      ref = &c.apply([&](auto e) {
        return e + T(calls++ % 7);
      });
      break;
    case 4:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(v[i] + w[i]);
      }
      ref = &c.apply(
          [&](auto e, auto f) {
            ++calls;
            return e + f;
          },
          w);
      break;
    case 5:
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(v[i] + w[i] + 3 * u[i]);
      }
      ref = &c.apply(
          [&](auto e, auto f, auto h) {
            ++calls;
            return e + f + 3 * h;
          },
          w,
          l);
      break;
    case 6:
      // input is itself
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(v[i] + v[i] / T(2));
      }
      ref = &c.apply(
          [&](auto e, auto f) {
            ++calls;
            return e + f / T(2);
          },
          c);
      break;
    default: {
      // three inputs
      for (std::size_t i = 0; i < n; ++i) {
        expected[i] = static_cast<T>(w[i] + 3 * u[i] - u[i]);
      }
      ref = &c.generate(
          [&](auto e, auto f, auto h) {
            ++calls;
            return e + 3 * f - h;
          },
          w,
          l,
          u);
    }
  }
  REQUIRE(ref == &c, "generate/apply does not return its object");
  REQUIRE_EQ(calls, n, "number of calls of the function");
  same(c, expected, "generate/apply");
}

template <typename C>
void extrema(pbt::Gen& g) {
  using T = typename Maker<C>::Value;
  Maker<C> make(g, 1);
  const auto n = make.size();
  C c = make();
  std::vector<T> v(n);
  const long m = g.coin() ? 3 : 1000;
  for (auto& e : v) {
    e = value<T>(g, m);
  }
  std::copy(v.begin(), v.end(), c.begin());
  NOTE("v=" << pbt::showAll(v));
  g.nontrivial(n > 1);
  std::size_t lo = 0, hi = 0;
  for (std::size_t i = 1; i < n; ++i) {
    if (v[i] < v[lo]) {
      lo = i;
    }
    if (v[i] > v[hi]) {
      hi = i;
    }
  }
  const C& r = c;
  REQUIRE_EQ(r.min(), v[lo], "min");
  REQUIRE_EQ(r.max(), v[hi], "max");
  REQUIRE(&r.min() == r.data() + lo, "min() does not refer to the first min element");
  REQUIRE(&r.max() == r.data() + hi, "max() does not refer to the first max element");
  const auto both = r.minmax();
  REQUIRE_EQ(both.first, v[lo], "minmax: min");
  REQUIRE_EQ(both.second, v[hi], "minmax: max");
  REQUIRE(&both.first >= r.data() && &both.first < r.data() + n && &both.second >= r.data() && &both.second < r.data() + n, "minmax() does not refer to elements");
  REQUIRE_EQ(r.front(), v.front(), "front");
  REQUIRE_EQ(r.back(), v.back(), "back");
  REQUIRE(&c.front() == c.data() && &c.back() == c.data() + n - 1, "front() or back() do not refer to elements");
  REQUIRE(c.cbegin() == c.data() && c.cend() == c.data() + n, "cbegin() or cend()");
  same(c, v, "container after the queries");
}

template <typename C>
void all(pbt::Gen& g) {
  switch (g.draw(3)) {
    case 0:
      return fillers<C>(g);
    case 1:
      return linspaces<C>(g);
    case 2:
      return functions<C>(g);
    default:
      return extrema<C>(g);
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C12, raster_double, 1) {
  all<VecRaster<double, 2>>(g);
}
#elif PBT_PART == 1
PBT_LAW(C12, raster_int, 1) {
  all<VecRaster<int, -1>>(g);
}
#elif PBT_PART == 2
PBT_LAW(C12, raster_char, 1) {
  all<AlignedRaster<unsigned char, 3>>(g);
}
#elif PBT_PART == 3
PBT_LAW(C12, sequence_float, 1) {
  all<Sequence<float>>(g);
}
#elif PBT_PART == 4
PBT_LAW(C12, sequence_long, 1) {
  all<Sequence<long>>(g);
}
#elif PBT_PART == 5
PBT_LAW(C12, sequence_unsigned, 1) {
  all<Sequence<unsigned int, StdHolder<std::valarray<unsigned int>>>>(g);
}
#elif PBT_PART == 6
PBT_LAW(C12, vector_long, 1) {
  all<Vector<long, 4>>(g);
}
#else
PBT_LAW(C12, vector_double, 1) {
  all<Vector<double, -1>>(g);
}
#endif
