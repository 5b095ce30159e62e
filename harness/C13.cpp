// C13: estimators of data distributions agree with their definitions, in any order of queries.
#include "nd.h"

#include "LitlContainer/Sequence.h"

using namespace Litl;

namespace {

template <typename T>
std::vector<T> genValues(pbt::Gen& g, long min) {
  if (g.chance(1, 5000)) {
    std::vector<T> many(g.i(min, 200000));
    auto state = g.draw(~0ull);
    const auto period = g.i(1, 250);
    for (auto& v : many) {
      state = state * 6364136223846793005ull + 1442695040888963407ull;
      v = static_cast<T>((state >> 33) % period);
    }
    return many;
  }
  const long n = g.chance(1, 30) ? g.i(min, 2000) : g.size(min, 40);
  std::vector<T> out(n);
  const auto kind = g.draw(4);
  for (auto& v : out) {
    if (std::is_floating_point<T>::value) {
      v = static_cast<T>(kind == 0 ? g.z(-3, 3) : kind == 1 ? g.real(1) : g.real(1000));
    } else {
      const long m = sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 30000 : 1000000;
      const long top = kind == 0 ? 3 : kind == 1 ? 20 : m;
      v = static_cast<T>(std::is_unsigned<T>::value ? g.i(0, std::numeric_limits<T>::max() == 255 && kind > 1 ? 255 : top) : g.z(-top, top));
    }
  }
  if (kind == 2 && std::is_floating_point<T>::value) { // Large mean with respect to the deviation
    const T offset = static_cast<T>(sizeof(T) == 4 ? 1 << 14 : 1L << 40);
    for (auto& v : out) {
      v = offset + static_cast<T>(std::floor(v)) / 64;
    }
  }
  if (kind == 4 && g.coin()) {
    std::sort(out.begin(), out.end());
  }
  return out;
}

struct Model {
  std::vector<long double> sorted;
  long double scale = 1;
  long double sum() const {
    long double s = 0;
    for (auto v : sorted) {
      s += v;
    }
    return s;
  }
  long double mean() const {
    return sum() / sorted.size();
  }
  long double variance(bool unbiased) const {
    const auto m = mean();
    long double s = 0;
    for (auto v : sorted) {
      s += (v - m) * (v - m);
    }
    return s / (sorted.size() - (unbiased ? 1 : 0));
  }
  long double quantile(double q) const {
    const long double n = static_cast<long double>(q) * (sorted.size() - 1);
    const auto f = static_cast<std::size_t>(n);
    if (f + 1 >= sorted.size()) {
      return sorted.back();
    }
    return sorted[f] + (sorted[f + 1] - sorted[f]) * (n - f);
  }
  long double mad() const {
    const auto m = quantile(.5);
    Model d;
    for (auto v : sorted) {
      d.sorted.push_back(std::abs(v - m));
    }
    std::sort(d.sorted.begin(), d.sorted.end());
    return d.quantile(.5);
  }
};

template <typename T>
void close(T got, long double expected, long double tol, const char* what, double arg = 0) {
  REQUIRE(std::abs(static_cast<long double>(got) - expected) <= tol, what << "(" << arg << ") is " << pbt::show(got) << " instead of " << pbt::show(static_cast<double>(expected)));
}

template <typename T>
void queries(pbt::Gen& g, DataDistribution<T>& d, const std::vector<T>& values) {
  using F = typename DataDistribution<T>::Floating;
  static_assert(std::is_floating_point<F>::value, "estimators are floating point numbers");
  static_assert(std::is_same<decltype(d.mean()), F>::value && std::is_same<decltype(d.quantile(.1)), F>::value, "estimators are floating point numbers");
  Model m;
  bool sumFits = true;
  for (auto v : values) {
    m.sorted.push_back(v);
    m.scale = std::max<long double>(m.scale, std::abs(static_cast<long double>(v)));
  }
  std::sort(m.sorted.begin(), m.sorted.end());
  sumFits = std::is_floating_point<T>::value || (m.sum() >= std::numeric_limits<T>::lowest() && m.sum() <= std::numeric_limits<T>::max());
  const auto n = values.size();
  const long double eps = std::numeric_limits<F>::epsilon();
  const int count = static_cast<int>(g.i(1, 8));
  for (int k = 0; k < count; ++k) {
    switch (g.draw(10)) {
      case 0:
        NOTE("min");
        REQUIRE_EQ(static_cast<long double>(d.min()), m.sorted.front(), "min()");
        break;
      case 1:
        NOTE("max");
        REQUIRE_EQ(static_cast<long double>(d.max()), m.sorted.back(), "max()");
        break;
      case 2: {
        const auto i = g.i(0, n - 1);
        NOTE("nth " << i);
        REQUIRE_EQ(static_cast<long double>(d.nth(i)), m.sorted[i], "nth(" << i << ")");
        break;
      }
      case 3:
        NOTE("size, sum");
        REQUIRE_EQ(static_cast<std::size_t>(d.size()), n, "size()");
        if (sumFits) {
          close(d.sum(), m.sum(), std::is_floating_point<T>::value ? 4 * eps * m.scale * n * n : 0, "sum");
        }
        break;
      case 4:
        NOTE("mean");
        close(d.mean(), m.mean(), 4 * eps * m.scale * n, "mean");
        break;
      case 5: {
        const bool unbiased = n > 1 && g.coin();
        NOTE("variance " << unbiased);
        // The error on the mean is that of a sum; centering first, it has no first order impact
        const auto shift = 2 * eps * m.scale * n;
        const auto tol = 8 * eps * (n + 4) * m.variance(unbiased) + 8 * shift * shift;
        close(d.variance(unbiased), m.variance(unbiased), tol, "variance", unbiased);
        if (unbiased) {
          close(d.variance(), m.variance(true), tol, "variance");
        }
        break;
      }
      case 6:
        NOTE("median");
        close(d.median(), m.quantile(.5), 8 * eps * m.scale, "median");
        break;
      case 7: {
        double q = g.coin() ? g.i(0, 100) / 100. : n > 1 ? g.i(0, n - 1) / static_cast<double>(n - 1) : 0.;
        if (g.chance(1, 4)) { // Just below or above
          const double shift = std::ldexp(1., -static_cast<int>(g.i(1, 30))) / std::max<double>(1, n - 1.);
          q = std::min(1., std::max(0., g.coin() ? q + shift : q - shift));
        } else if (g.chance(1, 3)) { // Anything
          q = g.i(0, 1L << 40) / static_cast<double>(1L << 40);
        }
        NOTE("quantile " << q);
        close(d.quantile(q), m.quantile(q), 8 * (eps + 4 * n * std::numeric_limits<double>::epsilon()) * m.scale, "quantile", q);
        break;
      }
      case 8:
        NOTE("mad");
        close(d.mad(), m.mad(), 16 * eps * m.scale, "mad");
        break;
      case 9:
        NOTE("sort");
        if (g.chance(1, 3)) {
          d.sort();
        }
        break;
      default:
        NOTE("extreme quantiles");
        close(d.quantile(0), m.sorted.front(), 0, "quantile", 0);
        close(d.quantile(1), m.sorted.back(), 0, "quantile", 1);
    }
  }
}

template <typename T>
void law(pbt::Gen& g) {
  const auto values = genValues<T>(g, 1);
  NOTE("values=" << (values.size() > 2000 ? std::to_string(values.size()) + " values from " + pbt::show(values[0]) : pbt::showAll(values)));
  g.nontrivial(values.size() > 2);
  switch (g.draw(2)) {
    case 0: {
      VecRaster<T, 1> raster({static_cast<long>(values.size())}, values);
      auto d = raster.distribution();
      // the distribution does not depend on the raster any more, and the raster is not modified
      REQUIRE(std::equal(values.begin(), values.end(), raster.begin()), "distribution() modifies the raster");
      raster.fill(T(1));
      return queries(g, d, values);
    }
    case 1: {
      const Sequence<T> seq(values);
      auto d = seq.distribution();
      queries(g, d, values);
      REQUIRE(std::equal(values.begin(), values.end(), seq.begin()), "the estimators modify the container");
      return;
    }
    default: {
      auto copy = values;
      DataDistribution<T> d(std::move(copy));
      return queries(g, d, values);
    }
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C13, distribution_double, 1) {
  law<double>(g);
}
#elif PBT_PART == 1
PBT_LAW(C13, distribution_int, 1) {
  law<int>(g);
}
#elif PBT_PART == 2
PBT_LAW(C13, distribution_float, 1) {
  law<float>(g);
}
#elif PBT_PART == 3
PBT_LAW(C13, distribution_uchar, 1) {
  law<unsigned char>(g);
}
#elif PBT_PART == 4
PBT_LAW(C13, distribution_long, 1) {
  law<long>(g);
}
#else
PBT_LAW(C13, distribution_ushort, 1) {
  law<unsigned short>(g);
}
#endif
