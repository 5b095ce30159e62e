// C15: random noise generators: range, reproducibility, additivity, robustness, moments and frequencies.
#include "nd.h"

#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"

using namespace Litl;

// Clock under control, as the default seed is the current time.
extern long c15Now;
#if PBT_PART == 0
long c15Now = 0;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(++c15Now));
}
} // namespace _V2
} // namespace chrono
} // namespace std
#endif

namespace {

std::size_t genSeed(pbt::Gen& g) {
  if (g.chance(1, 5)) { // Only -1, as 64 bits, stands for the current time
    return g.pick<std::size_t>(
        {1UL << 31,
         (1UL << 31) - 1,
         (1UL << 32) - 1,
         1UL << 32,
         1UL << 63,
         (1UL << 63) - 1,
         std::size_t(-2),
         std::size_t(-1) << 32,
         std::size_t(-1) << 16,
         65535,
         255});
  }
  return g.coin() ? g.i(0, 10) : g.i(0, 1L << 40);
}

template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value, bool> within(T v, T lo, T hi) {
  return v >= lo && v <= hi;
}
template <typename S>
bool within(std::complex<S> v, std::complex<S> lo, std::complex<S> hi) {
  return within(v.real(), lo.real(), hi.real()) && within(v.imag(), lo.imag(), hi.imag());
}

template <typename T>
struct Value {
  static T any(pbt::Gen& g, long m) {
    if (std::is_floating_point<T>::value) {
      return static_cast<T>(g.real(m));
    }
    m = sizeof(T) == 1 ? std::min(m, 50L) : m;
    return static_cast<T>(std::is_unsigned<T>::value ? g.i(0, m) : g.z(-m, m));
  }
  static T positive(pbt::Gen& g, long m) {
    return static_cast<T>(g.i(1, m)) / (std::is_floating_point<T>::value ? 4 : 1);
  }
};
template <typename S>
struct Value<std::complex<S>> {
  static std::complex<S> any(pbt::Gen& g, long m) {
    const S re = Value<S>::any(g, m);
    return {re, Value<S>::any(g, m)};
  }
  static std::complex<S> positive(pbt::Gen& g, long m) {
    const S re = Value<S>::positive(g, m);
    return {re, Value<S>::positive(g, m)};
  }
};

/// Generators made with the same seed yield the same values; noise is additive and does not depend on the input.
template <typename T, typename TMake>
void additive(pbt::Gen& g, TMake&& make) {
  const long n = g.count(1, 30);
  std::vector<T> in(n), other;
  for (auto& e : in) {
    e = Value<T>::any(g, 50);
  }
  other = in;
  const auto k = g.i(0, n - 1);
  other[k] = Value<T>::any(g, 50);
  NOTE("in=" << pbt::showAll(in) << " changed " << k);
  g.nontrivial(n > 1);
  // generate
  Sequence<T> values(n), again(n);
  auto a = make();
  auto b = make();
  values.generate(a);
  again.generate(b);
  REQUIRE(values == again, "generators with the same seed give different values");
  // generate in two steps
  if (n > 1) {
    auto c = make();
    const auto first = g.i(1, n - 1);
    for (long i = 0; i < first; ++i) {
      c();
    }
    REQUIRE(c() == values[first], "the values depend on the way they are drawn");
  }
  // apply
  Sequence<T> noisy(in), noisyOther(other);
  auto d = make();
  auto e = make();
  noisy.apply(d);
  noisyOther.apply(e);
  for (long i = 0; i < n; ++i) {
    REQUIRE(noisy[i] == static_cast<T>(in[i] + values[i]), "noise is not the sum of the input and of the generated value at index " << i);
    REQUIRE(i == k || noisy[i] == noisyOther[i], "the noise at index " << i << " depends on the input at index " << k);
  }
}

/// Once reset, a distribution does not depend on the values drawn before.
template <typename T>
void reset(pbt::Gen& g) {
  const auto seed = genSeed(g);
  const int before = g.i(0, 5), after = g.i(1, 6);
  NOTE("seed=" << seed << ": reset after " << before << " values, then " << after << " values");
  g.nontrivial(before > 0);
  ComplexDistribution<T, std::normal_distribution<double>> used(T(1), T(2)), fresh(T(1), T(2));
  std::mt19937 engine(seed);
  for (int i = 0; i < before; ++i) {
    used(engine);
  }
  used.reset();
  auto other = engine;
  for (int i = 0; i < after; ++i) {
    REQUIRE(used(engine) == fresh(other), "value " << i << " after reset()");
  }
}

template <typename T>
void uniform(pbt::Gen& g) {
  auto lo = Value<T>::any(g, 60);
  auto hi = lo + Value<T>::positive(g, 60);
  const auto seed = genSeed(g);
  NOTE("uniform " << pbt::show(lo) << "-" << pbt::show(hi) << " seed=" << seed);
  additive<T>(g, [&] {
    return UniformNoise<T>(lo, hi, seed);
  });
  UniformNoise<T> noise(lo, hi, seed);
  for (int i = 0; i < 100; ++i) {
    const auto v = noise();
    REQUIRE(within<>(v, static_cast<T>(lo), static_cast<T>(hi)), "value " << pbt::show(v) << " is out of range");
  }
}

template <typename T>
void gaussian(pbt::Gen& g) {
  const auto mean = Value<T>::any(g, 60);
  const auto stdev = Value<T>::positive(g, 20);
  const auto seed = genSeed(g);
  NOTE("gaussian " << pbt::show(mean) << " " << pbt::show(stdev) << " seed=" << seed);
  additive<T>(g, [&] {
    return GaussianNoise<T>(mean, stdev, seed);
  });
}

template <typename T>
void poisson(pbt::Gen& g) {
  const long mean = g.i(0, 40);
  const auto seed = genSeed(g);
  const long n = g.count(1, 30);
  std::vector<T> in(n);
  for (auto& e : in) {
    e = static_cast<T>(g.chance(1, 4) ? 0 : g.chance(1, 6) ? g.i(0, 10000) : g.i(0, 60));
  }
  auto other = in;
  const auto k = g.i(0, n - 1);
  other[k] = static_cast<T>(g.i(0, 1000));
  NOTE("poisson " << mean << " seed=" << seed << " in=" << pbt::showAll(in) << " changed " << k);
  g.nontrivial(n > 1);
  // generation
  Sequence<T> a(n), b(n), c(n);
  a.generate(PoissonNoise<T>(static_cast<T>(mean), seed));
  b.generate(PoissonNoise<T>(static_cast<T>(mean), seed));
  c.generate(StablePoissonNoise<T>(static_cast<T>(mean), seed));
  REQUIRE(a == b, "Poisson generators with the same seed give different values");
  REQUIRE(a == c, "Poisson and stable Poisson generators with the same seed generate different values");
  for (auto v : a) {
    REQUIRE(v >= 0 && v == std::floor(static_cast<double>(v)), "Poisson value " << v << " is not a natural number");
    REQUIRE(mean > 0 || v == 0, "Poisson value of null mean is " << v);
  }
  // shot noise
  Sequence<T> s(in), t(in), u(other), p(in), q(in);
  s.apply(StablePoissonNoise<T>(static_cast<T>(mean), seed));
  t.apply(StablePoissonNoise<T>(static_cast<T>(mean), seed));
  u.apply(StablePoissonNoise<T>(static_cast<T>(mean), seed));
  p.apply(PoissonNoise<T>(static_cast<T>(mean), seed));
  q.apply(PoissonNoise<T>(static_cast<T>(mean), seed));
  REQUIRE(s == t, "stable shot noises with the same seed differ");
  REQUIRE(p == q, "shot noises with the same seed differ");
  for (long i = 0; i < n; ++i) {
    REQUIRE(i == k || s[i] == u[i], "stable shot noise at index " << i << " depends on the input at index " << k);
    REQUIRE(s[i] >= 0 && s[i] == std::floor(static_cast<double>(s[i])), "shot noise " << s[i] << " is not a natural number");
    REQUIRE(p[i] >= 0 && p[i] == std::floor(static_cast<double>(p[i])), "shot noise " << p[i] << " is not a natural number");
    REQUIRE(in[i] > 0 || (s[i] == 0 && p[i] == 0), "shot noise of 0 is " << s[i] << ", " << p[i]);
    // 12 sigmas
    const double tol = 12 * std::sqrt(static_cast<double>(in[i])) + 20;
    REQUIRE(std::abs(static_cast<double>(s[i]) - in[i]) < tol, "stable shot noise of " << in[i] << " is " << s[i]);
    REQUIRE(std::abs(static_cast<double>(p[i]) - in[i]) < tol, "shot noise of " << in[i] << " is " << p[i]);
  }
}

/// Sample mean and variance within 8 standard errors, adjacent values uncorrelated.
void moments(const std::vector<double>& v, double mean, double variance, double kurtosis, const char* what) {
  const double n = v.size();
  double m = 0, s = 0, c = 0;
  for (auto e : v) {
    m += e / n;
  }
  for (auto e : v) {
    s += (e - mean) * (e - mean) / n;
  }
  for (std::size_t i = 1; i < v.size(); ++i) {
    c += (v[i] - mean) * (v[i - 1] - mean) / n;
  }
  REQUIRE(std::abs(m - mean) <= 9 * std::sqrt(variance / n), what << ": sample mean is " << m << " instead of " << mean);
  REQUIRE(std::abs(s - variance) <= 9 * variance * std::sqrt((kurtosis - 1) / n), what << ": sample variance is " << s << " instead of " << variance);
  REQUIRE(std::abs(c) <= 9 * variance / std::sqrt(n), what << ": sample covariance of adjacent values is " << c);
}

constexpr int samples = 3000;

template <typename T, typename TNoise>
std::vector<double> draw(TNoise&& noise, bool apply, T in) {
  Raster<T> raster({60, samples / 60});
  raster.fill(in);
  if (apply) {
    raster.apply(noise);
  } else {
    raster.generate(noise);
  }
  std::vector<double> out(raster.begin(), raster.end());
  if (apply) {
    for (auto& e : out) {
      e -= in;
    }
  }
  return out;
}

template <typename T>
void uniformMoments(pbt::Gen& g) {
  const T lo = Value<T>::any(g, 60);
  const T hi = lo + Value<T>::positive(g, 40);
  const auto seed = genSeed(g);
  const bool apply = g.coin();
  NOTE("uniform " << pbt::show(lo) << "-" << pbt::show(hi) << " seed=" << seed << " apply=" << apply);
  g.nontrivial();
  const auto v = draw<T>(UniformNoise<T>(lo, hi, seed), apply, T(7));
  const double width = static_cast<double>(hi) - lo + (std::is_integral<T>::value ? 1 : 0);
  const double variance = std::is_integral<T>::value ? (width * width - 1) / 12 : width * width / 12;
  moments(v, (static_cast<double>(lo) + hi) / 2, variance, 3, "uniform noise");
  if (std::is_integral<T>::value && width <= 20) {
    // frequency of each value
    for (long k = static_cast<long>(lo); k <= static_cast<long>(hi); ++k) {
      const double f = std::count(v.begin(), v.end(), k) / static_cast<double>(samples);
      REQUIRE(std::abs(f - 1 / width) <= 9 * std::sqrt(1 / width / samples), "frequency of " << k << " is " << f << " instead of " << 1 / width);
    }
  }
}

template <typename T>
void gaussianMoments(pbt::Gen& g) {
  const T mean = Value<T>::any(g, 60);
  const T stdev = Value<T>::positive(g, 40) + (std::is_integral<T>::value ? 10 : 0);
  const auto seed = genSeed(g);
  const bool apply = g.coin();
  NOTE("gaussian " << pbt::show(mean) << " " << pbt::show(stdev) << " seed=" << seed << " apply=" << apply);
  g.nontrivial();
  const auto v = draw<T>(GaussianNoise<T>(mean, stdev, seed), apply, T(7));
  if (std::is_integral<T>::value) {
    // truncated: only a loose check
    double m = 0;
    for (auto e : v) {
      m += e / samples;
    }
    REQUIRE(std::abs(m - mean) < 9. * stdev / std::sqrt(samples) + 1, "gaussian noise: sample mean is " << m << " instead of " << +mean);
    double s = 0;
    for (auto e : v) {
      s += (e - mean) * (e - mean) / samples;
    }
    REQUIRE(std::abs(std::sqrt(s) - stdev) < .15 * stdev + 1, "gaussian noise: sample standard deviation is " << std::sqrt(s) << " instead of " << +stdev);
    return;
  }
  moments(v, mean, static_cast<double>(stdev) * stdev, 3, "gaussian noise");
  // quantiles: P(|x - mean| < stdev) = .6827
  double in = 0;
  for (auto e : v) {
    in += std::abs(e - mean) < stdev;
  }
  REQUIRE(std::abs(in / samples - .6827) < 9 * std::sqrt(.6827 * .3173 / samples), "gaussian noise: " << in / samples << " of the values are within one standard deviation");
}

template <typename T>
void poissonMoments(pbt::Gen& g) {
  const long mean = g.i(2, g.coin() ? 10 : 200);
  const auto seed = genSeed(g);
  const auto mode = g.draw(3);
  NOTE("poisson " << mean << " seed=" << seed << " mode=" << mode);
  g.nontrivial();
  std::vector<double> v;
  const T t = static_cast<T>(mean);
  switch (mode) {
    case 0:
      v = draw<T>(PoissonNoise<T>(t, seed), false, T(0));
      break;
    case 1:
      v = draw<T>(StablePoissonNoise<T>(t, seed), false, T(0));
      break;
    case 2:
      v = draw<T>(PoissonNoise<T>(T(5), seed), true, t);
      break;
    default:
      v = draw<T>(StablePoissonNoise<T>(T(5), seed), true, t);
  }
  moments(v, mode >= 2 ? 0 : mean, mean, 3 + 1. / mean, "Poisson noise");
}

template <typename T>
void impulse(pbt::Gen& g) {
  const auto seed = genSeed(g);
  const int n = static_cast<int>(g.chance(1, 4) ? g.i(1, 12) : g.i(1, 4)); // Distinct values, even as char
  std::map<T, double> p;
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    const double q = g.i(0, 20) / 20. / (g.coin() ? 1 : n);
    p[static_cast<T>(10 * (i + 1) + g.i(0, 9))] = q;
    sum += q;
  }
  const auto mode = n <= 2 ? g.draw(2) : 0;
  NOTE("impulse n=" << n << " sum=" << sum << " seed=" << seed << " mode=" << mode);
  if (sum == 0 || std::abs(sum - 1) < 1e-6) {
    // numerically fragile
    p.begin()->second = sum == 0 ? .5 : p.begin()->second;
    sum = sum == 0 ? .5 : sum;
  }
  g.nontrivial(n > 1);
  const T in = static_cast<T>(3);
  std::vector<double> v, again;
  const auto noise = [&]() -> ImpulseNoise<T> {
    if (mode == 1 && n == 1) {
      return ImpulseNoise<T>(p.begin()->first, p.begin()->second, seed);
    }
    if (mode == 2 && n == 2) {
      return ImpulseNoise<T>::saltAndPepper(p.begin()->second, p.rbegin()->second, p.begin()->first, p.rbegin()->first, seed);
    }
    return ImpulseNoise<T>(p, seed);
  };
  Raster<T> raster({60, samples / 60}), twin({60, samples / 60});
  raster.fill(in);
  twin.fill(in);
  raster.apply(noise());
  twin.apply(noise());
  REQUIRE(raster == twin, "impulse noises with the same seed differ");
  const double norm = std::max(1., sum);
  std::map<T, double> expected;
  for (const auto& e : p) {
    expected[e.first] = e.second / norm;
  }
  if (sum < 1) {
    expected[in] = 1 - sum;
  }
  std::map<T, double> got;
  for (auto e : raster) {
    got[e] += 1. / samples;
  }
  for (const auto& e : got) {
    REQUIRE(expected.count(e.first), "value " << +e.first << " is neither the input nor an impulse");
  }
  for (const auto& e : expected) {
    const double f = got[e.first];
    // The probability of a null event may differ from 0 because of rounding
    REQUIRE(e.second > 1e-6 || f == 0, "impossible value " << +e.first << " occurs");
    REQUIRE(std::abs(f - e.second) <= 9 * std::sqrt(e.second * (1 - e.second) / samples) + 2. / samples, "frequency of " << +e.first << " is " << f << " instead of " << e.second);
  }
}

template <typename T>
void saltAndPepperDefault(pbt::Gen& g) {
  const double a = g.i(0, 10) / 20., b = g.i(0, 9) / 20.;
  c15Now = g.i(0, 1000000);
  NOTE("salt " << a << " pepper " << b);
  g.nontrivial();
  Sequence<T> s(500);
  s.fill(T(5));
  s.apply(ImpulseNoise<T>::saltAndPepper(a, b));
  long hi = 0, lo = 0;
  for (auto e : s) {
    REQUIRE(e == T(5) || e == std::numeric_limits<T>::max() || e == std::numeric_limits<T>::lowest(), "value " << +e << " is neither salt, pepper nor the input");
    hi += e == std::numeric_limits<T>::max();
    lo += e == std::numeric_limits<T>::lowest();
  }
  REQUIRE(std::abs(hi / 500. - a) <= 10 * std::sqrt(a * (1 - a) / 500), "frequency of salt is " << hi / 500.);
  REQUIRE(std::abs(lo / 500. - b) <= 10 * std::sqrt(b * (1 - b) / 500), "frequency of pepper is " << lo / 500.);
}

/// Different seeds, or the current time at different times, yield different and uncorrelated values.
template <typename TMake>
void seeds(pbt::Gen& g, TMake&& make) {
  const long a = g.coin() ? g.i(0, 10) : g.i(0, 1L << 31);
  long b = g.coin() ? g.i(0, 10) : g.i(0, 1L << 31);
  b = a == b ? a + 1 : b;
  const bool time = g.chance(1, 4);
  c15Now = a;
  NOTE("seeds " << (time ? -1 : a) << " " << (time ? -1 : b));
  g.nontrivial();
  Sequence<double> x(100), y(100), z(100);
  x.generate(make(time ? -1 : a));
  c15Now = time ? b : c15Now;
  y.generate(make(time ? -1 : b));
  REQUIRE(x != y, "generators with different seeds give the same values");
  auto noise = make(a);
  y.generate(noise);
  for (auto& e : z) {
    e = noise();
  }
  REQUIRE(y != z, "a generator repeats itself");
}

template <typename T>
void randoms(pbt::Gen& g) {
  const auto shape = nd::shape(g, 2, 200);
  NOTE("shape=" << nd::str(shape));
  g.nontrivial(nd::size(shape) > 1);
  c15Now = g.i(0, 1000000);
  const auto lo = Limits<T>::halfMin();
  const auto hi = Limits<T>::halfMax();
  const auto r = Litl::random<T>(nd::to<2>(shape));
  REQUIRE(nd::from(r.shape()) == shape, "shape of a random raster");
  for (const auto& e : r) {
    REQUIRE(within<>(e, lo, hi), "random value " << pbt::show(e) << " is out of range");
  }
  const auto s = Litl::random<T>(static_cast<std::size_t>(nd::size(shape)));
  REQUIRE_EQ(static_cast<long>(s.size()), nd::size(shape), "size of a random sequence");
  for (const auto& e : s) {
    REQUIRE(within<>(e, lo, hi), "random value " << pbt::show(e) << " is out of range");
  }
}

/// Default parameters and seeds: the current time, or 0 for the stable generator.
void defaults(pbt::Gen& g) {
  const long a = g.i(0, 1L << 40), b = a + g.i(1, 1L << 30);
  const auto mode = g.draw(6);
  NOTE("mode=" << mode << " at " << a << ", " << b);
  g.nontrivial();
  using Map = std::map<double, double>;
  Sequence<double> x(200), y(200), z(200);
  const auto draw = [&](Sequence<double>& out) {
    out.fill(3);
    switch (mode) {
      case 0:
        out.generate(UniformNoise<double>(0, 1));
        break;
      case 1:
        out.generate(GaussianNoise<double>(0, 1));
        break;
      case 2:
        out.generate(PoissonNoise<double>(100));
        break;
      case 3:
        out.apply(ImpulseNoise<double>(1, .5));
        break;
      case 4:
        out.apply(ImpulseNoise<double>(Map {{1, .3}, {2, .3}}));
        break;
      case 5:
        out.apply(ImpulseNoise<double>::saltAndPepper(.3, .3, 1, 2));
        break;
      default:
        out.generate(StablePoissonNoise<double>(100));
    }
  };
  c15Now = a;
  draw(x);
  c15Now = b;
  draw(y);
  if (mode <= 5) {
    REQUIRE(x != y, "generators made at different times give the same values");
  } else {
    REQUIRE(x == y, "stable generators are not reproducible");
    z.generate(StablePoissonNoise<double>(100, 0));
    REQUIRE(x == z, "the default seed of stable generators is not 0");
  }
  // parameters
  Sequence<double> s(300);
  s.generate(GaussianNoise<double>());
  double mean = 0, variance = 0;
  for (auto e : s) {
    mean += e / 300;
    variance += e * e / 300;
  }
  REQUIRE(std::abs(mean) < .6 && variance > .4 && variance < 2, "default gaussian noise has mean " << mean << " and variance " << variance);
  s.generate(PoissonNoise<double>());
  REQUIRE(s == Sequence<double>(300).fill(0), "default Poisson noise is not null");
  s.generate(StablePoissonNoise<double>());
  REQUIRE(s == Sequence<double>(300).fill(0), "default stable Poisson noise is not null");
  Sequence<short> u(300);
  u.generate(UniformNoise<short>());
  short low = 0, high = 0;
  for (auto e : u) {
    REQUIRE(e >= Limits<short>::halfMin() && e <= Limits<short>::halfMax(), "default uniform noise is " << e);
    low = std::min(low, e);
    high = std::max(high, e);
  }
  REQUIRE(low < Limits<short>::halfMin() * .8 && high > Limits<short>::halfMax() * .8, "default uniform noise is in " << low << "-" << high);
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C15, defaults, .1) {
  defaults(g);
}
PBT_LAW(C15, reset, .2) {
  g.coin() ? reset<std::complex<double>>(g) : reset<double>(g);
}
PBT_LAW(C15, seeds, .3) {
  switch (g.draw(3)) {
    case 0:
      return seeds(g, [](long s) {
        return UniformNoise<double>(0, 10, s);
      });
    case 1:
      return seeds(g, [](long s) {
        return GaussianNoise<double>(0, 10, s);
      });
    case 2:
      return seeds(g, [](long s) {
        return PoissonNoise<double>(100, s);
      });
    default:
      return seeds(g, [](long s) {
        return StablePoissonNoise<double>(100, s == -1 ? c15Now : s);
      });
  }
}
PBT_LAW(C15, uniform_int, 1) {
  uniform<int>(g);
}
PBT_LAW(C15, uniform_double, 1) {
  uniform<double>(g);
}
PBT_LAW(C15, uniform_uchar, 1) {
  uniform<unsigned char>(g);
}
#elif PBT_PART == 1
PBT_LAW(C15, uniform_complex, 1) {
  uniform<std::complex<float>>(g);
}
PBT_LAW(C15, gaussian_double, 1) {
  gaussian<double>(g);
}
PBT_LAW(C15, gaussian_float, 1) {
  gaussian<float>(g);
}
#elif PBT_PART == 2
PBT_LAW(C15, gaussian_int, 1) {
  gaussian<int>(g);
}
PBT_LAW(C15, gaussian_complex, 1) {
  gaussian<std::complex<double>>(g);
}
PBT_LAW(C15, poisson_int, 1) {
  poisson<int>(g);
}
#elif PBT_PART == 3
PBT_LAW(C15, poisson_double, 1) {
  poisson<double>(g);
}
PBT_LAW(C15, poisson_ushort, 1) {
  poisson<unsigned short>(g);
}
#elif PBT_PART == 4
PBT_LAW(C15, moments_uniform, 1) {
  g.coin() ? uniformMoments<int>(g) : uniformMoments<double>(g);
}
PBT_LAW(C15, moments_gaussian, 1) {
  g.coin() ? gaussianMoments<int>(g) : gaussianMoments<float>(g);
}
#elif PBT_PART == 5
PBT_LAW(C15, moments_poisson, 1) {
  g.coin() ? poissonMoments<int>(g) : poissonMoments<double>(g);
}
#elif PBT_PART == 6
/// Rare events: an impulse or an unchanged input of low probability still occurs, at the requested rate.
PBT_LAW(C15, rare_impulse, .1) {
  const auto seed = genSeed(g);
  const double rare = g.i(5, 40) / 2000.;
  const bool keep = g.coin(); // The rare event is to keep the input, or is an impulse
  const int n = static_cast<int>(g.i(1, 3));
  std::map<int, double> p;
  double left = 1 - rare;
  for (int i = 0; i < n; ++i) {
    const double q = i + 1 == n ? left : left * g.i(1, 9) / 10.;
    p[10 + i] = q;
    left -= q;
  }
  int event = 3;
  if (not keep) {
    event = 20;
    p.begin()->second /= 2; // The input may be kept
    p[event] = rare;
  }
  NOTE("rare=" << rare << " keep=" << keep << " n=" << n << " seed=" << seed);
  g.nontrivial();
  ImpulseNoise<int> noise(p, seed);
  const int count = static_cast<int>(500 / rare);
  int got = 0;
  for (int i = 0; i < count; ++i) {
    got += noise(3) == event;
  }
  // 500 events are expected; deviating by a factor of 2 has a probability below exp(-60)
  REQUIRE(got >= 250 && got <= 1000, "the rare event occurred " << got << " times out of " << count << " instead of 500");
}
PBT_LAW(C15, impulse, 1) {
  g.coin() ? impulse<int>(g) : impulse<float>(g);
}
PBT_LAW(C15, salt_and_pepper, 1) {
  g.coin() ? saltAndPepperDefault<short>(g) : saltAndPepperDefault<double>(g);
}
#else
PBT_LAW(C15, random, 1) {
  switch (g.draw(4)) {
    case 0:
      return randoms<int>(g);
    case 1:
      return randoms<float>(g);
    case 2:
      return randoms<unsigned char>(g);
    case 3:
      return randoms<std::complex<double>>(g);
    default:
      return randoms<double>(g);
  }
}
#endif
