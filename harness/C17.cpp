// C17: interpolation agrees with the separable weighted sum of the neighbors, in any dimension and with any extrapolation.
#include "nd.h"

#include <complex>

#include "LitlTransforms/Interpolation.h"

using namespace Litl;

namespace {

enum Boundary { None, Constant, Nearest, Wrap };

template <typename T>
struct Case {
  nd::Pos shape;
  std::vector<T> values;
  Boundary boundary;
  T constant;
  std::vector<double> pos;

  /// Magnitude of the values, for tolerances.
  double scale() const {
    double out = 100;
    for (const auto& v : values) {
      out = std::max(out, std::abs(static_cast<double>(v)));
    }
    return out / 100;
  }
  long double at(nd::Pos p) const {
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (p[i] >= 0 && p[i] < shape[i]) {
        continue;
      }
      switch (boundary) {
        case None:
          pbt::failStream() << "harness: out of bounds";
          pbt::raise(nullptr);
        case Constant:
          return constant;
        case Nearest:
          p[i] = std::min(std::max(p[i], 0L), shape[i] - 1);
          break;
        case Wrap:
          p[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
    }
    return values[nd::offset(shape, p)];
  }

  /// Separable weighted sum: weights[i][k] applies at floor(pos[i]) + first + k.
  long double sum(long first, long count, long double (*weight)(long, long double)) const {
    const auto n = shape.size();
    nd::Pos lo(n), hi(n), base(n);
    std::vector<long double> d(n);
    for (std::size_t i = 0; i < n; ++i) {
      base[i] = static_cast<long>(std::floor(pos[i]));
      d[i] = pos[i] - base[i];
      lo[i] = first;
      hi[i] = first + count - 1;
    }
    long double out = 0;
    for (const auto& k : nd::positions(lo, hi)) {
      long double w = 1;
      auto p = base;
      for (std::size_t i = 0; i < n; ++i) {
        w *= weight(k[i], d[i]);
        p[i] += k[i];
      }
      if (w != 0) {
        out += w * at(p);
      }
    }
    return out;
  }
};

long double linearWeight(long k, long double d) {
  return k == 0 ? 1 - d : d;
}

/// Catmull-Rom.
long double cubicWeight(long k, long double d) {
  switch (k) {
    case -1:
      return (-d + 2 * d * d - d * d * d) / 2;
    case 0:
      return (2 - 5 * d * d + 3 * d * d * d) / 2;
    case 1:
      return (d + 4 * d * d - 3 * d * d * d) / 2;
    default:
      return (-d * d + d * d * d) / 2;
  }
}

template <typename T>
Case<T> genCase(pbt::Gen& g, std::size_t n, long minLength, Boundary boundary, long before, long after) {
  Case<T> c;
  c.shape = nd::shape(g, n, boundary == None && n > 3 ? std::pow(minLength, n) : 300, boundary == None ? minLength : 1);
  c.values.resize(nd::size(c.shape));
  const bool wild = g.coin();
  const bool large = !std::is_same<T, unsigned char>::value && !std::is_same<T, float>::value && g.chance(1, 6);
  for (std::size_t i = 0; i < c.values.size(); ++i) {
    c.values[i] = large ? static_cast<T>(g.z(-1000000000, 1000000000)) : wild ? static_cast<T>(g.z(std::is_unsigned<T>::value ? 0 : -100, 100)) : static_cast<T>((i * 7) % 101);
  }
  c.boundary = boundary;
  c.constant = static_cast<T>(g.i(0, 60));
  bool between = false;
  const bool far = boundary != None && g.chance(1, 10);
  for (std::size_t i = 0; i < n; ++i) {
    double lo = -4, hi = c.shape[i] + 3;
    if (boundary == None) {
      // floor(pos) - before and floor(pos) + after are in bounds
      lo = before;
      hi = minLength == 1 ? c.shape[i] - 1. : c.shape[i] - after - 1. / 64;
    }
    double x = 0;
    switch (g.draw(4)) {
      case 4: // Very close to a pixel
        x = std::floor(lo + (hi - lo) * g.i(0, 64) / 64.) + (g.coin() ? 1 : -1) * std::ldexp(1., -static_cast<int>(g.i(3, 36)));
        break;
      case 0:
        x = std::floor(lo + (hi - lo) * g.i(0, 64) / 64.);
        break;
      case 1:
        x = std::floor(lo + (hi - lo) * g.i(0, 64) / 64.) + g.pick<double>({.25, .5, .75, .125});
        break;
      default:
        x = lo + (hi - lo) * g.i(0, 1 << 20) / static_cast<double>(1 << 20);
    }
    x = std::min(std::max(x, lo), hi);
    if (far) { // Still exactly representable
      x = std::floor(x) + g.i(0, 63) / 64. + static_cast<double>(g.z(-(1L << 40), 1L << 40));
    }
    between = between || x != std::floor(x);
    c.pos.push_back(x);
  }
  g.nontrivial(between);
  NOTE("shape=" << nd::str(c.shape) << " boundary=" << boundary << " constant=" << +c.constant << " position=" << pbt::showAll(c.pos));
  return c;
}

/// The nearest pixel, or any of them if several.
template <typename T>
bool isNearest(const Case<T>& c, long double got) {
  nd::Pos lo(c.pos.size()), hi(c.pos.size());
  for (std::size_t i = 0; i < c.pos.size(); ++i) {
    lo[i] = static_cast<long>(std::ceil(c.pos[i] - .5));
    hi[i] = static_cast<long>(std::floor(c.pos[i] + .5));
  }
  for (const auto& p : nd::positions(lo, hi)) {
    bool inside = true;
    for (std::size_t i = 0; i < p.size(); ++i) {
      inside = inside && p[i] >= 0 && p[i] < c.shape[i];
    }
    if (!inside && c.boundary == None) {
      continue;
    }
    if (c.at(p) == got) {
      return true;
    }
  }
  return false;
}

template <typename TMethod>
struct Method;
template <>
struct Method<NearestNeighbor> {
  static constexpr long before = 0, after = 1, minLength = 1;
};
template <>
struct Method<Linear> {
  static constexpr long before = 0, after = 1, minLength = 2;
};
template <>
struct Method<Cubic> {
  static constexpr long before = 1, after = 2, minLength = 4;
};

template <typename T>
void result(const Case<T>& c, double got, NearestNeighbor) {
  REQUIRE(isNearest(c, got), "nearest neighbor interpolation is " << got);
}
template <typename T>
void result(const Case<T>& c, double got, Linear) {
  const double e = static_cast<double>(c.sum(0, 2, &linearWeight));
  const double tol = std::is_same<T, float>::value ? 2e-3 : 1e-9;
  REQUIRE(std::abs(got - e) <= tol * c.scale(), "linear interpolation is " << got << " instead of " << e);
}
template <typename T>
void result(const Case<T>& c, double got, Cubic) {
  const double e = static_cast<double>(c.sum(-1, 4, &cubicWeight));
  const double tol = std::is_same<T, float>::value ? 2e-2 : 1e-8;
  REQUIRE(std::abs(got - e) <= tol * c.scale(), "cubic interpolation is " << got << " instead of " << e);
}

template <typename TMethod, typename T, Index N, typename TIn>
void run(pbt::Gen& g, const Case<T>& c, const TIn& in, const VecRaster<T, N>& raster) {
  const auto inter = interpolate<TMethod>(in);
  REQUIRE(&inter.raster() == &raster, "raster() is not the decorated raster");
  REQUIRE(nd::from(inter.shape()) == c.shape, "shape()");
  REQUIRE(nd::from(inter.domain().shape()) == c.shape, "domain()");
  Vector<double, N> pos(static_cast<double>(c.pos.size()));
  std::copy(c.pos.begin(), c.pos.end(), pos.begin());
  result(c, inter(pos), TMethod());
  // integral position
  nd::Pos p;
  for (std::size_t i = 0; i < c.pos.size(); ++i) {
    p.push_back(static_cast<long>(std::floor(c.pos[i])));
    if (c.boundary == None) {
      p[i] = std::min(p[i], c.shape[i] - 1);
    }
  }
  REQUIRE_EQ(static_cast<long double>(inter[nd::to<N>(p)]), c.at(p), "operator[] at " << nd::str(p));
  // interpolation at an integral position is the value of the pixel
  bool near = true;
  for (std::size_t i = 0; i < p.size(); ++i) {
    near = near && (c.boundary != None || (p[i] >= Method<TMethod>::before && p[i] + Method<TMethod>::after < c.shape[i]));
    pos[i] = p[i];
  }
  if (near) {
    const double tol = std::is_same<TMethod, NearestNeighbor>::value ? 0 : std::is_same<T, float>::value ? 1e-4 : 1e-10 * c.scale();
    REQUIRE(std::abs(inter(pos) - c.at(p)) <= tol, "interpolation at integral position " << nd::str(p) << " is " << inter(pos) << " instead of " << static_cast<double>(c.at(p)));
  }
}

template <typename TMethod, typename T, Index N>
void law(pbt::Gen& g) {
  const auto boundary = static_cast<Boundary>(g.draw(3));
  using M = Method<TMethod>;
  const auto c = genCase<T>(g, nd::dim(g, N), M::minLength, boundary, M::before, M::after);
  const VecRaster<T, N> raster(nd::to<N>(c.shape), c.values);
  switch (boundary) {
    case None:
      return run<TMethod, T, N>(g, c, raster, raster);
    case Constant: {
      const auto extra = extrapolate(raster, c.constant);
      return run<TMethod, T, N>(g, c, extra, raster);
    }
    case Nearest: {
      const auto extra = extrapolate(raster);
      return run<TMethod, T, N>(g, c, extra, raster);
    }
    case Wrap: {
      const auto extra = extrapolate<Periodic>(raster);
      return run<TMethod, T, N>(g, c, extra, raster);
    }
  }
}

/// The components of complex values are interpolated independently.
template <typename TMethod, Index N>
void complexLaw(pbt::Gen& g) {
  const auto shape = nd::shape(g, N, 60);
  Raster<std::complex<double>, N> z(nd::to<N>(shape));
  for (auto& e : z) {
    e = {static_cast<double>(g.z(-50, 50)), static_cast<double>(g.z(-50, 50))};
  }
  Vector<double, N> pos;
  for (Index i = 0; i < N; ++i) {
    pos[i] = g.z(-64, 16 * shape[i] + 64) / 16.;
  }
  NOTE("shape=" << nd::str(shape) << " position " << pbt::showAll(pos) << " values " << pbt::showAll(z));
  g.nontrivial(z.size() > 1);
  Raster<double, N> re(z.shape()), im(z.shape());
  for (std::size_t i = 0; i < z.size(); ++i) {
    re[i] = z[i].real();
    im[i] = z[i].imag();
  }
  const auto ez = extrapolate<Periodic>(z);
  const auto ere = extrapolate<Periodic>(re), eim = extrapolate<Periodic>(im);
  const std::complex<double> got = interpolate<TMethod>(ez)(pos);
  const std::complex<double> expected(interpolate<TMethod>(ere)(pos), interpolate<TMethod>(eim)(pos));
  REQUIRE(std::abs(got - expected) < 1e-9, "complex interpolation is " << got << " instead of " << expected);
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C17, nearest, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<NearestNeighbor, int, 1>(g);
    case 1:
      return law<NearestNeighbor, int, 2>(g);
    case 2:
      return law<NearestNeighbor, double, 3>(g);
    default:
      return law<NearestNeighbor, float, -1>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C17, linear_1_2, 1) {
  g.coin() ? law<Linear, int, 1>(g) : law<Linear, double, 2>(g);
}
#elif PBT_PART == 2
PBT_LAW(C17, linear_3_4, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<Linear, unsigned char, 3>(g);
    case 1:
      return law<Linear, float, 4>(g);
    case 2:
      return law<Linear, double, 5>(g);
    default:
      return g.coin() ? complexLaw<Linear, 2>(g) : complexLaw<NearestNeighbor, 3>(g);
  }
}
#elif PBT_PART == 3
PBT_LAW(C17, cubic_1_2, 1) {
  g.coin() ? law<Cubic, int, 1>(g) : law<Cubic, double, 2>(g);
}
#else
PBT_LAW(C17, cubic_3, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<Cubic, float, 3>(g);
    case 1:
      return law<Cubic, unsigned char, 3>(g);
    case 2:
      return law<Cubic, long, 3>(g);
    default:
      return law<Cubic, double, 4>(g);
  }
}
#endif
