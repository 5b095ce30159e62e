// C32: the transforms agree with each other, whichever path is used.
#include "nd.h"

#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"

using namespace Litl;

namespace {

template <typename T, Index N>
Raster<T, N> image(pbt::Gen& g, const nd::Pos& shape, long min = -9, long max = 9) {
  Raster<T, N> out(nd::to<N>(shape));
  for (auto& e : out) {
    e = nd::pixel<T>(g, min, max);
  }
  return out;
}

long modulo(long i, long n) {
  return ((i % n) + n) % n;
}

template <Index N>
Position<N> wrap(const nd::Pos& p, const nd::Pos& shape) {
  Position<N> out(N);
  for (std::size_t i = 0; i < p.size(); ++i) {
    out[i] = modulo(p[i], shape[i]);
  }
  return out;
}

nd::Pos plus(nd::Pos a, const nd::Pos& b, long sign = 1) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += sign * b[i];
  }
  return a;
}

/// Circular translation.
template <typename T, Index N>
Raster<T, N> translate(const Raster<T, N>& in, const nd::Pos& shift) {
  const auto shape = nd::from(in.shape());
  Raster<T, N> out(in.shape());
  for (const auto& p : nd::domain(shape)) {
    out[wrap<N>(plus(p, shift), shape)] = in[nd::to<N>(p)];
  }
  return out;
}

template <typename TA, typename TB>
void close(const TA& got, const TB& expected, double tolerance, const char* what) {
  REQUIRE(nd::from(got.shape()) == nd::from(expected.shape()), what << ": shape is " << pbt::showAll(got.shape()));
  for (std::size_t i = 0; i < got.size(); ++i) {
    REQUIRE(
        std::abs(got.data()[i] - expected.data()[i]) <= tolerance,
        what << ": at index " << i << ": " << pbt::show(got.data()[i]) << " instead of " << pbt::show(expected.data()[i]));
  }
}

template <Index N>
nd::Pos bigShape(pbt::Gen& g, long size) {
  return nd::shape(g, N, g.chance(1, 12) ? 8 * size : size, 1, false);
}

template <Index N>
struct Filter {
  explicit Filter(pbt::Gen& g, long size = 12) :
      shape(nd::shape(g, N, size, 1, false)), origin(nd::inShape(g, shape)), values(image<double, N>(g, shape, -6, 6)),
      kernel(kernelize(values, nd::to<N>(origin))) {}
  nd::Pos shape, origin;
  Raster<double, N> values;
  Kernel<double, N> kernel;
};

// Correlation with periodic boundaries is a product in the Fourier domain.
template <Index N>
void spectral(pbt::Gen& g) {
  const auto shape = bigShape<N>(g, 80);
  const auto in = image<double, N>(g, shape);
  const Filter<N> f(g);
  NOTE("shape=" << nd::str(shape) << " kernel " << nd::str(f.shape) << " with origin " << nd::str(f.origin) << ": " << pbt::showAll(f.values)
                << " in=" << pbt::showAll(in));
  g.nontrivial(in.size() > 1 && f.values.size() > 1);
  g.label(in.size() > 100 ? "large" : "small");
  const auto spatial = f.kernel * extrapolate<Periodic>(in);
  Raster<double, N> response(in.shape());
  for (const auto& q : nd::domain(f.shape)) {
    response[wrap<N>(plus(q, f.origin, -1), shape)] += f.values[nd::to<N>(q)];
  }
  const double tolerance = 1e-9 * (1 + 200. * f.values.size() * std::log2(in.size() + 1.));
  {
    RealDft<N> dft(in.shape()), dftResponse(in.shape());
    auto inverse = dft.inverse(); // Planning overwrites the buffers
    std::copy(in.begin(), in.end(), dft.in().begin());
    std::copy(response.begin(), response.end(), dftResponse.in().begin());
    dft.transform();
    dftResponse.transform();
    for (std::size_t i = 0; i < dft.out().size(); ++i) {
      dft.out()[i] *= std::conj(dftResponse.out()[i]);
    }
    inverse.transform().normalize();
    close(inverse.out(), spatial, tolerance, "real DFT");
  }
  {
    ComplexDft<N> dft(in.shape()), dftResponse(in.shape());
    auto inverse = dft.inverse(); // Planning overwrites the buffers
    std::copy(in.begin(), in.end(), dft.in().begin());
    std::copy(response.begin(), response.end(), dftResponse.in().begin());
    dft.transform();
    dftResponse.transform();
    dftResponse.out().apply([](auto e) {
      return std::conj(e);
    });
    dft.out() *= std::complex<double>(2);
    dft.out().apply(
        [](auto a, auto b) {
          return a * b;
        },
        dftResponse.out());
    inverse.transform().normalize();
    close(real(inverse.out()), spatial * 2., 2 * tolerance, "complex DFT");
  }
  // The sum of the output is the product of the sums
  const double sumIn = std::accumulate(in.begin(), in.end(), 0.);
  const double sumKernel = std::accumulate(f.values.begin(), f.values.end(), 0.);
  const double sum = std::accumulate(spatial.begin(), spatial.end(), 0.);
  REQUIRE(std::abs(sum - sumIn * sumKernel) < tolerance * in.size(), "sum of the output is " << sum << " instead of " << sumIn * sumKernel);
}

// Periodic filters commute with translations; linear ones are linear; medians commute with monotone functions.
template <Index N>
void equivariance(pbt::Gen& g) {
  const auto shape = bigShape<N>(g, 60);
  const auto a = image<double, N>(g, shape), b = image<double, N>(g, shape);
  nd::Pos shift(N);
  for (auto& e : shift) {
    e = g.z(-9, 9);
  }
  const Filter<N> f(g);
  NOTE("shape=" << nd::str(shape) << " shift=" << nd::str(shift) << " kernel " << nd::str(f.shape) << " with origin " << nd::str(f.origin)
                << ": " << pbt::showAll(f.values) << " a=" << pbt::showAll(a) << " b=" << pbt::showAll(b));
  g.nontrivial(a.size() > 1 && f.values.size() > 1);
  const auto shifted = translate(a, shift);
  const auto ka = f.kernel * extrapolate<Periodic>(a);
  // Values are multiples of 1/4: sums are exact
  close(f.kernel * extrapolate<Periodic>(shifted), translate(ka, shift), 0, "kernel correlation of the translated input");
  const double x = g.z(-4, 4), y = g.z(-4, 4);
  const auto combination = a * x + b * y;
  close(f.kernel * extrapolate<Periodic>(combination), ka * x + (f.kernel * extrapolate<Periodic>(b)) * y, 0, "periodic correlation of the combination");
  close(
      f.kernel * extrapolate<NearestNeighbor>(combination),
      (f.kernel * extrapolate<NearestNeighbor>(a)) * x + (f.kernel * extrapolate<NearestNeighbor>(b)) * y,
      0,
      "correlation of the combination");
  MedianFilter<double, N> median(f.kernel.window());
  const auto ma = median.apply(extrapolate<Periodic>(a));
  close(median.apply(extrapolate<Periodic>(shifted)), translate(ma, shift), 0, "median of the translated input");
  if (f.values.size() % 2 == 1) {
    const auto monotone = [](double e) {
      return e < 0 ? 2 * e : e * e * e;
    };
    auto c = a;
    auto mc = ma;
    c.apply(monotone);
    mc.apply(monotone);
    close(median.apply(extrapolate<Periodic>(c)), mc, 0, "median of the transformed input");
  }
  // A filter of the whole domain and of parts of it
  Raster<double, N> parts(a.shape());
  const Index cut = g.i(0, shape[N - 1]);
  if (cut > 0) {
    auto box = a.domain();
    auto back = box.back();
    back[N - 1] = cut - 1;
    median.applyTo(extrapolate<Periodic>(a), parts, Box<N>(box.front(), back));
  }
  if (cut < shape[N - 1]) {
    auto box = a.domain();
    auto front = box.front();
    front[N - 1] = cut;
    median.applyTo(extrapolate<Periodic>(a), parts, Box<N>(front, box.back()));
  }
  close(parts, ma, 0, "median by parts");
}

/// Permutation and flips of the axes.
template <Index N>
struct Symmetry {
  Symmetry(pbt::Gen& g) : axes(N), flips(N) {
    std::iota(axes.begin(), axes.end(), 0);
    for (Index i = N - 1; i > 0; --i) {
      std::swap(axes[i], axes[g.i(0, i)]);
    }
    for (Index i = 0; i < N; ++i) {
      flips[i] = g.coin();
    }
  }
  nd::Pos shape(const nd::Pos& s) const {
    nd::Pos out(N);
    for (Index i = 0; i < N; ++i) {
      out[i] = s[axes[i]];
    }
    return out;
  }
  template <typename TPos>
  TPos position(const TPos& p, const nd::Pos& s) const {
    TPos out(p);
    for (Index i = 0; i < N; ++i) {
      const auto a = axes[i];
      out[i] = flips[i] ? s[a] - 1 - p[a] : p[a];
    }
    return out;
  }
  template <typename T>
  Raster<T, N> raster(const Raster<T, N>& in) const {
    const auto s = nd::from(in.shape());
    Raster<T, N> out(nd::to<N>(shape(s)));
    for (const auto& p : nd::domain(s)) {
      out[nd::to<N>(position(p, s))] = in[nd::to<N>(p)];
    }
    return out;
  }
  nd::Pos axes;
  std::vector<bool> flips;
};

template <Index N>
void symmetry(pbt::Gen& g) {
  const auto shape = bigShape<N>(g, 60);
  const auto a = image<double, N>(g, shape);
  const Filter<N> f(g);
  const Symmetry<N> s(g);
  const double value = g.z(-3, 3);
  NOTE("shape=" << nd::str(shape) << " kernel " << nd::str(f.shape) << " with origin " << nd::str(f.origin) << ": " << pbt::showAll(f.values)
                << " axes=" << pbt::showAll(s.axes) << " flips=" << pbt::showAll(s.flips) << " value=" << value << " a=" << pbt::showAll(a));
  g.nontrivial(a.size() > 1 && f.values.size() > 1);
  const auto b = s.raster(a);
  const auto kernelValues = s.raster(f.values);
  const auto kernel = kernelize(kernelValues, nd::to<N>(s.position(f.origin, f.shape)));
  close(kernel * extrapolate<Periodic>(b), s.raster(f.kernel * extrapolate<Periodic>(a)), 0, "periodic correlation");
  close(kernel * extrapolate<NearestNeighbor>(b), s.raster(f.kernel * extrapolate<NearestNeighbor>(a)), 0, "correlation");
  close(kernel * extrapolate(b, value), s.raster(f.kernel * extrapolate(a, value)), 0, "correlation with a constant");
  MedianFilter<double, N> ma(f.kernel.window()), mb(kernel.window());
  close(mb.apply(extrapolate<NearestNeighbor>(b)), s.raster(ma.apply(extrapolate<NearestNeighbor>(a))), 0, "median");
  // Interpolation
  const auto pa = extrapolate<Periodic>(a), pb = extrapolate<Periodic>(b);
  const auto na = extrapolate<NearestNeighbor>(a), nb = extrapolate<NearestNeighbor>(b);
  const auto lpa = interpolate<Linear>(pa), lpb = interpolate<Linear>(pb);
  const auto lna = interpolate<Linear>(na), lnb = interpolate<Linear>(nb);
  const auto cpa = interpolate<Cubic>(pa), cpb = interpolate<Cubic>(pb);
  const auto cna = interpolate<Cubic>(na), cnb = interpolate<Cubic>(nb);
  for (int k = 0; k < 4; ++k) {
    Vector<double, N> x;
    for (Index i = 0; i < N; ++i) {
      x[i] = g.z(-40, 16 * shape[i]) / 16.;
    }
    const auto y = s.position(x, shape);
    const auto check = [&](double got, double expected, const char* what) {
      REQUIRE(std::abs(got - expected) < 1e-9, what << " at " << pbt::showAll(y) << ": " << got << " instead of " << expected << " at " << pbt::showAll(x));
    };
    check(lpb(y), lpa(x), "periodic linear interpolation");
    check(lnb(y), lna(x), "linear interpolation");
    check(cpb(y), cpa(x), "periodic cubic interpolation");
    check(cnb(y), cna(x), "cubic interpolation");
  }
}

/// Separable kernels, along other axes.
void separableSymmetry(pbt::Gen& g) {
  const auto shape = bigShape<3>(g, 60);
  const auto in = image<int, 3>(g, shape);
  std::vector<std::vector<int>> k(2);
  std::vector<long> origin(2);
  for (int i = 0; i < 2; ++i) {
    k[i].resize(g.size(1, 6));
    for (auto& e : k[i]) {
      e = g.z(-4, 4);
    }
    origin[i] = g.i(0, k[i].size() - 1);
  }
  const Symmetry<3> s(g);
  NOTE("shape=" << nd::str(shape) << " kernels " << pbt::showAll(k[0]) << " " << pbt::showAll(k[1]) << " origins " << pbt::showAll(origin)
                << " axes=" << pbt::showAll(s.axes) << " flips=" << pbt::showAll(s.flips) << " in=" << pbt::showAll(in));
  g.nontrivial(k[0].size() > 1 && k[1].size() > 1 && in.size() > 1);
  const LineKernel<int> x(k[0], origin[0]), y(k[1], origin[1]);
  const auto expected = s.raster((x.along<0>() * y.along<2>()) * in);
  // The same filter of the other raster
  const auto line = [&](int i, Index axis) {
    return s.flips[axis] ? LineKernel<int>(std::vector<int>(k[i].rbegin(), k[i].rend()), k[i].size() - 1 - origin[i]) : LineKernel<int>(k[i], origin[i]);
  };
  Index i0 = 0, i2 = 0;
  for (Index i = 0; i < 3; ++i) {
    i0 = s.axes[i] == 0 ? i : i0;
    i2 = s.axes[i] == 2 ? i : i2;
  }
  const auto b = s.raster(in);
  const auto along = [](const LineKernel<int>& l, Index axis, const Raster<int, 3>& r) {
    return axis == 0 ? l.along<0>() * r : axis == 1 ? l.along<1>() * r : l.along<2>() * r;
  };
  close(along(line(0, i0), i0, along(line(1, i2), i2, b)), expected, 0, "separable kernel");
  const auto along1d = [](const Kernel1d<int>& l, Index axis, const Raster<int, 3>& r) {
    return axis == 0 ? l.correlateAlong<0>(r) : axis == 1 ? l.correlateAlong<1>(r) : l.correlateAlong<2>(r);
  };
  const auto line1d = [&](int i, Index axis) {
    return s.flips[axis] ? Kernel1d<int>(std::vector<int>(k[i].rbegin(), k[i].rend()), k[i].size() - 1 - origin[i]) : Kernel1d<int>(k[i], origin[i]);
  };
  close(along1d(line1d(1, i2), i2, along1d(line1d(0, i0), i0, b)), expected, 0, "1D kernels");
}

/// Weights of an interpolation at fractional offset d.
std::vector<double> weights(bool cubic, double d) {
  if (!cubic) {
    return {1 - d, d};
  }
  return {
      .5 * (-d + 2 * d * d - d * d * d),
      1 + .5 * (-5 * d * d + 3 * d * d * d),
      .5 * (d + 4 * d * d - 3 * d * d * d),
      .5 * (-d * d + d * d * d)};
}

// Interpolating at a constant offset is a correlation with the weights.
template <typename T, Index N, typename TMethod>
void subpixel(pbt::Gen& g, bool cubic) {
  const auto shape = bigShape<N>(g, 60);
  const auto in = image<T, N>(g, shape);
  std::vector<std::vector<double>> w(N);
  Vector<double, N> offset(N);
  nd::Pos integer(N), kernelShape(N), origin(N);
  for (Index i = 0; i < N; ++i) {
    const double d = g.i(0, 15) / 16.;
    integer[i] = g.z(-5, 5);
    offset[i] = integer[i] + d;
    w[i] = weights(cubic, d);
    kernelShape[i] = w[i].size();
    origin[i] = cubic ? 1 : 0;
  }
  NOTE((cubic ? "cubic" : "linear") << " shape=" << nd::str(shape) << " offset=" << pbt::showAll(offset) << " in=" << pbt::showAll(in));
  g.nontrivial(in.size() > 1);
  Raster<double, N> values(nd::to<N>(kernelShape));
  for (const auto& q : nd::domain(kernelShape)) {
    double product = 1;
    for (Index i = 0; i < N; ++i) {
      product *= w[i][q[i]];
    }
    values[nd::to<N>(q)] = product;
  }
  nd::Pos back = integer;
  for (auto& e : back) {
    e = -e;
  }
  const auto kernel = kernelize(values, nd::to<N>(origin));
  const Raster<double, N> real(in.shape(), in);
  const auto expected = translate(kernel * extrapolate<Periodic>(real), back);
  const auto source = extrapolate<Periodic>(in);
  const auto interpolator = interpolate<TMethod>(source);
  Raster<double, N> got(in.shape());
  for (const auto& p : got.domain()) {
    got[p] = interpolator(Vector<double, N>(p) + offset);
  }
  close(got, expected, 1e-9, "interpolation");
}

// Separable filters are successive 1D ones, in any order, and the 1D kernels of both kinds agree.
void separable(pbt::Gen& g) {
  const auto shape = bigShape<2>(g, 80);
  const auto in = image<int, 2>(g, shape);
  std::vector<std::vector<int>> k(2);
  std::vector<long> origin(2);
  for (int i = 0; i < 2; ++i) {
    k[i].resize(g.size(1, 6));
    for (auto& e : k[i]) {
      e = g.z(-4, 4);
    }
    origin[i] = g.i(0, k[i].size() - 1);
  }
  NOTE("shape=" << nd::str(shape) << " kernels " << pbt::showAll(k[0]) << " " << pbt::showAll(k[1]) << " origins " << pbt::showAll(origin)
                << " in=" << pbt::showAll(in));
  g.nontrivial(k[0].size() > 1 && k[1].size() > 1);
  const LineKernel<int> x(k[0], origin[0]), y(k[1], origin[1]);
  const auto xy = (y.along<1>()) * ((x.along<0>()) * in);
  const auto yx = (x.along<0>()) * ((y.along<1>()) * in);
  close(yx, xy, 0, "order of the axes");
  close((x.along<0>() * y.along<1>()) * in, xy, 0, "separable kernel");
  // As a 2D kernel
  Raster<int, 2> product({static_cast<Index>(k[0].size()), static_cast<Index>(k[1].size())});
  for (const auto& p : product.domain()) {
    product[p] = k[0][p[0]] * k[1][p[1]];
  }
  close(kernelize(product, {origin[0], origin[1]}) * extrapolate(in, 0), xy, 0, "2D kernel");
  // As 1D kernels
  const Kernel1d<int> x1(k[0], origin[0]), y1(k[1], origin[1]);
  close(y1.correlateAlong<1>(x1.correlateAlong<0>(in)), xy, 0, "1D kernels");
  Kernel1d<int> both(k[0], origin[0]);
  Raster<int, 2> out(in.shape());
  both.correlate2dTo(in, out);
  close(x1.correlateAlong<1>(x1.correlateAlong<0>(in)), out, 0, "same 1D kernel along both axes");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C32, spectral, 1) {
  switch (g.draw(2)) {
    case 0:
      return spectral<1>(g);
    case 1:
      return spectral<2>(g);
    default:
      return spectral<3>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C32, equivariance, 1) {
  switch (g.draw(2)) {
    case 0:
      return equivariance<1>(g);
    case 1:
      return equivariance<2>(g);
    default:
      return equivariance<3>(g);
  }
}
#elif PBT_PART == 2
PBT_LAW(C32, subpixel, 1) {
  switch (g.draw(5)) {
    case 0:
      return subpixel<double, 1, Linear>(g, false);
    case 1:
      return subpixel<int, 2, Linear>(g, false);
    case 2:
      return subpixel<double, 3, Linear>(g, false);
    case 3:
      return subpixel<int, 1, Cubic>(g, true);
    case 4:
      return subpixel<double, 2, Cubic>(g, true);
    default:
      return subpixel<double, 3, Cubic>(g, true);
  }
}
#elif PBT_PART == 3
PBT_LAW(C32, separable, 1) {
  separable(g);
}
PBT_LAW(C32, separable_symmetry, 1) {
  separableSymmetry(g);
}
#else
PBT_LAW(C32, symmetry, 1) {
  switch (g.draw(2)) {
    case 0:
      return symmetry<1>(g);
    case 1:
      return symmetry<2>(g);
    default:
      return symmetry<3>(g);
  }
}
#endif
