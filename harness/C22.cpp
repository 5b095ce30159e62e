// C22: discrete Fourier transforms: values, conventions, normalization, round trips.
#include "dftref.h"

#include "LitlTransforms/Dft.h"

using namespace Litl;
using namespace dftref;

namespace {

Values signal(pbt::Gen& g, long size, bool complex) {
  Values out;
  const int mode = g.draw(3);
  const long at = g.i(0, size - 1);
  for (long i = 0; i < size; ++i) {
    switch (mode) {
      case 0: // Impulse
        out.push_back(i == at ? Complex(1, complex ? -2 : 0) : Complex(0, 0));
        break;
      default: {
        const long double re = g.z(-20, 20);
        out.push_back(Complex(re / 4, complex ? g.z(-20, 20) / 4.L : 0));
      }
    }
  }
  return out;
}

template <typename TRaster>
void fill(TRaster& raster, const Values& values) {
  REQUIRE_EQ(static_cast<long>(raster.size()), static_cast<long>(values.size()), "size of the buffer");
  for (std::size_t i = 0; i < values.size(); ++i) {
    raster.data()[i] = typename TRaster::Value(reinterpret_cast<const long double(&)[2]>(values[i])[0]);
  }
}

template <Index N>
void fill(ComplexDftBuffer<N>& raster, const Values& values) {
  REQUIRE_EQ(static_cast<long>(raster.size()), static_cast<long>(values.size()), "size of the buffer");
  for (std::size_t i = 0; i < values.size(); ++i) {
    raster.data()[i] = std::complex<double>(values[i].real(), values[i].imag());
  }
}

template <typename TRaster>
void check(const TRaster& got, const nd::Pos& shape, const Values& expected, long double scale, const char* what) {
  REQUIRE(nd::from(got.shape()) == shape, what << ": shape is " << nd::str(nd::from(got.shape())) << ", expected " << nd::str(shape));
  REQUIRE_EQ(static_cast<long>(got.size()), static_cast<long>(expected.size()), what << ": size");
  for (std::size_t i = 0; i < expected.size(); ++i) {
    REQUIRE(close(got.data()[i], expected[i], scale), what << ": at index " << i << ": got " << got.data()[i] << ", expected " << expected[i]);
  }
}

Values scaled(Values in, long double factor) {
  for (auto& e : in) {
    e *= factor;
  }
  return in;
}

template <Index N>
nd::Pos shapeOf(pbt::Gen& g) {
  return nd::shape(g, nd::dim(g, N, 5), 40);
}

template <typename TPlan>
void properties(TPlan& mutablePlan, const nd::Pos& shape, const nd::Pos& in, const nd::Pos& out) {
  const auto& plan = mutablePlan;
  REQUIRE(&plan.in() == &mutablePlan.in() && &plan.out() == &mutablePlan.out(), "read-only buffers");
  REQUIRE(nd::from(plan.logicalShape()) == shape, "logicalShape()");
  REQUIRE(nd::from(plan.inShape()) == in, "inShape()");
  REQUIRE(nd::from(plan.outShape()) == out, "outShape()");
  REQUIRE_EQ(plan.normalizationFactor(), static_cast<double>(nd::size(shape)), "normalizationFactor()");
}

/// Complex plans: direct, inverse, round trip.
template <Index N>
void complexPlan(pbt::Gen& g) {
  const auto shape = shapeOf<N>(g);
  const auto size = nd::size(shape);
  const auto x = signal(g, size, true);
  NOTE("shape=" << nd::str(shape) << " signal=" << pbt::showAll(x));
  g.nontrivial(size > 1);
  const auto direct = transform(x, shape, -1);
  const auto backward = transform(x, shape, 1);
  const auto s = scale(direct) + scale(backward);
  switch (g.draw(3)) {
    case 0: { // Direct, then inverse with shared buffers
      ComplexDft<N> dft(nd::to<N>(shape));
      auto idft = dft.inverse();
      properties(dft, shape, shape, shape);
      properties(idft, shape, shape, shape);
      fill(dft.in(), x);
      REQUIRE(&dft.transform() == &dft, "transform() does not return the plan");
      check(dft.out(), shape, direct, s, "direct transform");
      idft.transform();
      check(idft.out(), shape, scaled(x, size), size * s, "round trip without normalization");
      idft.normalize();
      check(idft.out(), shape, x, s, "round trip");
      break;
    }
    case 1: { // Inverse
      typename ComplexDft<N>::Inverse idft(nd::to<N>(shape));
      properties(idft, shape, shape, shape);
      fill(idft.in(), x);
      idft.transform();
      check(idft.out(), shape, backward, s, "inverse transform");
      REQUIRE(&idft.normalize() == &idft, "normalize() does not return the plan");
      check(idft.out(), shape, scaled(backward, 1.L / size), s, "normalized inverse transform");
      break;
    }
    case 2: { // Several transforms with a plan
      ComplexDft<N> dft(nd::to<N>(shape));
      fill(dft.in(), x);
      dft.transform();
      check(dft.out(), shape, direct, s, "direct transform");
      const auto y = signal(g, size, true);
      fill(dft.in(), y);
      dft.transform();
      const auto expected = transform(y, shape, -1);
      check(dft.out(), shape, expected, scale(expected), "second direct transform");
      break;
    }
    default: { // Composition
      ComplexDft<N> dft(nd::to<N>(shape));
      auto second = dft.template compose<ComplexDft<N>>(nd::to<N>(shape));
      fill(dft.in(), x);
      dft.transform();
      second.transform();
      check(second.out(), shape, transform(direct, shape, -1), size * s, "composition");
    }
  }
}

template <Index N>
void realPlan(pbt::Gen& g) {
  const auto shape = shapeOf<N>(g);
  const auto size = nd::size(shape);
  const auto hShape = halfShape(shape);
  const auto x = signal(g, size, false);
  NOTE("shape=" << nd::str(shape) << " signal=" << pbt::showAll(x));
  g.nontrivial(size > 1);
  g.label(shape[0] % 2 ? "odd length" : "even length");
  const auto direct = half(transform(x, shape, -1), shape);
  const auto s = scale(direct) + scale(x);
  switch (g.draw(2)) {
    case 0: {
      RealDft<N> dft(nd::to<N>(shape));
      auto idft = dft.inverse();
      properties(dft, shape, shape, hShape);
      properties(idft, shape, hShape, shape);
      fill(dft.in(), x);
      dft.transform();
      check(dft.out(), hShape, direct, s, "direct transform");
      idft.transform();
      check(idft.out(), shape, scaled(x, size), size * s, "round trip without normalization");
      idft.normalize();
      check(idft.out(), shape, x, s, "round trip");
      break;
    }
    case 1: {
      typename RealDft<N>::Inverse idft(nd::to<N>(shape));
      properties(idft, shape, hShape, shape);
      fill(idft.in(), direct);
      idft.transform().normalize();
      check(idft.out(), shape, x, s, "inverse transform");
      break;
    }
    default: {
      RealDft<N> dft(nd::to<N>(shape));
      auto second = dft.template compose<ComplexDft<N>>(dft.outShape());
      properties(second, hShape, hShape, hShape);
      fill(dft.in(), x);
      dft.transform();
      check(dft.out(), hShape, direct, s, "direct transform");
      second.transform();
      check(second.out(), hShape, transform(direct, hShape, -1), nd::size(hShape) * s, "composition");
    }
  }
}

/// One-line functions.
template <Index N>
void functions(pbt::Gen& g) {
  const auto shape = shapeOf<N>(g);
  const auto size = nd::size(shape);
  const auto hShape = halfShape(shape);
  const bool complex = g.coin();
  const auto x = signal(g, size, complex);
  NOTE("shape=" << nd::str(shape) << " complex=" << complex << " signal=" << pbt::showAll(x));
  g.nontrivial(size > 1);
  const auto direct = transform(x, shape, -1);
  const auto s = scale(direct) + scale(x);
  if (complex) {
    Raster<std::complex<double>, N> in(nd::to<N>(shape));
    for (long i = 0; i < size; ++i) {
      in.data()[i] = std::complex<double>(x[i].real(), x[i].imag());
    }
    const auto backup = in;
    const auto out = complexDft(in);
    check(out, shape, direct, s, "complexDft()");
    check(inverseComplexDft(out), shape, x, s, "inverseComplexDft() after complexDft()");
    check(out, shape, direct, s, "input of inverseComplexDft()");
    const auto inverse = inverseComplexDft(in);
    check(inverse, shape, scaled(transform(x, shape, 1), 1.L / size), s, "inverseComplexDft()");
    check(complexDft(inverse), shape, x, s, "complexDft() after inverseComplexDft()");
    REQUIRE(in == backup, "the input is modified");
  } else {
    Raster<double, N> in(nd::to<N>(shape));
    for (long i = 0; i < size; ++i) {
      in.data()[i] = x[i].real();
    }
    const auto backup = in;
    const auto out = realDft(in);
    check(out, hShape, half(direct, shape), s, "realDft()");
    check(inverseRealDft(out, nd::to<N>(shape)), shape, x, s, "inverseRealDft() after realDft()");
    check(out, hShape, half(direct, shape), s, "input of inverseRealDft()");
    check(complexDft(in), shape, direct, s, "complexDft() of real data");
    REQUIRE(in == backup, "the input is modified");
  }
}

/// Larger signals.
template <Index N>
void large(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  nd::Pos shape(n, 1);
  const long cap = n == 1 ? 300 : 600;
  for (auto& e : shape) {
    e = g.i(1, std::max(1L, std::min(n == 1 ? 300L : n == 2 ? 80L : 30L, cap / nd::size(shape))));
  }
  const auto size = nd::size(shape);
  const bool complex = g.coin();
  auto state = static_cast<std::uint32_t>(g.draw(1000));
  NOTE("shape=" << nd::str(shape) << " complex=" << complex << " seed=" << state);
  g.nontrivial(size > 40);
  g.label(size > 300 ? "more than 300 values" : "at most 300 values");
  Values x;
  auto next = [&] {
    state = state * 1664525u + 1013904223u;
    return static_cast<int>(state >> 24) / 16.L - 8;
  };
  for (long i = 0; i < size; ++i) {
    const auto re = next();
    x.push_back(Complex(re, complex ? next() : 0));
  }
  const auto direct = separableTransform(x, shape, -1);
  const auto s = scale(direct) + scale(x);
  if (complex) {
    ComplexDft<N> dft(nd::to<N>(shape));
    auto idft = dft.inverse();
    properties(dft, shape, shape, shape);
    fill(dft.in(), x);
    dft.transform();
    check(dft.out(), shape, direct, s, "direct transform");
    idft.transform().normalize();
    check(idft.out(), shape, x, s, "round trip");
    Raster<std::complex<double>, N> in(nd::to<N>(shape));
    for (long i = 0; i < size; ++i) {
      in.data()[i] = std::complex<double>(x[i].real(), x[i].imag());
    }
    check(complexDft(in), shape, direct, s, "complexDft()");
    check(inverseComplexDft(in), shape, scaled(separableTransform(x, shape, 1), 1.L / size), s, "inverseComplexDft()");
  } else {
    const auto hShape = halfShape(shape);
    RealDft<N> dft(nd::to<N>(shape));
    auto idft = dft.inverse();
    properties(dft, shape, shape, hShape);
    fill(dft.in(), x);
    dft.transform();
    check(dft.out(), hShape, half(direct, shape), s, "direct transform");
    idft.transform().normalize();
    check(idft.out(), shape, x, s, "round trip");
    Raster<double, N> in(nd::to<N>(shape));
    for (long i = 0; i < size; ++i) {
      in.data()[i] = x[i].real();
    }
    const auto out = realDft(in);
    check(out, hShape, half(direct, shape), s, "realDft()");
    check(inverseRealDft(out, nd::to<N>(shape)), shape, x, s, "inverseRealDft() after realDft()");
    check(complexDft(in), shape, direct, s, "complexDft() of real data");
  }
}

/// Transforms of more than 2^15 values: an impulse has a closed-form spectrum.
template <Index N>
void huge(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  nd::Pos shape(n, 1);
  long logSize = g.i(15, 17);
  for (std::size_t i = 0; i < n; ++i) {
    const long log = i == n - 1 ? logSize : g.i(0, logSize);
    shape[i] = 1L << log;
    logSize -= log;
  }
  if (shape[0] >= 4 && g.coin()) {
    shape[0] = shape[0] / 4 * 5; // Not a power of two
  }
  const auto size = nd::size(shape);
  nd::Pos at;
  for (auto l : shape) {
    at.push_back(g.i(0, l - 1));
  }
  const bool complex = g.coin();
  const double re = g.i(1, 20), im = complex ? g.i(-20, 20) : 0;
  fftw_set_timelimit(.02); // Measuring would be long
  NOTE("shape=" << nd::str(shape) << " complex=" << complex << " impulse of " << re << "," << im << " at " << nd::str(at));
  g.nontrivial();
  Values x(size, Complex(0, 0));
  const auto offset = nd::offset(shape, at);
  x[offset] = Complex(re, im);
  std::vector<Values> roots(n);
  for (std::size_t j = 0; j < n; ++j) {
    for (long i = 0; i < shape[j]; ++i) {
      const long double angle = 2 * 3.141592653589793238462643383279502884L * (i * at[j] % shape[j]) / shape[j];
      roots[j].push_back(Complex(cosl(angle), -sinl(angle)));
    }
  }
  const auto spectrum = [&](const nd::Pos& s, const auto& got, long double factor, bool conjugate, const char* what) {
    REQUIRE(nd::from(got.shape()) == s, what << ": shape is " << nd::str(nd::from(got.shape())));
    long i = 0;
    nd::Pos f(n, 0);
    while (true) {
      Complex e(1, 0);
      for (std::size_t j = 0; j < n; ++j) {
        e *= roots[j][f[j]];
      }
      e = (conjugate ? std::conj(e) : e) * Complex(re, im) * factor;
      REQUIRE(close(got.data()[i], e, 20 * std::max(1.L, factor)), what << ": at " << nd::str(f) << ": got " << got.data()[i] << ", expected " << e);
      ++i;
      std::size_t j = 0;
      while (j < n && ++f[j] == s[j]) {
        f[j++] = 0;
      }
      if (j == n) {
        break;
      }
    }
    REQUIRE_EQ(static_cast<long>(got.size()), i, what << ": size");
  };
  const auto hShape = halfShape(shape);
  if (complex) {
    ComplexDft<N> dft(nd::to<N>(shape));
    auto idft = dft.inverse();
    properties(dft, shape, shape, shape);
    properties(idft, shape, shape, shape);
    fill(dft.in(), x);
    dft.transform();
    spectrum(shape, dft.out(), 1, false, "direct transform");
    idft.transform().normalize();
    check(idft.out(), shape, x, 20, "round trip");
    Raster<std::complex<double>, N> in(nd::to<N>(shape));
    in.data()[offset] = std::complex<double>(re, im);
    spectrum(shape, complexDft(in), 1, false, "complexDft()");
    spectrum(shape, inverseComplexDft(in), 1.L / size, true, "inverseComplexDft()");
  } else {
    RealDft<N> dft(nd::to<N>(shape));
    auto idft = dft.inverse();
    properties(dft, shape, shape, hShape);
    properties(idft, shape, hShape, shape);
    fill(dft.in(), x);
    dft.transform();
    spectrum(hShape, dft.out(), 1, false, "direct transform");
    idft.transform().normalize();
    check(idft.out(), shape, x, 20, "round trip");
    Raster<double, N> in(nd::to<N>(shape));
    in.data()[offset] = re;
    const auto out = realDft(in);
    spectrum(hShape, out, 1, false, "realDft()");
    check(inverseRealDft(out, nd::to<N>(shape)), shape, x, 20, "inverseRealDft() after realDft()");
    spectrum(shape, complexDft(in), 1, false, "complexDft() of real data");
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C22, complex_1_2, 1) {
  g.coin() ? complexPlan<1>(g) : complexPlan<2>(g);
}
PBT_LAW(C22, complex_3_variable, 1) {
  g.chance(1, 3) ? complexPlan<3>(g) : g.coin() ? complexPlan<4>(g) : complexPlan<-1>(g);
}
#elif PBT_PART == 1
PBT_LAW(C22, real_1_2, 1) {
  g.coin() ? realPlan<1>(g) : realPlan<2>(g);
}
PBT_LAW(C22, real_3_variable, 1) {
  g.chance(1, 3) ? realPlan<3>(g) : g.coin() ? realPlan<4>(g) : realPlan<-1>(g);
}
#elif PBT_PART == 2
PBT_LAW(C22, huge, .02) {
  switch (g.draw(2)) {
    case 0:
      return huge<1>(g);
    case 1:
      return huge<2>(g);
    default:
      return huge<-1>(g);
  }
}
PBT_LAW(C22, large, .15) {
  switch (g.draw(3)) {
    case 0:
      return large<1>(g);
    case 1:
      return large<2>(g);
    case 2:
      return large<3>(g);
    default:
      return large<-1>(g);
  }
}
#else
PBT_LAW(C22, functions, 1) {
  switch (g.draw(3)) {
    case 0:
      return functions<1>(g);
    case 1:
      return functions<2>(g);
    case 2:
      return functions<3>(g);
    default:
      return functions<-1>(g);
  }
}
#endif