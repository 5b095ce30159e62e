// C19: line kernels and separable kernels.
#include "nd.h"

#include "LitlContainer/Sequence.h"
#include "LitlTransforms/SeparableKernel.h"

using namespace Litl;

namespace {

template <typename TK>
std::vector<TK> kernelValues(pbt::Gen& g, long maxSize, bool mayBeLarge = false) {
  std::vector<TK> out(mayBeLarge ? g.count(1, maxSize) : g.size(1, maxSize));
  for (auto& e : out) {
    e = static_cast<TK>(g.z(-4, 4));
    if (std::is_floating_point<TK>::value && g.coin()) {
      e += .25 * g.draw(3);
    }
  }
  return out;
}

/// Correlation at index i, values being null out of bounds.
template <typename TK, typename F>
auto correlation(const std::vector<TK>& kernel, long origin, long size, long i, F&& at) {
  nd::Product<TK, std::decay_t<decltype(at(0))>> out {};
  for (long j = 0; j < static_cast<long>(kernel.size()); ++j) {
    const long q = i + j - origin;
    if (q >= 0 && q < size) {
      out = out + kernel[j] * at(q);
    }
  }
  return out;
}

template <typename TIn, typename TK, typename TOut>
void line(pbt::Gen& g) {
  const long size = g.count(1, 40);
  const long stride = g.size(1, 4);
  const auto values = kernelValues<TK>(g, 9, true);
  const bool centered = g.coin();
  const long origin = centered ? values.size() / 2 : g.i(0, values.size() - 1);
  const long front = g.coin() ? 0 : g.i(0, size - 1);
  const bool full = g.coin();
  const long back = full ? size - 1 : g.i(front, size - 1);
  const long step = g.coin() ? 1 : g.size(1, size + 2);
  const long count = (back - front) / step + 1;
  const long outFront = g.i(0, 3), outStep = g.i(1, 3), outStride = g.i(1, 3);
  const long outSize = outFront + (count - 1) * outStep + 1 + g.i(0, 2);
  NOTE("size=" << size << " stride=" << stride << " kernel=" << pbt::showAll(values) << " origin=" << origin << " front=" << front << " back=" << back << " step=" << step << " out: front=" << outFront << " step=" << outStep << " stride=" << outStride << " size=" << outSize);
  g.nontrivial(values.size() > 1 && count > 1);
  g.label(static_cast<long>(values.size()) > size ? "kernel longer than the input" : step > 1 ? "sparse" : "dense");
  std::vector<TIn> in((size - 1) * stride + 1);
  nd::fillPixels<TIn>(g, in, -4, 9);
  std::vector<TOut> out((outSize - 1) * outStride + 1);
  for (std::size_t i = 0; i < out.size(); ++i) {
    out[i] = static_cast<TOut>(50 + i % 50);
  }
  auto expected = out;
  for (long k = 0; k < count; ++k) {
    expected[(outFront + k * outStep) * outStride] = static_cast<TOut>(correlation(values, origin, size, front + k * step, [&](long q) {
      return in[q * stride];
    }));
  }
  const auto backup = in;

  auto check = [&](const LineKernel<TK>& kernel) {
    REQUIRE_EQ(static_cast<long>(kernel.size()), static_cast<long>(values.size()), "size()");
    REQUIRE(std::equal(values.begin(), values.end(), kernel.begin()), "kernel values");
    REQUIRE_EQ(kernel.origin(), origin, "origin()");
    REQUIRE(kernel.originData() == kernel.data() + origin, "originData()");
    REQUIRE_EQ(kernel.window().front(), -origin, "front of the window");
    REQUIRE_EQ(kernel.window().back(), static_cast<long>(values.size()) - 1 - origin, "back of the window");
    REQUIRE_EQ(kernel.window().size(), values.size(), "size of the window");
  };
  const auto kernel = centered ? LineKernel<TK>(values) : LineKernel<TK>(values, origin);
  check(kernel);
  const Sequence<TK> sequence(values);
  check(kernelize(sequence, origin));
  if (centered) {
    check(kernelize(sequence));
  }
  check(kernelize(values.data(), Segment(-origin, static_cast<long>(values.size()) - 1 - origin)));

  DataSamples<const TIn> inSamples(in.data(), size, {front, full ? Limits<Index>::inf() : back, step}, stride);
  DataSamples<TOut> outSamples(out.data(), outSize, {outFront, Limits<Index>::inf(), outStep}, outStride);
  kernel.correlate(inSamples, outSamples);
  REQUIRE(out == expected, "got " << pbt::showAll(out) << ", expected " << pbt::showAll(expected));
  REQUIRE(in == backup, "the input is modified");
  check(kernel);
}

/// Reference separable correlation: one axis after the other.
template <typename TOut, typename TIn, typename TK>
std::vector<TOut> separate(const std::vector<TIn>& in, const nd::Pos& shape, long axis, const std::vector<TK>& kernel, long origin) {
  std::vector<TOut> out;
  for (const auto& p : nd::domain(shape)) {
    out.push_back(static_cast<TOut>(correlation(kernel, origin, shape[axis], p[axis], [&](long q) {
      auto r = p;
      r[axis] = q;
      return in[nd::offset(shape, r)];
    })));
  }
  return out;
}

template <typename TOut, typename TIn, typename TLines>
std::vector<TOut> separate(const std::vector<TIn>& in, const nd::Pos& shape, const TLines& lines) {
  auto out = separate<TOut>(in, shape, lines[0].axis, lines[0].values, lines[0].origin);
  for (std::size_t i = 1; i < lines.size(); ++i) {
    out = separate<TOut>(out, shape, lines[i].axis, lines[i].values, lines[i].origin);
  }
  return out;
}

template <typename T>
struct Line {
  long axis;
  std::vector<T> values;
  long origin;
};

template <typename TIn, typename T, Index N, typename TKernel>
void apply(pbt::Gen& g, const TKernel& kernel, const std::vector<Line<T>>& lines, const char* what) {
  // Properties
  long dimension = 0;
  for (const auto& l : lines) {
    dimension = std::max(dimension, l.axis + 1);
  }
  REQUIRE_EQ(static_cast<long>(TKernel::Dimension + 0), dimension, what << ": Dimension");
  nd::Pos front(dimension, 0), back(dimension, 0), kShape(dimension, 1);
  for (const auto& l : lines) {
    front[l.axis] = -l.origin;
    back[l.axis] = static_cast<long>(l.values.size()) - 1 - l.origin;
    kShape[l.axis] = l.values.size();
    REQUIRE(std::equal(l.values.begin(), l.values.end(), kernel[l.axis].begin()) && kernel[l.axis].size() == l.values.size(), what << ": values along axis " << l.axis);
    REQUIRE_EQ(kernel[l.axis].origin(), l.origin, what << ": origin along axis " << l.axis);
  }
  const auto window = kernel.window();
  REQUIRE(nd::from(window.front()) == front && nd::from(window.back()) == back, what << ": window is " << nd::str(nd::from(window.front())) << " - " << nd::str(nd::from(window.back())));
  long count = 0;
  for (auto it = kernel.begin(); it != kernel.end(); ++it) {
    ++count;
  }
  REQUIRE_EQ(count, static_cast<long>(lines.size()), what << ": number of axes");

  // Composition
  const auto composed = kernel.compose();
  REQUIRE(nd::from(composed.window().front()) == front && nd::from(composed.window().back()) == back, what << ": window of the composed kernel is " << nd::str(nd::from(composed.window().front())) << " - " << nd::str(nd::from(composed.window().back())));
  const auto values = composed.raster();
  for (const auto& p : nd::domain(kShape)) {
    T product(1);
    for (const auto& l : lines) {
      product = product * l.values[p[l.axis]];
    }
    REQUIRE_EQ(values[nd::to<TKernel::Dimension>(p)], product, what << ": composed kernel at " << nd::str(p));
  }

  // Application
  const auto shape = g.chance(1, 3000) ? nd::longShape(g, N) : nd::shape(g, N, 120);
  Raster<TIn, N> in(nd::to<N>(shape));
  nd::fillPixels<TIn>(g, in, -4, 9);
  NOTE("shape=" << nd::str(shape) << " values=" << pbt::showAll(in));
  g.nontrivial(in.size() > 1 && nd::size(kShape) > 1);
  const std::vector<TIn> values0(in.begin(), in.end());
  const auto expected = separate<T>(values0, shape, lines);
  const auto out = kernel * in;
  REQUIRE(nd::from(out.shape()) == shape, what << ": shape of the output");
  // Rounding between the axes is unspecified
  const bool exact = std::is_floating_point<T>::value || std::is_integral<TIn>::value;
  REQUIRE(not exact || std::equal(expected.begin(), expected.end(), out.begin()), what << ": got " << pbt::showAll(out) << ", expected " << pbt::showAll(expected));
  Raster<T, N> out2(nd::to<N>(shape));
  kernel.correlateTo(in, out2);
  REQUIRE(out2 == out, what << ": correlateTo() and operator* differ");
  Raster<double, N> out3(nd::to<N>(shape));
  kernel.correlateTo(in, out3);
  const auto expected3 = separate<double>(values0, shape, lines);
  REQUIRE(std::equal(expected3.begin(), expected3.end(), out3.begin()), what << ": got " << pbt::showAll(out3) << " in double precision, expected " << pbt::showAll(expected3));
  REQUIRE(std::equal(values0.begin(), values0.end(), in.begin()), what << ": the input is modified");
}

template <typename T>
Line<T> randomLine(pbt::Gen& g, long axis) {
  Line<T> out;
  out.axis = axis;
  out.values = kernelValues<T>(g, 5);
  out.origin = g.i(0, out.values.size() - 1);
  NOTE("axis=" << axis << " kernel=" << pbt::showAll(out.values) << " origin=" << out.origin);
  return out;
}

template <typename TIn, typename T, Index N, Index I0>
void one(pbt::Gen& g) {
  const auto a = randomLine<T>(g, I0);
  apply<TIn, T, N>(g, LineKernel<T>(a.values, a.origin).template along<I0>(), {a}, "along()");
}

template <typename TIn, typename T, Index N, Index I0, Index I1>
void two(pbt::Gen& g) {
  const auto a = randomLine<T>(g, I0);
  const auto b = randomLine<T>(g, I1);
  const auto ka = LineKernel<T>(a.values, a.origin).template along<I0>();
  const auto kb = LineKernel<T>(b.values, b.origin).template along<I1>();
  if (g.coin()) {
    apply<TIn, T, N>(g, ka * kb, {a, b}, "product");
  } else if (g.coin()) {
    apply<TIn, T, N>(g, kb * ka, {a, b}, "commuted product");
  } else {
    auto c = a;
    c.axis = I1;
    apply<TIn, T, N>(g, LineKernel<T>(a.values, a.origin).template along<I0, I1>(), {a, c}, "along() several axes");
  }
}

template <typename TIn, typename T, Index N, Index I0, Index I1, Index I2>
void three(pbt::Gen& g) {
  const auto a = randomLine<T>(g, I0);
  const auto b = randomLine<T>(g, I1);
  const auto c = randomLine<T>(g, I2);
  const auto ka = LineKernel<T>(a.values, a.origin).template along<I0>();
  const auto kb = LineKernel<T>(b.values, b.origin).template along<I1>();
  const auto kc = LineKernel<T>(c.values, c.origin).template along<I2>();
  g.coin() ? apply<TIn, T, N>(g, ka * kb * kc, {a, b, c}, "product") : apply<TIn, T, N>(g, ka * (kb * kc), {a, b, c}, "associated product");
}

/// Documented values of the usual kernels.
template <typename TIn, typename T, Index N, Index I0, Index I1>
void usual(pbt::Gen& g) {
  using Separable = SeparableKernel<T, I0, I1>;
  const bool unit = g.coin();
  const T sign = unit ? T(1) : T(-1);
  const Line<T> derivation {I0, {sign, T(0), static_cast<T>(-sign)}, 1};
  switch (g.draw(3)) {
    case 0:
      NOTE("Prewitt, sign=" << sign);
      return apply<TIn, T, N>(g, unit && g.coin() ? Separable::prewitt() : Separable::prewitt(sign), {derivation, {I1, {1, 1, 1}, 1}}, "Prewitt");
    case 1:
      NOTE("Sobel, sign=" << sign);
      return apply<TIn, T, N>(g, unit && g.coin() ? Separable::sobel() : Separable::sobel(sign), {derivation, {I1, {1, 2, 1}, 1}}, "Sobel");
    case 2:
      NOTE("Scharr, sign=" << sign);
      return apply<TIn, T, N>(g, unit && g.coin() ? Separable::scharr() : Separable::scharr(sign), {derivation, {I1, {3, 10, 3}, 1}}, "Scharr");
    default: {
      NOTE("Laplacian, sign=" << sign);
      const std::vector<T> values {sign, static_cast<T>(-2 * sign), sign};
      return apply<TIn, T, N>(g, unit && g.coin() ? Separable::laplacian() : Separable::laplacian(sign), {{I0, values, 1}, {I1, values, 1}}, "Laplacian");
    }
  }
}

template <typename T>
void usual3(pbt::Gen& g) {
  using Separable = SeparableKernel<T, 2, 0, 1>;
  const T sign = g.coin() ? T(1) : T(-1);
  NOTE("sign=" << sign);
  const Line<T> derivation {2, {sign, T(0), static_cast<T>(-sign)}, 1};
  switch (g.draw(3)) {
    case 0:
      return apply<T, T, 3>(g, Separable::prewitt(sign), {derivation, {0, {1, 1, 1}, 1}, {1, {1, 1, 1}, 1}}, "Prewitt");
    case 1:
      return apply<T, T, 3>(g, Separable::sobel(sign), {derivation, {0, {1, 2, 1}, 1}, {1, {1, 2, 1}, 1}}, "Sobel");
    case 2:
      return apply<T, T, 3>(g, Separable::scharr(sign), {derivation, {0, {3, 10, 3}, 1}, {1, {3, 10, 3}, 1}}, "Scharr");
    default: {
      const std::vector<T> values {sign, static_cast<T>(-2 * sign), sign};
      return apply<T, T, 3>(g, Separable::laplacian(sign), {{2, values, 1}, {0, values, 1}, {1, values, 1}}, "Laplacian");
    }
  }
}

/// Separable correlation is that with the composed kernel, values out of the domain being null.
template <typename T, Index N, Index... Is>
void equivalent(pbt::Gen& g) {
  const auto values = kernelValues<T>(g, 5);
  const long origin = g.i(0, values.size() - 1);
  const auto shape = g.chance(1, 3000) ? nd::longShape(g, N) : nd::shape(g, N, 120);
  NOTE("kernel=" << pbt::showAll(values) << " origin=" << origin << " shape=" << nd::str(shape));
  Raster<T, N> in(nd::to<N>(shape));
  nd::fillPixels<T>(g, in, -4, 9);
  g.nontrivial(values.size() > 1 && in.size() > 1);
  const auto kernel = LineKernel<T>(values, origin).template along<Is...>();
  const auto separate = kernel * in;
  const auto combined = kernel.compose() * extrapolate(in, T(0));
  REQUIRE(separate == combined, "separable: " << pbt::showAll(separate) << ", composed: " << pbt::showAll(combined));
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C19, line, 1.5) {
  switch (g.draw(4)) {
    case 0:
      return line<int, int, int>(g);
    case 1:
      return line<int, float, double>(g);
    case 2:
      return line<double, int, double>(g);
    case 3:
      return line<int, signed char, int>(g);
    default:
      return line<unsigned char, int, long>(g);
  }
}
PBT_LAW(C19, equivalent, 1) {
  switch (g.draw(2)) {
    case 0:
      return equivalent<int, 2, 0, 1>(g);
    case 1:
      return equivalent<double, 3, 2, 0, 1>(g);
    default:
      return equivalent<int, 1, 0>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C19, one_axis, 1) {
  switch (g.draw(6)) {
    case 5:
      return one<int, int, 4, 3>(g);
    case 6:
      return one<int, double, 5, 4>(g);
    case 0:
      return one<int, int, 1, 0>(g);
    case 1:
      return one<short, int, 2, 1>(g);
    case 2:
      return one<int, double, 3, 1>(g);
    case 3:
      return one<float, int, 2, 0>(g);
    default:
      return one<int, int, 4, 2>(g);
  }
}
#elif PBT_PART == 2
PBT_LAW(C19, two_axes, 1) {
  switch (g.draw(4)) {
    case 4:
      return two<int, int, 4, 3, 1>(g);
    case 0:
      return two<int, int, 2, 0, 1>(g);
    case 1:
      return two<int, double, 3, 2, 0>(g);
    case 2:
      return two<double, short, 2, 1, 0>(g);
    default:
      return two<unsigned char, int, 3, 1, 0>(g);
  }
}
#elif PBT_PART == 3
PBT_LAW(C19, three_axes, 1) {
  g.coin() ? three<int, int, 3, 0, 1, 2>(g) : three<int, float, 3, 2, 0, 1>(g);
}
#else
PBT_LAW(C19, usual, 1) {
  switch (g.draw(3)) {
    case 0:
      return usual<int, int, 2, 0, 1>(g);
    case 1:
      return usual<int, double, 2, 1, 0>(g);
    case 2:
      return usual<int, int, 3, 1, 2>(g);
    default:
      return g.coin() ? usual3<int>(g) : usual3<double>(g);
  }
}
#endif

#if PBT_PART == 3
/// Known finding (not explored, see known-findings.txt): two kernels along the same axis.
PBT_LAW(C19, same_axis, 0) {
  const auto a = randomLine<int>(g, 0);
  const auto b = randomLine<int>(g, 0);
  const long size = g.size(1, 20);
  Raster<int, 1> in({size});
  for (auto& e : in) {
    e = static_cast<int>(g.i(0, 9));
  }
  std::vector<int> expected(in.begin(), in.end());
  expected = separate<int>(expected, {size}, 0, a.values, a.origin);
  expected = separate<int>(expected, {size}, 0, b.values, b.origin);
  const auto out = LineKernel<int>(a.values, a.origin).along<0>() * LineKernel<int>(b.values, b.origin).along<0>() * in;
  REQUIRE(std::equal(expected.begin(), expected.end(), out.begin()), "got " << pbt::showAll(out) << ", expected " << pbt::showAll(expected));
}
#endif
