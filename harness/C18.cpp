// C18: N-dimensional cross-correlation with a kernel.
#include "nd.h"

#include "LitlTransforms/Kernel.h"

using namespace Litl;

namespace {

/// Value of the extrapolated raster at any position, per boundary condition.
template <typename T>
T boundary(int mode, T constant, const std::vector<T>& values, const nd::Pos& shape, nd::Pos p) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (p[i] < 0 || p[i] >= shape[i]) {
      switch (mode) {
        case 0:
          return constant;
        case 1:
          p[i] = p[i] < 0 ? 0 : shape[i] - 1;
          break;
        default:
          p[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
    }
  }
  return values[nd::offset(shape, p)];
}

template <typename TK, typename TIn, typename TOut, Index N>
void law(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 3);
  const bool veryLong = n <= 3 && g.chance(1, 5000);
  const auto shape = veryLong ? nd::longShape(g, n) : nd::shape(g, n, n == 1 ? 60 : 150);
  auto kShape = nd::shape(g, n, veryLong ? 5 : n == 1 ? 12 : 40, 1, false);
  if (g.coin()) {
    // Favor kernels smaller than the input
    for (std::size_t i = 0; i < n; ++i) {
      kShape[i] = std::min(kShape[i], std::max(1L, shape[i] - 1));
    }
  }
  nd::Pos origin(n);
  const bool centered = g.coin();
  for (std::size_t i = 0; i < n; ++i) {
    origin[i] = centered ? kShape[i] / 2 : g.i(0, kShape[i] - 1);
  }
  std::vector<TIn> values(nd::size(shape));
  if (veryLong) {
    nd::fillPixels<TIn>(g, values, -4, 5);
  }
  for (std::size_t i = 0; i < values.size() && !veryLong; ++i) {
    values[i] = nd::pixel<TIn>(g, -4, 5);
    if (std::is_integral<TIn>::value && sizeof(TIn) > 2 && g.chance(1, 8)) {
      values[i] *= 99; // Exceeds the range of the narrow kernel types
    }
  }
  std::vector<TK> kValues(nd::size(kShape));
  for (auto& v : kValues) {
    v = nd::pixel<TK>(g, -2, 4);
  }
  const int mode = g.draw(2);
  const TIn constant = nd::pixel<TIn>(g, 0, 5);
  const int way = g.draw(3);
  bool larger = false;
  long interior = 1;
  for (std::size_t i = 0; i < n; ++i) {
    larger = larger || kShape[i] > shape[i];
    interior *= std::max(0L, shape[i] - kShape[i] + 1);
  }
  g.nontrivial(nd::size(kShape) > 1 && nd::size(shape) > 1);
  g.label(larger ? "kernel larger than the input" : interior > 1 ? "several interior pixels" : "few interior pixels");
  NOTE("shape=" << nd::str(shape) << " kernel=" << nd::str(kShape) << " origin=" << nd::str(origin) << " boundary=" << mode << " constant=" << +constant
                << " values=" << pbt::showAll(values) << " kernel values=" << pbt::showAll(kValues) << " way=" << way);

  const VecRaster<TIn, N> in(nd::to<N>(shape), values);
  const PtrRaster<const TIn, N> view(nd::to<N>(shape), values.data());
  const Raster<TK, N> kRaster(nd::to<N>(kShape), kValues);
  const auto kernel = centered && g.coin() ? kernelize(kRaster) : kernelize(kRaster, nd::to<N>(origin));

  // Properties
  nd::Pos front(n), back(n);
  for (std::size_t i = 0; i < n; ++i) {
    front[i] = -origin[i];
    back[i] = kShape[i] - 1 - origin[i];
  }
  REQUIRE(nd::from(kernel.window().front()) == front, "front of the window is " << nd::str(nd::from(kernel.window().front())));
  REQUIRE(nd::from(kernel.window().back()) == back, "back of the window is " << nd::str(nd::from(kernel.window().back())));
  REQUIRE(nd::from(kernel.shape()) == kShape, "shape of the kernel is " << nd::str(nd::from(kernel.shape())));
  REQUIRE(kernel.raster() == kRaster, "values of the kernel");

  // Reference: weighted sum of the neighbors
  const auto window = nd::positions(front, back);
  using Sum = nd::Product<TK, TIn>;
  std::vector<Sum> expected;
  for (const auto& p : nd::domain(shape)) {
    Sum sum {};
    for (std::size_t k = 0; k < window.size(); ++k) {
      nd::Pos q = p;
      for (std::size_t i = 0; i < n; ++i) {
        q[i] += window[k][i];
      }
      sum = sum + kValues[k] * boundary(mode, constant, values, shape, q);
    }
    expected.push_back(sum);
  }

  auto check = [&](const auto& out) {
    REQUIRE(nd::from(out.shape()) == shape, "shape of the output is " << nd::str(nd::from(out.shape())));
    using Value = std::decay_t<decltype(*out.begin())>;
    std::size_t i = 0;
    for (const auto& p : nd::domain(shape)) {
      const auto e = static_cast<Value>(expected[i]);
      REQUIRE(out[nd::to<N>(p)] == e, "at " << nd::str(p) << ": got " << pbt::show(out[nd::to<N>(p)]) << ", expected " << pbt::show(e));
      ++i;
    }
  };
  auto run = [&](const auto& extra) {
    if (way % 2) {
      check(kernel * extra);
    } else {
      Raster<TOut, N> out(nd::to<N>(shape));
      std::fill(out.begin(), out.end(), TOut(77));
      kernel.correlateTo(extra, out);
      check(out);
    }
  };
  auto apply = [&](const auto& raster) {
    switch (mode) {
      case 0:
        return run(extrapolate<OutOfBoundsConstant<TIn>>(raster, constant));
      case 1:
        return run(extrapolate(raster));
      default:
        return run(extrapolate<Periodic>(raster));
    }
  };
  way < 2 ? apply(in) : apply(view);
  REQUIRE(std::equal(values.begin(), values.end(), in.begin()), "the input is modified");
  REQUIRE(kernel.raster() == kRaster, "the kernel is modified");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C18, correlate_1, 1) {
  switch (g.draw(3)) {
    case 0:
      return law<int, int, int, 1>(g);
    case 1:
      return law<double, int, float, 1>(g);
    case 2:
      return law<int, double, double, 1>(g);
    default:
      return law<signed char, int, int, 1>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C18, correlate_2, 1) {
  switch (g.draw(2)) {
    case 0:
      return law<int, int, int, 2>(g);
    case 1:
      return law<int, unsigned char, long, 2>(g);
    default:
      return law<short, float, double, 2>(g);
  }
}
#elif PBT_PART == 2
PBT_LAW(C18, correlate_2_float, .5) {
  law<float, double, float, 2>(g);
}
PBT_LAW(C18, correlate_4, .5) {
  law<int, int, int, 4>(g);
}
#elif PBT_PART == 3
PBT_LAW(C18, correlate_3, 1) {
  g.coin() ? law<int, int, int, 3>(g) : law<long, short, double, 3>(g);
}
#else
PBT_LAW(C18, correlate_variable, .5) {
  law<int, int, int, -1>(g);
}
#endif
