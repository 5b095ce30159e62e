// C21: median filter.
#include "nd.h"

#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/MedianFilter.h"

using namespace Litl;

namespace {

/// Value of the extrapolated raster at any position, per boundary condition.
template <typename T>
T boundary(int mode, T constant, const std::vector<T>& values, const nd::Pos& shape, nd::Pos p) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (p[i] < 0 || p[i] >= shape[i]) {
      switch (mode) {
        case 0:
          return constant;
        case 1:
          p[i] = p[i] < 0 ? 0 : shape[i] - 1;
          break;
        default:
          p[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
    }
  }
  return values[nd::offset(shape, p)];
}

/// Middle value, or mean of the two middle values.
template <typename U, typename T>
U middle(std::vector<T> values) {
  std::sort(values.begin(), values.end());
  const auto n = values.size();
  if (n % 2) {
    return static_cast<U>(values[n / 2]);
  }
  return static_cast<U>((static_cast<double>(values[n / 2]) + static_cast<double>(values[n / 2 - 1])) * .5);
}

template <typename T>
T value(pbt::Gen& g, long range) {
  const auto v = std::is_unsigned<T>::value ? g.i(0, 2 * range) : g.z(-range, range);
  return std::is_integral<T>::value ? static_cast<T>(v) : static_cast<T>(v / 4.);
}

/// Magnitude of the values (the sum of two large ones exceeds the value type).
template <typename T, typename U>
long magnitude(pbt::Gen& g) {
  const bool large = std::numeric_limits<T>::is_integer && sizeof(T) <= 4 && std::numeric_limits<U>::digits >= std::numeric_limits<T>::digits;
  if (large && g.chance(1, 5)) {
    g.label("large");
    return std::is_unsigned<T>::value ? std::numeric_limits<T>::max() / 2 : std::numeric_limits<T>::max();
  }
  return g.pick<long>({1, 5, 100});
}

template <typename T, typename U>
void median(pbt::Gen& g) {
  std::vector<T> values(g.count(1, 40));
  const long range = magnitude<T, U>(g);
  for (auto& v : values) {
    v = value<T>(g, range);
  }
  NOTE("values=" << pbt::showAll(values));
  g.nontrivial(values.size() > 1);
  g.label(values.size() % 2 ? "odd" : "even");
  auto buffer = values;
  const auto got = MedianFilter<T, 2>::template median<U>(buffer);
  REQUIRE_EQ(got, middle<U>(values), "median()");
  std::sort(buffer.begin(), buffer.end());
  std::sort(values.begin(), values.end());
  REQUIRE(buffer == values, "the values are not reordered only");
}

template <typename T, typename TOut, Index N>
void filter(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 5);
  const bool veryLong = n <= 3 && g.chance(1, 20000);
  const auto shape = veryLong ? nd::longShape(g, n) : nd::shape(g, n, 60);
  nd::Pos front(n), back(n);
  const bool centered = N != -1 && g.coin();
  const bool wide = !veryLong && g.chance(1, n <= 2 ? 12 : 40);
  const long radius = wide ? g.i(0, n == 1 ? 40 : n == 2 ? 7 : n == 3 ? 3 : 2) : g.i(0, veryLong || n > 2 ? 1 : n == 1 ? 4 : 2);
  for (std::size_t i = 0; i < n; ++i) {
    if (centered) {
      front[i] = -radius;
      back[i] = radius;
    } else {
      front[i] = wide ? g.z(-30, 20) : g.z(-3, 2);
      back[i] = front[i] + (wide ? g.i(0, n == 1 ? 80 : n == 2 ? 12 : n == 3 ? 5 : 2) : g.i(0, veryLong || n > 2 ? 1 : 3));
    }
  }
  std::vector<T> values(nd::size(shape));
  const long range = magnitude<T, TOut>(g);
  if (veryLong) {
    nd::fillPixels<T>(g, values, 0, range);
  } else {
    for (auto& v : values) {
      v = value<T>(g, range);
    }
  }
  const int mode = g.draw(2);
  const T constant = value<T>(g, range);
  NOTE("shape=" << nd::str(shape) << " window=" << nd::str(front) << "-" << nd::str(back) << " centered=" << centered << " boundary=" << mode << " constant=" << +constant << " values=" << pbt::showAll(values));
  const auto window = nd::positions(front, back);
  g.nontrivial(window.size() > 1 && values.size() > 1);
  g.label(window.size() % 2 ? "odd window" : "even window");
  const VecRaster<T, N> in(nd::to<N>(shape), values);
  MedianFilter<T, N> explicitFilter(Box<N>(nd::to<N>(front), nd::to<N>(back)));
  auto f = explicitFilter;
  if (centered) {
    f = radius == 1 && g.coin() ? MedianFilter<T, N>() : MedianFilter<T, N>(radius);
  }

  auto expected = [&](const nd::Pos& p, auto zero) {
    std::vector<T> neighbors;
    for (const auto& w : window) {
      auto q = p;
      for (std::size_t i = 0; i < n; ++i) {
        q[i] += w[i];
      }
      neighbors.push_back(boundary(mode, constant, values, shape, q));
    }
    return middle<decltype(zero)>(neighbors);
  };
  auto check = [&](const auto& out, auto zero) {
    REQUIRE(nd::from(out.shape()) == shape, "shape of the output");
    for (const auto& p : nd::domain(shape)) {
      REQUIRE_EQ(out[nd::to<N>(p)], expected(p, zero), "at " << nd::str(p));
    }
  };
  auto run = [&](const auto& extra) {
    switch (g.draw(2)) {
      case 0:
        return check(f.apply(extra), T());
      case 1: {
        Raster<TOut, N> out(nd::to<N>(shape));
        f.applyTo(extra, out);
        return check(out, TOut());
      }
      default: {
        const auto r = nd::region(g, shape);
        NOTE("region=" << nd::str(r.first) << "-" << nd::str(r.second));
        Raster<TOut, N> out(nd::to<N>(shape));
        std::fill(out.begin(), out.end(), TOut(55));
        f.applyTo(extra, out, Box<N>(nd::to<N>(r.first), nd::to<N>(r.second)));
        for (const auto& p : nd::domain(shape)) {
          if (nd::inside(r.first, r.second, p)) {
            REQUIRE_EQ(out[nd::to<N>(p)], expected(p, TOut()), "at " << nd::str(p));
          } else {
            REQUIRE_EQ(out[nd::to<N>(p)], TOut(55), "out of the region, at " << nd::str(p));
          }
        }
      }
    }
  };
  switch (mode) {
    case 0:
      run(extrapolate<OutOfBoundsConstant<T>>(in, constant));
      break;
    case 1:
      run(extrapolate(in));
      break;
    default:
      run(extrapolate<Periodic>(in));
  }
  REQUIRE(std::equal(values.begin(), values.end(), in.begin()), "the input is modified");

  // No extrapolation is needed in the inner region
  nd::Pos a(n), b(n);
  for (std::size_t i = 0; i < n; ++i) {
    a[i] = std::max(0L, -front[i]);
    b[i] = std::min(shape[i] - 1, shape[i] - 1 - back[i]);
  }
  if (!nd::positions(a, b).empty()) {
    Raster<TOut, N> out(nd::to<N>(shape));
    f.applyTo(in, out, Box<N>(nd::to<N>(a), nd::to<N>(b)));
    for (const auto& p : nd::positions(a, b)) {
      REQUIRE_EQ(out[nd::to<N>(p)], expected(p, TOut()), "without extrapolation, at " << nd::str(p));
    }
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C21, median, .3) {
  switch (g.draw(3)) {
    case 0:
      return median<int, int>(g);
    case 1:
      return median<int, double>(g);
    case 2:
      return median<unsigned, double>(g);
    default:
      return median<float, float>(g);
  }
}
PBT_LAW(C21, filter_1, 1) {
  g.coin() ? filter<int, int, 1>(g) : filter<double, float, 1>(g);
}
#elif PBT_PART == 1
PBT_LAW(C21, filter_2, 1) {
  g.coin() ? filter<int, double, 2>(g) : filter<unsigned char, int, 2>(g);
}
PBT_LAW(C21, filter_narrowing, .7) {
  g.coin() ? filter<double, int, 2>(g) : filter<int, signed char, 1>(g);
}
#elif PBT_PART == 2
PBT_LAW(C21, filter_3, 1) {
  filter<int, int, 3>(g);
}
PBT_LAW(C21, filter_variable, .5) {
  filter<short, float, -1>(g);
}
#else
PBT_LAW(C21, filter_4, .7) {
  filter<int, int, 4>(g);
}
PBT_LAW(C21, filter_5, .3) {
  filter<double, double, 5>(g);
}
#endif
