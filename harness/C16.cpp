// C16: extrapolation: values inside the domain, and boundary conditions outside.
#include "nd.h"

#include <cstring>
#include <limits>

#include "LitlTransforms/Interpolation.h"

using namespace Litl;

namespace {

/// Position around (and sometimes far away from) the domain.
nd::Pos around(pbt::Gen& g, const nd::Pos& shape) {
  nd::Pos out(shape.size());
  for (std::size_t i = 0; i < out.size(); ++i) {
    switch (g.draw(4) + 5 * g.chance(1, 30)) {
      case 5: // Extreme
        out[i] = g.pick<long>({Limits<Index>::min(), Limits<Index>::max(), Limits<Index>::max() - 1, Limits<Index>::min() + 1});
        break;
      case 0:
      case 1:
        out[i] = g.i(0, shape[i] - 1);
        break;
      case 2:
        out[i] = g.pick<long>({-1, shape[i], 0, shape[i] - 1, -shape[i], 2 * shape[i], -shape[i] - 1, 2 * shape[i] - 1});
        break;
      case 3:
        out[i] = g.z(-3 * shape[i] - 2, 3 * shape[i] + 2);
        break;
      default:
        out[i] = g.z(-1000000000000L, 1000000000000L);
    }
  }
  return out;
}

/// Extreme values, infinities and NaN included.
template <typename T>
T special(pbt::Gen& g) {
  using L = std::numeric_limits<T>;
  return g.pick<T>({T(0), L::lowest(), L::max(), L::min(), T(1), L::infinity(), T(-L::infinity()), L::quiet_NaN(), T(-T(0))});
}

template <typename T>
bool identical(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T) > 10 ? 10 : sizeof(T)) == 0;
}

template <typename TExtra, typename TRaster>
void decorates(const TExtra& extra, const TRaster& raster, const nd::Pos& shape) {
  REQUIRE(&extra.raster() == &raster, "raster() is not the decorated raster");
  REQUIRE(&rasterize(extra) == &raster, "rasterize() is not the decorated raster");
  REQUIRE(nd::from(extra.shape()) == shape, "shape()");
  const auto d = extra.domain();
  REQUIRE(nd::from(d.front()) == nd::Pos(shape.size(), 0) && nd::from(d.shape()) == shape, "domain()");
}

template <typename T, Index N, typename TRaster>
void check(pbt::Gen& g, const TRaster& raster, const nd::Pos& shape) {
  const T constant = g.chance(1, 4) ? special<T>(g) : static_cast<T>(g.i(100, 120));
  const auto zero = extrapolate(raster, constant);
  const auto alt = extrapolate<OutOfBoundsConstant<T>>(raster, constant);
  const auto nearest = extrapolate(raster);
  const auto nearestAlt = extrapolate<NearestNeighbor>(raster);
  const auto periodic = extrapolate<Periodic>(raster);
  decorates(zero, raster, shape);
  decorates(nearest, raster, shape);
  decorates(periodic, raster, shape);
  for (int k = 0; k < 4; ++k) {
    const auto p = around(g, shape);
    const auto pos = nd::to<N>(p);
    NOTE("position " << nd::str(p));
    bool inside = true;
    nd::Pos clamped = p, modulo = p;
    for (std::size_t i = 0; i < p.size(); ++i) {
      inside = inside && p[i] >= 0 && p[i] < shape[i];
      clamped[i] = std::min(std::max(p[i], 0L), shape[i] - 1);
      modulo[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
    }
    g.nontrivial(!inside);
    g.label(inside ? "inside" : "outside");
    REQUIRE_EQ(raster.contains(pos), inside, "contains()");
    const auto& z = zero[pos];
    const auto& n = nearest[pos];
    const auto& m = periodic[pos];
    const T* data = raster.data();
    if (inside) {
      REQUIRE(&z == data + nd::offset(shape, p), "the constant extrapolator does not give access to a pixel of the domain");
    } else {
      REQUIRE(identical(z, constant), "value out of the domain (constant) is " << z << " instead of " << constant);
    }
    REQUIRE(identical(alt[pos], z), "constant extrapolators differ");
    REQUIRE(&n == data + nd::offset(shape, clamped), "nearest neighbor is " << nd::str(clamped) << ", not the pixel at offset " << (&n - data));
    REQUIRE(&nearestAlt[pos] == &n, "nearest neighbor extrapolators differ");
    REQUIRE(&m == data + nd::offset(shape, modulo), "periodic position is " << nd::str(modulo) << ", not the pixel at offset " << (&m - data));
  }
}

template <typename T, Index N>
void law(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N), 200);
  NOTE("shape=" << nd::str(shape));
  std::vector<T> values(nd::size(shape));
  for (std::size_t i = 0; i < values.size(); ++i) {
    values[i] = static_cast<T>(i % 90);
  }
  switch (g.draw(1)) {
    case 0: {
      const PtrRaster<const T, N> raster(nd::to<N>(shape), values.data());
      const auto nearest = extrapolate(raster);
      const auto periodic = extrapolate<Periodic>(raster);
      const auto p = around(g, shape);
      nd::Pos clamped = p, modulo = p;
      for (std::size_t i = 0; i < p.size(); ++i) {
        clamped[i] = std::min(std::max(p[i], 0L), shape[i] - 1);
        modulo[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
      NOTE("position " << nd::str(p));
      g.nontrivial(p != clamped);
      REQUIRE(&nearest[nd::to<N>(p)] == values.data() + nd::offset(shape, clamped), "nearest neighbor in a read-only raster");
      REQUIRE(&periodic[nd::to<N>(p)] == values.data() + nd::offset(shape, modulo), "periodic position in a read-only raster");
      return;
    }
    default: {
      const VecRaster<T, N> raster(nd::to<N>(shape), values);
      return check<T, N>(g, raster, shape);
    }
  }
}

/// Containment test of possibly non-integral positions.
template <Index N>
void contains(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N), 60);
  const Raster<char, N> raster(nd::to<N>(shape));
  Vector<double, N> pos(static_cast<double>(shape.size()));
  bool inside = true;
  for (std::size_t i = 0; i < shape.size(); ++i) {
    switch (g.draw(3)) {
      case 0:
        pos[i] = g.pick<double>({0., -1e-9, static_cast<double>(shape[i]), shape[i] - 1e-9, shape[i] - .5, -.5});
        break;
      case 1:
        pos[i] = g.real(10);
        break;
      default:
        pos[i] = g.i(0, 64 * shape[i] - 1) / 64.;
    }
    // The domain goes from 0 (included) to the shape (excluded)
    inside = inside && pos[i] >= 0 && pos[i] < shape[i];
  }
  NOTE("shape=" << nd::str(shape) << " position " << pbt::showAll(pos));
  g.nontrivial();
  REQUIRE_EQ(raster.contains(pos), inside, "contains()");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C16, extrapolate_1_2, 1) {
  g.coin() ? law<int, 1>(g) : law<float, 2>(g);
}
#elif PBT_PART == 1
PBT_LAW(C16, extrapolate_3_4, 1) {
  g.coin() ? law<double, 3>(g) : law<unsigned char, 4>(g);
}
#else
PBT_LAW(C16, extrapolate_variable, 1) {
  law<int, -1>(g);
}
PBT_LAW(C16, contains, .3) {
  switch (g.draw(2)) {
    case 0:
      return contains<2>(g);
    case 1:
      return contains<3>(g);
    default:
      return contains<-1>(g);
  }
}
#endif
