// C36: rasters of billions of pixels: access, views, iterators, extrapolation and samplings beyond 32 bits.
#include "nd.h"

#include "LitlRaster/Sampling.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"

#include <sys/mman.h>

using namespace Litl;

namespace {

/// Address space without memory: pages are null until they are written.
class Space {
public:
  explicit Space(std::size_t bytes) :
      m_bytes(bytes),
      m_data(::mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) {
    if (m_data == MAP_FAILED) {
      throw pbt::Overflow {}; // No room here: discard the case
    }
  }
  ~Space() {
    ::munmap(m_data, m_bytes);
  }
  Space(const Space&) = delete;
  Space& operator=(const Space&) = delete;
  void* data() const {
    return m_data;
  }

private:
  std::size_t m_bytes;
  void* m_data;
};

/// Shape with more than 2^30 pixels, up to 2^35 bytes.
nd::Pos hugeShape(pbt::Gen& g, std::size_t n, std::size_t bytes) {
  const long max = (1L << 35) / static_cast<long>(bytes);
  nd::Pos out(n, 1);
  if (bytes == 1 && g.chance(1, 4)) {
    // One length which is small modulo 2^32
    for (auto& e : out) {
      e = n > 3 ? g.i(1, 2) : n == 3 ? g.i(1, 3) : g.i(1, 6);
    }
    out[g.i(0, n - 1)] = (1L << 32) + g.i(0, 12);
    return out;
  }
  long total = 1;
  long left = g.chance(1, 8) ? g.i(1L << 30, max) : g.i(1L << 31, max);
  for (std::size_t k = 0; k < n; ++k) {
    const std::size_t i = n - 1 - k;
    const long room = std::max(1L, left / total);
    long bits = 0;
    while ((2L << bits) <= room) {
      ++bits;
    }
    const long b = k + 1 == n ? bits : g.i(0, bits);
    out[i] = k + 1 == n ? room : std::min(room, (1L << b) + g.i(0, (1L << b) - 1));
    total *= out[i];
  }
  if (g.coin()) {
    std::reverse(out.begin(), out.end());
  } else if (n > 2 && g.coin()) {
    std::rotate(out.begin(), out.begin() + 1, out.end());
  }
  return out;
}

long far(pbt::Gen& g, long length) {
  switch (g.draw(4)) {
    case 0:
      return length - 1 - g.i(0, std::min(length - 1, 5L));
    case 1:
      return g.i(0, std::min(length - 1, 5L));
    default:
      return g.i(0, length - 1);
  }
}

nd::Pos position(pbt::Gen& g, const nd::Pos& shape) {
  nd::Pos out;
  for (auto l : shape) {
    out.push_back(far(g, l));
  }
  return out;
}

/// Small region of a huge shape.
std::pair<nd::Pos, nd::Pos> smallRegion(pbt::Gen& g, const nd::Pos& shape) {
  auto a = position(g, shape), b = a;
  for (std::size_t i = 0; i < a.size(); ++i) {
    b[i] = std::min(shape[i] - 1, a[i] + g.i(0, 3));
  }
  return {a, b};
}

long stride(const nd::Pos& shape, std::size_t axis) {
  long out = 1;
  for (std::size_t i = 0; i < axis; ++i) {
    out *= shape[i];
  }
  return out;
}

template <typename T, Index N>
class Checker {
public:
  using R = PtrRaster<T, N>;

  Checker(pbt::Gen& gen, R& r, const nd::Pos& s) : g(gen), raster(r), shape(s), n(s.size()), data(r.data()) {}

  void access() {
    const auto size = nd::size(shape);
    REQUIRE_EQ(static_cast<long>(raster.size()), size, "size");
    REQUIRE_EQ(static_cast<long>(raster.end() - raster.begin()), size, "range");
    REQUIRE(nd::from(raster.shape()) == shape, "shape");
    REQUIRE_EQ(static_cast<long>(raster.domain().size()), size, "size of the domain");
    REQUIRE_EQ(static_cast<long>(shapeSize(raster.shape())), size, "shapeSize");
    for (std::size_t i = 0; i < n; ++i) {
      REQUIRE_EQ(static_cast<long>(shapeStride(raster.shape(), i)), stride(shape, i), "stride along " << i);
      REQUIRE_EQ(static_cast<long>(raster.length(i)), shape[i], "length along " << i);
    }
    const auto p = position(g, shape);
    const auto o = nd::offset(shape, p);
    NOTE("access " << nd::str(p));
    const auto q = nd::to<N>(p);
    const R& constant = raster;
    REQUIRE_EQ(static_cast<long>(raster.index(q)), o, "index");
    REQUIRE_EQ(&raster[q] - data, o, "[position]");
    REQUIRE_EQ(&constant[q] - data, o, "const [position]");
    REQUIRE_EQ(&raster[o] - data, o, "[index]");
    REQUIRE_EQ(&raster.at(q) - data, o, "at(position)");
    auto back = p;
    for (std::size_t i = 0; i < n; ++i) {
      if (g.coin()) {
        back[i] -= shape[i];
      }
    }
    REQUIRE_EQ(&raster.at(nd::to<N>(back)) - data, o, "at(" << nd::str(back) << ")");
    REQUIRE_EQ(&raster.at(o) - data, o, "at(index)");
    REQUIRE_EQ(&constant.at(o - size) - data, o, "at(index - size)");
    REQUIRE(raster.contains(q), "contains");
    auto out = p;
    const auto axis = g.i(0, n - 1);
    out[axis] = g.coin() ? shape[axis] + g.pick<long>({0, 1, 1L << 31, 1L << 32, 1L << 40}) : -g.pick<long>({1, 2, 1L << 31, 1L << 32, 1L << 40});
    REQUIRE(!raster.contains(nd::to<N>(out)), "contains " << nd::str(out));
    bool thrown = false;
    const long outside = size + g.pick<long>({0, 1, 1L << 31, 1L << 32, 1L << 40});
    try {
      raster.at(g.coin() ? outside : -1 - outside);
    } catch (OutOfBoundsError&) {
      thrown = true;
    }
    REQUIRE(thrown, "index " << outside << " or its opposite is accepted");
  }

  void sections() {
    const R& constant = raster;
    const auto last = shape.back();
    const auto front = far(g, last);
    const auto back = g.i(front, g.coin() ? last - 1 : std::min(last - 1, front + 3));
    NOTE("section " << front << "-" << back);
    const auto area = stride(shape, n - 1);
    auto s = shape;
    s.back() = back - front + 1;
    auto section = raster.section(front, back);
    REQUIRE(nd::from(section.shape()) == s, "shape of the section");
    REQUIRE_EQ(section.data() - data, front * area, "location of the section");
    REQUIRE_EQ(static_cast<long>(section.size()), nd::size(s), "size of the section");
    REQUIRE(constant.section(front, back).data() == section.data(), "read-only section");
    const auto p = position(g, s);
    REQUIRE_EQ(&section[nd::to<N>(p)] - data, front * area + nd::offset(s, p), "pixel of the section");
    hyperplane(front, area, std::integral_constant<bool, N != 1> {});
  }

  void subrasters() {
    const auto box = smallRegion(g, shape);
    NOTE("subraster " << nd::str(box.first) << "-" << nd::str(box.second));
    const auto all = nd::positions(box.first, box.second);
    auto sub = raster.subraster(Box<N>(nd::to<N>(box.first), nd::to<N>(box.second)));
    REQUIRE_EQ(static_cast<std::size_t>(sub.size()), all.size(), "size of the subraster");
    std::size_t k = 0;
    T v(0);
    for (auto& e : sub) {
      REQUIRE(k < all.size(), "subraster does not end");
      REQUIRE_EQ(&e - data, nd::offset(shape, all[k]), "pixel " << k << " of the subraster");
      e = ++v;
      ++k;
    }
    REQUIRE_EQ(k, all.size(), "number of pixels");
    k = 0;
    for (const auto& p : all) {
      REQUIRE(raster[nd::to<N>(p)] == static_cast<T>(++k), "value at " << nd::str(p));
      REQUIRE(&sub[nd::to<N>(minus(p, box.first))] == data + nd::offset(shape, p), "subscript");
    }
    // Huge regions
    const auto other = position(g, shape);
    auto front = box.first, back = other;
    for (std::size_t i = 0; i < n; ++i) {
      if (front[i] > back[i]) {
        std::swap(front[i], back[i]);
      }
    }
    for (std::size_t i = 0; i < n; ++i) {
      // Length which is small modulo 2^32
      if (shape[i] > (1L << 32) && g.chance(3, 4)) {
        front[i] = g.i(0, std::min(shape[i] - (1L << 32) - 1, 8L));
        back[i] = std::min(front[i] + (1L << 32) + g.i(0, 8) - 1, shape[i] - 1);
      }
    }
    NOTE(" and " << nd::str(front) << "-" << nd::str(back));
    long size = 1;
    for (std::size_t i = 0; i < n; ++i) {
      size *= back[i] - front[i] + 1;
    }
    auto large = raster.subraster(Box<N>(nd::to<N>(front), nd::to<N>(back)));
    REQUIRE_EQ(static_cast<long>(large.size()), size, "size of the huge subraster");
    auto it = begin(large);
    for (long i = 0; i < std::min(size, 20L); ++i, ++it) {
      auto p = front;
      long q = i;
      for (std::size_t a = 0; a < n; ++a) {
        p[a] += q % (back[a] - front[a] + 1);
        q /= back[a] - front[a] + 1;
      }
      REQUIRE_EQ(&*it - data, nd::offset(shape, p), "pixel " << i << " of the huge subraster");
    }
  }

  void slices() {
    slice(std::integral_constant<bool, (N > 1)> {});
  }

  void extrapolations() {
    nd::Pos p(n), nearest(n), periodic(n);
    bool inside = true;
    for (std::size_t i = 0; i < n; ++i) {
      p[i] = g.coin() ? far(g, shape[i]) : g.pick<long>({-1, 1}) * g.i(0, g.coin() ? 1L << 42 : 2 * shape[i]);
      nearest[i] = std::min(std::max(p[i], 0L), shape[i] - 1);
      periodic[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      inside = inside && p[i] >= 0 && p[i] < shape[i];
    }
    NOTE("extrapolate " << nd::str(p));
    const auto q = nd::to<N>(p);
    const R& constant = raster;
    const auto a = extrapolate<NearestNeighbor>(constant);
    REQUIRE_EQ(&a[q] - data, nd::offset(shape, nearest), "nearest neighbor");
    const auto b = extrapolate<Periodic>(constant);
    REQUIRE_EQ(&b[q] - data, nd::offset(shape, periodic), "periodic");
    const auto c = extrapolate(constant, T(7));
    if (inside) {
      REQUIRE_EQ(&c[q] - data, nd::offset(shape, p), "constant, inside");
    } else {
      REQUIRE(c[q] == T(7), "constant, outside");
    }
    const auto clamped = nd::from(clamp(q, constant.shape()));
    REQUIRE(clamped == nearest, "clamp");
    interpolations(std::integral_constant<bool, (N > 0)> {});
  }

  void samples() {
    // Along a random axis, from a random position
    const auto axis = g.i(0, n - 1);
    auto p = position(g, shape);
    p[axis] = 0;
    const auto length = shape[axis];
    const auto s = stride(shape, axis);
    IndexSampling sampling;
    sampling.front = far(g, length);
    sampling.step = g.coin() ? g.i(1, 4) : g.i(1, length);
    sampling.back = std::min(length - 1, sampling.front + g.i(0, 10) * sampling.step + g.i(0, sampling.step - 1));
    NOTE("samples along " << axis << " from " << nd::str(p) << " " << sampling.front << ":" << sampling.back << ":" << sampling.step);
    T* const base = data + nd::offset(shape, p);
    DataSamples<T> samples(base, length, sampling, s);
    const long count = (sampling.back - sampling.front) / sampling.step + 1;
    REQUIRE_EQ(static_cast<long>(sampling.size()), count, "size of the sampling");
    REQUIRE_EQ(static_cast<long>(samples.count()), count, "number of samples");
    long i = 0;
    for (auto& e : samples) {
      REQUIRE(i < count, "too many samples");
      REQUIRE_EQ(&e - data, nd::offset(shape, p) + (sampling.front + i * sampling.step) * s, "sample " << i);
      e = static_cast<T>(++i);
    }
    REQUIRE_EQ(i, count, "number of samples");
    auto it = samples.begin();
    const auto jump = g.i(0, count - 1);
    it += jump;
    REQUIRE(*it == static_cast<T>(jump + 1), "sample " << jump);
    // The samples are the only non null pixels around
    if (sampling.step == 1 || count == 1) {
      return;
    }
    const LineKernel<long> kernel({1, 2, 4}, 1);
    std::vector<long> values(count);
    DataSamples<long> out(values.data(), values.size());
    const DataSamples<T>& in = samples;
    kernel.correlate(in, out);
    for (long k = 0; k < count; ++k) {
      const auto at = sampling.front + k * sampling.step;
      long expected = 0;
      for (long d = -1; d <= 1; ++d) {
        if (at + d >= 0 && at + d < length) {
          expected += base[(at + d) * s] * (1L << (d + 1));
        }
      }
      REQUIRE_EQ(values[k], expected, "correlation at " << at);
    }
  }

  void kernels() {
    // A small raster far away
    const auto area = std::max<long>(1, nd::size(shape) - 64);
    const auto start = g.i(area / 2, area);
    std::vector<long> weights {1, 2, 4};
    PtrRaster<T, 1> line({16}, data + start);
    line.range(T(1));
    const auto kernel = kernelize(weights.data(), Box<1>({-1}, {1}));
    const auto out = kernel * extrapolate(line, T(0));
    for (long i = 0; i < 16; ++i) {
      const long expected = (i > 0 ? i : 0) + 2 * (i + 1) + (i < 15 ? 4 * (i + 2) : 0);
      REQUIRE_EQ(out[i], expected, "correlation far from the origin");
    }
  }

private:
  static nd::Pos minus(const nd::Pos& a, const nd::Pos& b) {
    nd::Pos out(a);
    for (std::size_t i = 0; i < a.size(); ++i) {
      out[i] -= b[i];
    }
    return out;
  }

  void hyperplane(long, long, std::false_type) {}
  void hyperplane(long index, long area, std::true_type) {
    if (n < 2) {
      return;
    }
    auto plane = raster.section(index);
    const R& constant = raster;
    REQUIRE_EQ(plane.data() - data, index * area, "location of the section " << index);
    REQUIRE_EQ(static_cast<long>(plane.size()), area, "size of the section " << index);
    REQUIRE(constant.section(index).data() == plane.data(), "read-only section " << index);
  }

  void slice(std::false_type) {}
  void slice(std::true_type) {
    // Hyperplane, or line along axis 0
    auto p = position(g, shape);
    nd::Pos front = p, back = p;
    const bool line = N == 2 || g.coin();
    const std::size_t flat = line ? 1 : N - 1;
    for (std::size_t i = 0; i < n; ++i) {
      if (i < flat) {
        front[i] = i + 1 < flat ? 0 : front[i];
        back[i] = i + 1 < flat ? shape[i] - 1 : g.i(front[i], shape[i] - 1);
      }
    }
    NOTE("slice " << nd::str(front) << "-" << nd::str(back));
    const Box<N> box(nd::to<N>(front), nd::to<N>(back));
    const R& constant = raster;
    const auto o = nd::offset(shape, front);
    if (line) {
      REQUIRE(raster.template isContiguous<1>(box), "contiguous line");
      auto s = raster.template slice<1>(box);
      REQUIRE_EQ(s.data() - data, o, "location of the line");
      REQUIRE_EQ(static_cast<long>(s.size()), back[0] - front[0] + 1, "length of the line");
      REQUIRE(constant.template slice<1>(box).data() == s.data(), "read-only line");
    } else {
      constexpr Index M = N > 1 ? N - 1 : 1;
      REQUIRE(raster.template isContiguous<M>(box), "contiguous slice");
      auto s = raster.template slice<M>(box);
      REQUIRE_EQ(s.data() - data, o, "location of the slice");
      long size = 1;
      for (std::size_t i = 0; i < n; ++i) {
        size *= back[i] - front[i] + 1;
      }
      REQUIRE_EQ(static_cast<long>(s.size()), size, "size of the slice");
      REQUIRE(constant.template slice<M>(box).data() == s.data(), "read-only slice");
    }
  }

  void interpolations(std::false_type) {}
  void interpolations(std::true_type) {
    auto p = position(g, shape);
    for (auto& e : p) {
      if (e > 3 && g.coin()) {
        e -= 2;
      }
    }
    const R& constant = raster;
    const auto extrapolated = extrapolate<NearestNeighbor>(constant);
    const auto linear = interpolate<Linear>(extrapolated);
    const auto cubic = interpolate<Cubic>(extrapolated);
    const auto nearest = interpolate<NearestNeighbor>(extrapolated);
    // A linear ramp along one axis, around the position
    const auto axis = g.i(0, n - 1);
    Vector<double, N> x(static_cast<Index>(n));
    for (std::size_t i = 0; i < n; ++i) {
      x[i] = p[i];
    }
    const auto s = stride(shape, axis);
    T* const base = data + nd::offset(shape, p);
    double v[4];
    for (long d = -1; d <= 2; ++d) {
      const long c = std::min(std::max(p[axis] + d, 0L), shape[axis] - 1);
      T& e = base[(c - p[axis]) * s];
      e = static_cast<T>(10 + 3 * (c - p[axis]));
    }
    for (long d = -1; d <= 2; ++d) {
      const long c = std::min(std::max(p[axis] + d, 0L), shape[axis] - 1);
      v[d + 1] = base[(c - p[axis]) * s];
    }
    const double d = g.i(0, 3) / 4.;
    x[axis] += d;
    NOTE("interpolate " << nd::str(p) << " plus " << d << " along " << axis);
    REQUIRE(std::abs(linear(x) - (v[1] + d * (v[2] - v[1]))) < 1e-5, "linear interpolation: " << linear(x));
    REQUIRE(nearest(x) == (d < .5 ? v[1] : v[2]), "nearest interpolation: " << nearest(x));
    const double e = v[1] +
        .5 * (d * (v[2] - v[0]) + d * d * (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) +
              d * d * d * (3 * v[1] - v[0] - 3 * v[2] + v[3]));
    REQUIRE(std::abs(cubic(x) - e) < 1e-4, "cubic interpolation: " << cubic(x) << " instead of " << e);
  }

  pbt::Gen& g;
  R& raster;
  const nd::Pos& shape;
  const std::size_t n;
  T* const data;
};

template <typename T, Index N>
void law(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  const auto shape = hugeShape(g, n, sizeof(T));
  NOTE("shape " << nd::str(shape) << " ");
  const Space space(nd::size(shape) * sizeof(T));
  PtrRaster<T, N> raster(nd::to<N>(shape), static_cast<T*>(space.data()));
  Checker<T, N> c(g, raster, shape);
  g.nontrivial(n > 1 && nd::size(shape) >= (1L << 31));
  const auto count = g.i(1, 4);
  for (long k = 0; k < count; ++k) {
    NOTE("; ");
    switch (g.draw(6)) {
      case 0:
        c.access();
        break;
      case 1:
        c.sections();
        break;
      case 2:
        c.subrasters();
        break;
      case 3:
        c.slices();
        break;
      case 4:
        c.extrapolations();
        break;
      case 5:
        c.samples();
        break;
      default:
        c.kernels();
    }
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C36, bytes_low, 1) {
  g.coin() ? law<std::uint8_t, 1>(g) : law<std::uint8_t, 2>(g);
}
#elif PBT_PART == 1
PBT_LAW(C36, bytes_high, 1) {
  g.coin() ? law<std::uint8_t, 3>(g) : law<std::uint8_t, 4>(g);
}
#elif PBT_PART == 2
PBT_LAW(C36, bytes_variable, 1) {
  law<std::uint8_t, -1>(g);
}
#else
PBT_LAW(C36, words, .5) {
  g.coin() ? law<std::uint32_t, 2>(g) : law<float, 3>(g);
}
#endif
