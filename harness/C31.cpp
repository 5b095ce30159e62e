// C31: operations do not depend on where the elements of their operands are stored, and stay within them.
#include "nd.h"

#include "LitlContainer/Sequence.h"
#include "LitlRaster/Sampling.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"

#include <sanitizer/asan_interface.h>

using namespace Litl;

namespace {

/// Elements surrounded by forbidden memory: reading or writing there is reported by the address sanitizer.
template <typename T>
class Guarded {
public:
  explicit Guarded(const std::vector<T>& values, std::size_t shift = 0) : m_size(values.size()) {
    m_memory = static_cast<char*>(std::malloc(bytes()));
    m_front = 64 + (64 - reinterpret_cast<std::uintptr_t>(m_memory) % 64) % 64 + shift * sizeof(T);
    std::copy(values.begin(), values.end(), data());
    ASAN_POISON_MEMORY_REGION(m_memory, m_front);
    const auto end = m_front + m_size * sizeof(T);
    ASAN_POISON_MEMORY_REGION(m_memory + end, bytes() - end);
  }
  Guarded(const Guarded&) = delete;
  Guarded& operator=(const Guarded&) = delete;
  ~Guarded() {
    ASAN_UNPOISON_MEMORY_REGION(m_memory, bytes());
    std::free(m_memory);
  }
  T* data() {
    return reinterpret_cast<T*>(m_memory + m_front);
  }
  std::size_t size() const {
    return m_size;
  }

private:
  std::size_t bytes() const {
    return 320 + m_size * sizeof(T);
  }
  std::size_t m_size;
  char* m_memory;
  std::size_t m_front;
};

constexpr int storages = 8;
const char* storageName(int how) {
  static const char* names[] = {
      "VecRaster",
      "ValRaster",
      "owning AlignedRaster",
      "sharing AlignedRaster",
      "PtrRaster",
      "section of a raster",
      "section of a PtrRaster",
      "slice of a raster"};
  return names[how];
}

/**
 * Call f(raster) where the raster stores the values in some way.
 * Returns the values at the end, and checks that the rest of the memory is as it was.
 */
template <typename T, Index N, typename TFunc>
std::vector<T> store(pbt::Gen& g, int how, const nd::Pos& shape, const std::vector<T>& values, TFunc&& f) {
  const auto pos = nd::to<N>(shape);
  std::vector<T> out(values.size());
  switch (how) {
    case 0: {
      VecRaster<T, N> r(pos, values);
      f(r);
      std::copy(r.begin(), r.end(), out.begin());
      return out;
    }
    case 1: {
      ValRaster<T, N> r(pos, values.data());
      f(r);
      std::copy(r.begin(), r.end(), out.begin());
      return out;
    }
    case 2: {
      AlignedRaster<T, N> r(pos, values);
      f(r);
      REQUIRE(r.owns(), "the raster does not own its data anymore");
      std::copy(r.begin(), r.end(), out.begin());
      return out;
    }
    case 3:
    case 4: {
      Guarded<T> memory(values, g.draw(sizeof(T) < 8 ? 0 : 3));
      if (how == 3) {
        AlignedRaster<T, N> r(pos, memory.data());
        f(r);
        REQUIRE(!r.owns() && r.data() == memory.data(), "the raster does not share the data anymore");
      } else {
        PtrRaster<T, N> r(pos, memory.data());
        f(r);
        REQUIRE(r.data() == memory.data(), "the raster does not point to the data anymore");
      }
      std::copy_n(memory.data(), out.size(), out.begin());
      return out;
    }
    default: {
      // Sections and slices of a larger raster
      const long before = g.i(0, 2), after = g.i(0, 2), plane = values.size() / shape.back();
      auto parentShape = shape;
      parentShape.back() += before + after;
      std::vector<T> all(plane * parentShape.back());
      for (std::size_t i = 0; i < all.size(); ++i) {
        all[i] = static_cast<T>(91 + i % 7);
      }
      std::copy(values.begin(), values.end(), all.begin() + before * plane);
      auto parentValues = all;
      const auto parentPos = nd::to<N>(parentShape);
      const long last = before + shape.back() - 1;
      if (how == 5) {
        VecRaster<T, N> parent(parentPos, all);
        auto r = parent.section(before, last);
        f(r);
        std::copy(parent.begin(), parent.end(), all.begin());
      } else if (how == 6) {
        PtrRaster<T, N> parent(parentPos, all.data());
        auto r = parent.section(before, last);
        f(r);
      } else {
        VecRaster<T, N> parent(parentPos, all);
        nd::Pos front(shape.size(), 0), back = shape;
        for (auto& e : back) {
          --e;
        }
        front.back() = before;
        back.back() = last;
        auto r = parent.template slice<N>(Box<N>(nd::to<N>(front), nd::to<N>(back)));
        f(r);
        std::copy(parent.begin(), parent.end(), all.begin());
      }
      for (std::size_t i = 0; i < all.size(); ++i) {
        if (static_cast<long>(i) >= before * plane && i < before * plane + values.size()) {
          out[i - before * plane] = all[i];
        } else {
          REQUIRE(all[i] == parentValues[i], "element " << i << " of the parent, out of the section, changed");
        }
      }
      return out;
    }
  }
}

/// Results of an operation, for comparison.
struct Digest {
  std::vector<double> values;
  template <typename T>
  std::enable_if_t<std::is_arithmetic<T>::value> add(T v) {
    values.push_back(static_cast<double>(v));
  }
  template <typename T>
  void add(std::complex<T> v) {
    add(v.real());
    add(v.imag());
  }
  template <typename TIt>
  void add(TIt b, TIt e) {
    for (; b != e; ++b) {
      add(*b);
    }
  }
  template <typename T, Index N, typename H>
  void add(const Raster<T, N, H>& r) {
    add(r.shape().begin(), r.shape().end());
    add(r.begin(), r.end());
  }
};

bool operator==(const Digest& a, const Digest& b) {
  return a.values.size() == b.values.size() && std::equal(a.values.begin(), a.values.end(), b.values.begin(), [](double x, double y) {
           return x == y || (x != x && y != y);
         });
}

std::ostream& operator<<(std::ostream& o, const Digest& d) {
  return o << pbt::showAll(d.values);
}

template <typename T>
std::vector<T> draw(pbt::Gen& g, std::size_t n) {
  std::vector<T> out(n);
  for (auto& e : out) {
    e = nd::pixel<T>(g, -20, 20);
  }
  return out;
}

/// Parameters of the operations on a raster of given shape.
template <typename T, Index N>
struct Parameters {
  Parameters(pbt::Gen& g, const nd::Pos& shape) :
      constant(nd::pixel<T>(g, -5, 9)), axis(g.i(0, N - 1)), kernelShape(nd::shape(g, N, 9, 1, false)),
      kernelOrigin(nd::inShape(g, kernelShape)), kernel(draw<T>(g, nd::size(kernelShape))), region(genRegion(g, shape)) {
    for (int k = 0; k < 6; ++k) {
      nd::Pos p(N);
      Vector<double, N> x(N);
      for (std::size_t i = 0; i < p.size(); ++i) {
        p[i] = g.chance(1, 3) ? g.z(-2 * shape[i], 3 * shape[i]) : g.i(0, shape[i] - 1);
        x[i] = g.i(-16, 8 * shape[i] + 16) / 8.;
      }
      positions.push_back(nd::to<N>(p));
      reals.push_back(x);
    }
  }
  static Box<N> genRegion(pbt::Gen& g, const nd::Pos& shape) {
    const auto box = nd::region(g, shape);
    return Box<N>(nd::to<N>(box.first), nd::to<N>(box.second));
  }
  T constant;
  Index axis;
  nd::Pos kernelShape, kernelOrigin;
  std::vector<T> kernel;
  std::vector<Position<N>> positions;
  std::vector<Vector<double, N>> reals;
  Box<N> region;
};

/// Read-only operations.
template <typename T, Index N, typename R>
void read(int op, const Parameters<T, N>& p, const R& in, Digest& out) {
  switch (op) {
    case 0: { // Properties and access
      out.add(in.size());
      out.add(in.shape().begin(), in.shape().end());
      out.add(in.begin(), in.end());
      out.add(in.front());
      out.add(in.back());
      for (const auto& q : p.positions) {
        out.add(in.contains(q));
        out.add(in.index(q));
        if (in.contains(q)) {
          out.add(in[q]);
          out.add(in.at(q));
        }
      }
      return;
    }
    case 1: { // Statistics
      out.add(in.min());
      out.add(in.max());
      out.add(in.minmax().first);
      auto d = in.distribution();
      out.add(d.mean());
      out.add(d.median());
      out.add(d.mad());
      out.add(d.variance());
      const auto h = d.histogram(std::vector<T> {T(0), T(2), T(7)});
      out.add(h.begin(), h.end());
      return;
    }
    case 2: { // Views
      out.add(in.section(p.region.front()[N - 1], p.region.back()[N - 1]));
      const auto sub = in.subraster(p.region);
      out.add(sub.size());
      const auto e = end(sub);
      for (auto it = begin(sub); it != e; ++it) {
        out.add(*it);
      }
      out.add(in.template isContiguous<N>(p.region));
      for (const auto& q : p.region) {
        out.add(in[q]);
      }
      return;
    }
    case 3: { // Extrapolation
      const auto nearest = extrapolate<NearestNeighbor>(in);
      const auto periodic = extrapolate<Periodic>(in);
      const auto constant = extrapolate(in, p.constant);
      for (const auto& q : p.positions) {
        out.add(nearest[q]);
        out.add(periodic[q]);
        out.add(constant[q]);
      }
      return;
    }
    case 4: { // Interpolation
      const auto periodic = extrapolate<Periodic>(in);
      const auto nearest = interpolate<NearestNeighbor>(periodic);
      const auto linear = interpolate<Linear>(periodic);
      const auto cubic = interpolate<Cubic>(periodic);
      for (const auto& x : p.reals) {
        out.add(nearest(x));
        out.add(linear(x));
        out.add(cubic(x));
      }
      return;
    }
    case 5: { // Correlation
      const auto k = kernelize(Raster<T, N>(nd::to<N>(p.kernelShape), p.kernel), nd::to<N>(p.kernelOrigin));
      out.add(k * extrapolate<NearestNeighbor>(in));
      out.add(k * extrapolate<Periodic>(in));
      return;
    }
    case 6: { // Kernel made of the raster
      const auto k = kernelize(in, p.region.front());
      out.add(k.raster());
      const auto kc = kernelize(in);
      Raster<T, N> image(nd::to<N>(p.kernelShape), p.kernel);
      out.add(k * extrapolate(image, p.constant));
      out.add(kc * extrapolate<Periodic>(image));
      return;
    }
    case 7: { // Median
      MedianFilter<T, N> filter(Box<N>(nd::to<N>(p.kernelOrigin) - nd::to<N>(p.kernelShape) + 1, nd::to<N>(p.kernelOrigin)));
      out.add(filter.apply(extrapolate<NearestNeighbor>(in)));
      Raster<T, N> part(in.shape());
      filter.applyTo(extrapolate<Periodic>(in), part, p.region);
      out.add(part);
      return;
    }
    case 8: { // Separable kernels
      const LineKernel<T> line(p.kernel, static_cast<Index>(p.kernel.size() / 2));
      out.add(line.template along<N - 1>() * in);
      const Kernel1d<T> k(p.kernel, p.kernel.size() - 1);
      out.add(k.template correlateAlong<0>(in));
      out.add(SeparableKernel<T, 0>::laplacian() * in);
      return;
    }
    case 9: { // Operand
      Raster<T, N> x(in.shape());
      x.fill(p.constant);
      x.apply(
          [](auto a, auto b) {
            return static_cast<T>(a + b);
          },
          in);
      out.add(x);
      x.generate(
          [](auto a, auto b) {
            return static_cast<T>(a * b);
          },
          in,
          in);
      out.add(x);
      out.add(x == in);
      out.add(in != x);
      const VecRaster<T, N> copy(in.shape(), in);
      out.add(copy);
      out.add(copy == in);
      std::ostringstream text;
      text << in;
      for (auto c : text.str()) {
        out.add(static_cast<int>(c));
      }
      return;
    }
    default:
      return;
  }
}

template <typename T, Index N>
void reading(pbt::Gen& g) {
  const auto shape = nd::shape(g, N, 60);
  const auto values = draw<T>(g, nd::size(shape));
  const Parameters<T, N> p(g, shape);
  const int op = g.draw(9);
  const int how = 1 + g.draw(storages - 2);
  NOTE("N=" << N << " shape=" << nd::str(shape) << " values=" << pbt::showAll(values) << " operation=" << op << " storage="
            << storageName(how) << " region=" << pbt::showAll(p.region.front()) << "-" << pbt::showAll(p.region.back()));
  g.nontrivial(values.size() > 1);
  g.label(storageName(how));
  Digest expected, got;
  {
    const VecRaster<T, N> reference(nd::to<N>(shape), values);
    read<T, N>(op, p, reference, expected);
    REQUIRE(std::equal(values.begin(), values.end(), reference.begin()), "the reference is modified");
  }
  const auto after = store<T, N>(g, how, shape, values, [&](auto& r) {
    read<T, N>(op, p, static_cast<const std::decay_t<decltype(r)>&>(r), got);
    REQUIRE(nd::from(r.shape()) == shape, "the shape is modified");
  });
  REQUIRE(got == expected, "the result depends on the storage: " << got << " instead of " << expected);
  REQUIRE(after == values, "read-only operand modified: " << pbt::showAll(after));
}

/// Operations which write to an existing raster.
template <typename T, Index N, typename R>
void write(int op, const Parameters<T, N>& p, const Raster<T, N>& in, R& out) {
  switch (op) {
    case 0: {
      const auto k = kernelize(Raster<T, N>(nd::to<N>(p.kernelShape), p.kernel), nd::to<N>(p.kernelOrigin));
      k.correlateTo(extrapolate<NearestNeighbor>(in), out);
      return;
    }
    case 1: {
      MedianFilter<T, N> filter(Box<N>(nd::to<N>(p.kernelOrigin) - nd::to<N>(p.kernelShape) + 1, nd::to<N>(p.kernelOrigin)));
      filter.applyTo(extrapolate<Periodic>(in), out, p.region);
      return;
    }
    case 2:
      out.fill(p.constant);
      return;
    case 3:
      out += R(in.shape(), const_cast<T*>(in.data()));
      out *= T(3);
      ++out;
      return;
    case 4:
      for (const auto& q : p.region) {
        out[q] = p.constant;
      }
      out.at(p.region.front()) = T(1);
      out.back() = T(2);
      return;
    case 5: {
      auto sub = out.subraster(p.region);
      const auto e = end(sub);
      for (auto it = begin(sub); it != e; ++it) {
        *it += p.constant;
      }
      return;
    }
    case 6: {
      auto section = out.section(p.region.front()[N - 1], p.region.back()[N - 1]);
      section.range(p.constant, T(1));
      return;
    }
    case 7:
      out.apply(
          [](auto a, auto b) {
            return a > b ? a : b;
          },
          in);
      return;
    case 8:
      out.range(T(1), T(0));
      out.linspace(T(0), T(in.size() % 100));
      return;
    default:
      out.max(p.constant);
      out.min(in);
  }
}

template <typename T, Index N>
void writing(pbt::Gen& g) {
  const auto shape = nd::shape(g, N, 60);
  const auto values = draw<T>(g, nd::size(shape));
  const auto operand = draw<T>(g, nd::size(shape));
  const Parameters<T, N> p(g, shape);
  const int op = g.draw(9);
  const int how = 1 + g.draw(storages - 2);
  NOTE("N=" << N << " shape=" << nd::str(shape) << " values=" << pbt::showAll(values) << " operand=" << pbt::showAll(operand)
            << " operation=" << op << " storage=" << storageName(how) << " region=" << pbt::showAll(p.region.front()) << "-"
            << pbt::showAll(p.region.back()));
  g.nontrivial(values.size() > 1);
  g.label(storageName(how));
  const Raster<T, N> in(nd::to<N>(shape), operand);
  const auto run = [&](int h) {
    return store<T, N>(g, h, shape, values, [&](auto& r) {
      write<T, N>(op, p, in, r);
      REQUIRE(nd::from(r.shape()) == shape, "the shape is modified");
    });
  };
  const auto expected = run(0);
  const auto got = run(how);
  REQUIRE(got == expected, "the result depends on the storage: " << pbt::showAll(got) << " instead of " << pbt::showAll(expected));
  REQUIRE(std::equal(operand.begin(), operand.end(), in.begin()), "the operand is modified");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C31, read_int_2d, 1) {
  reading<int, 2>(g);
}
#elif PBT_PART == 1
PBT_LAW(C31, read_double_3d, 1) {
  reading<double, 3>(g);
}
#elif PBT_PART == 2
PBT_LAW(C31, write_int_2d, 1) {
  writing<int, 2>(g);
}
PBT_LAW(C31, write_double_1d, 1) {
  writing<double, 1>(g);
}
#elif PBT_PART == 3
PBT_LAW(C31, read_float_2d, 1) {
  reading<float, 2>(g);
}
#else
PBT_LAW(C31, write_float_3d, 1) {
  writing<float, 3>(g);
}
#endif
