// C04: checked access accepts exactly the positions and indices of the container, backward ones included.
#include "nd.h"

#include "LitlContainer/Sequence.h"

using namespace Litl;

namespace {

/// 0: value; 1: OutOfBoundsError; 2: other exception
template <typename TFunc>
std::pair<int, const void*> attempt(TFunc&& f) {
  try {
    return {0, f()};
  } catch (const OutOfBoundsError& e) {
    if (std::string(e.what()).empty()) {
      return {2, nullptr};
    }
    return {1, nullptr};
  } catch (const std::exception&) {
    return {2, nullptr};
  }
}

void check(std::pair<int, const void*> got, const void* expected, const char* what) {
  if (expected) {
    REQUIRE(got.first == 0, what << " throws for a valid position");
    REQUIRE(got.second == expected, what << " returns the wrong element");
  } else {
    REQUIRE(got.first == 1, what << (got.first ? " throws something else than OutOfBoundsError" : " does not throw"));
  }
}

long genCoordinate(pbt::Gen& g, long s) {
  switch (g.draw(9)) {
    case 0:
      return g.pick<long>({-s, s - 1, 0, -1});
    case 1:
      return g.pick<long>({s, -s - 1, s + 1, -2 * s, 2 * s, 2 * s - 1});
    case 2:
      return g.pick<long>({1L << 32, -(1L << 32), (1L << 32) - 1, std::numeric_limits<long>::max(),
                           std::numeric_limits<long>::min(), -(1L << 32) - 1});
    default:
      return s > 0 ? g.z(-s, s - 1) : g.z(-2, 2);
  }
}

template <typename T, Index N>
void raster(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N), 300);
  const auto n = shape.size();
  Raster<T, N> r(nd::to<N>(shape));
  const auto& c = r;
  nd::Pos p(n), wrapped(n);
  bool valid = true, backward = false;
  for (std::size_t i = 0; i < n; ++i) {
    p[i] = genCoordinate(g, shape[i]);
    valid = valid && p[i] >= -shape[i] && p[i] < shape[i];
    backward = backward || p[i] < 0;
    wrapped[i] = p[i] < 0 ? p[i] + shape[i] : p[i];
  }
  NOTE("N=" << N << " shape=" << nd::str(shape) << " pos=" << nd::str(p));
  g.label(valid ? (backward ? "backward" : "forward") : "out of bounds");
  g.nontrivial(!valid || backward);
  const void* expected = valid ? r.data() + nd::offset(shape, wrapped) : nullptr;
  const auto pos = nd::to<N>(p);
  check(attempt([&] { return &r.at(pos); }), expected, "at()");
  check(attempt([&] { return &c.at(pos); }), expected, "const at()");
  REQUIRE(nd::from(pos) == p, "at() changes the position");
  if (valid) {
    r.at(pos) = 1;
    for (std::size_t i = 0; i < r.size(); ++i) {
      REQUIRE((r.data()[i] != 0) == (r.data() + i == expected), "write through at() at index " << i);
    }
  }
}

template <typename TContainer>
void linear(pbt::Gen& g, TContainer&& r, long size) {
  const auto& c = r;
  const long i = genCoordinate(g, size);
  NOTE("size=" << size << " index=" << i);
  const bool valid = i >= -size && i < size;
  g.nontrivial(!valid || i < 0);
  const void* expected = valid ? r.data() + (i < 0 ? i + size : i) : nullptr;
  check(attempt([&] { return &r.at(i); }), expected, "at(index)");
  check(attempt([&] { return &c.at(i); }), expected, "const at(index)");
}

} // namespace

PBT_LAW(C04, position, 3) {
  switch (g.draw(8)) {
    case 6:
      return raster<short, 6>(g);
    case 7:
      return raster<long, 7>(g);
    case 0:
      return raster<int, 1>(g);
    case 1:
      return raster<int, 2>(g);
    case 2:
      return raster<double, 3>(g);
    case 3:
      return raster<char, 4>(g);
    case 4:
      return raster<float, 5>(g);
    case 5:
      return raster<int, 2>(g);
    default:
      return raster<int, -1>(g);
  }
}

PBT_LAW(C04, index, 1) {
  switch (g.draw(4)) {
    case 0: {
      const auto shape = nd::shape(g, 2, 100);
      return linear(g, Raster<int, 2>(nd::to<2>(shape)), nd::size(shape));
    }
    case 1: {
      const auto shape = nd::shape(g, 3, 100);
      return linear(g, AlignedRaster<float, 3>(nd::to<3>(shape)), nd::size(shape));
    }
    case 2: {
      const auto n = g.count(0, 400);
      return linear(g, Sequence<int>(n), n);
    }
    case 3:
      return linear(g, Vector<long, 5>(5), 5);
    default: {
      const auto n = g.size(1, 20);
      return linear(g, Vector<double, -1>(n), n);
    }
  }
}

// The bounds of the error themselves: value in [min, max] never throws, anything else does.
PBT_LAW(C04, bounds, 0.5) {
  const long origin = g.chance(1, 3) ? g.z(-(1L << 60), 1L << 60) : 0;
  const long lo = origin + g.z(-100, 100), hi = lo + g.i(0, g.chance(1, 4) ? 1L << 60 : 50);
  const long v = g.chance(1, 4) ? g.pick<long>({lo - 1, hi + 1, lo, hi}) : g.chance(1, 4) ? g.z(-(1L << 62), 1L << 62) : origin + g.z(-160, 160);
  NOTE(v << " in [" << lo << "," << hi << "]");
  g.nontrivial(v == lo || v == hi || v == lo - 1 || v == hi + 1);
  bool thrown = false;
  try {
    OutOfBoundsError::mayThrow("v", v, {lo, hi});
  } catch (const OutOfBoundsError& e) {
    thrown = true;
    REQUIRE(dynamic_cast<const Litl::Exception*>(&e) != nullptr, "not a library exception");
  }
  REQUIRE_EQ(thrown, v < lo || v > hi, "throws");
}
