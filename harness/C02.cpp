// C02: boxes are sets of positions: iteration, geometry, shifts, margins, projections and clamping.
#include "nd.h"

using namespace Litl;

namespace {

struct Region {
  nd::Pos front, back;
};

/// Region with possibly negative or large front; lengths >= minLength.
Region genRegion(pbt::Gen& g, std::size_t n, long maxSize, long minLength) {
  Region r;
  nd::Pos s = nd::shape(g, n, maxSize, 1);
  if (minLength <= 0 && n > 0 && g.chance(1, 6)) {
    s[g.i(0, n - 1)] = g.i(minLength, 0);
  }
  const long scale = g.chance(1, 10) ? 3000000000L : 20;
  for (std::size_t i = 0; i < n; ++i) {
    r.front.push_back(g.z(-scale, scale));
    r.back.push_back(r.front[i] + s[i] - 1);
  }
  return r;
}

/// Visit a box in several manners; record the positions.
template <Index N>
std::vector<nd::Pos> visit(const Box<N>& box, int mode, std::size_t limit) {
  std::vector<nd::Pos> out;
  switch (mode) {
    case 0:
      for (const auto& p : box) {
        out.push_back(nd::from(p));
        if (out.size() > limit) {
          break;
        }
      }
      break;
    case 1: {
      auto it = begin(box);
      const auto e = end(box);
      while (!(it == e) && out.size() <= limit) {
        out.push_back(nd::from(*it));
        const auto& p = ++it;
        REQUIRE(&p == &*it, "++it does not return the new position");
      }
      break;
    }
    case 2: {
      auto it = begin(box);
      for (; it != end(box) && out.size() <= limit; it++) {
        nd::Pos p;
        for (auto c = it->begin(); c != it->end(); ++c) {
          p.push_back(*c);
        }
        out.push_back(p);
      }
      break;
    }
    default: {
      // reset in the middle of the iteration
      auto it = begin(box);
      if (it != end(box)) {
        for (int k = 0; k < 3 && it != end(box); ++k) {
          ++it;
        }
        it.reset();
      }
      for (; it != end(box) && out.size() <= limit; ++it) {
        out.push_back(nd::from(*it));
      }
    }
  }
  return out;
}

template <Index N>
void iteration(pbt::Gen& g) {
  const auto r = genRegion(g, nd::dim(g, N), 400, -2);
  const int mode = g.draw(3);
  NOTE("N=" << N << " front=" << nd::str(r.front) << " back=" << nd::str(r.back) << " mode=" << mode);
  const Box<N> box(nd::to<N>(r.front), nd::to<N>(r.back));
  const auto expected = nd::positions(r.front, r.back);
  g.nontrivial(expected.size() > 1 || expected.empty());
  if (expected.empty()) {
    g.label("empty box");
  }
  const auto out = visit(box, mode, expected.size() + 2);
  REQUIRE_EQ(out.size(), expected.size(), "number of visited positions");
  for (std::size_t i = 0; i < out.size(); ++i) {
    REQUIRE(out[i] == expected[i], "visited position " << i << " is " << nd::str(out[i]));
  }
}

template <Index N>
void same(const Box<N>& box, const nd::Pos& front, const nd::Pos& back, const char* what) {
  REQUIRE(
      nd::from(box.front()) == front && nd::from(box.back()) == back,
      what << " is " << pbt::showAll(box.front()) << "-" << pbt::showAll(box.back()) << " instead of " << nd::str(front)
           << "-" << nd::str(back));
}

nd::Pos add(nd::Pos a, const nd::Pos& b, long sign = 1) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += sign * b[i];
  }
  return a;
}

nd::Pos add(nd::Pos a, long b) {
  for (auto& e : a) {
    e += b;
  }
  return a;
}

template <Index N>
void geometry(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  auto r = genRegion(g, n, 2000, 0);
  if (g.chance(1, 8)) { // Representable, yet huge, size
    for (std::size_t i = 0; i < n; ++i) {
      r.back[i] = r.front[i] + g.i(0, 1L << (60 / n)) - 1;
    }
  }
  NOTE("N=" << N << " front=" << nd::str(r.front) << " back=" << nd::str(r.back));
  g.nontrivial(r.front != r.back);
  const Box<N> box(nd::to<N>(r.front), nd::to<N>(r.back));
  const auto shape = add(add(r.back, r.front, -1), 1);
  same(box, r.front, r.back, "box");
  REQUIRE_EQ(box.dimension(), static_cast<Index>(n), "dimension");
  REQUIRE(nd::from(box.shape()) == shape, "shape " << pbt::showAll(box.shape()));
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE_EQ(box.length(i), shape[i], "length(" << i << ")");
  }
  REQUIRE_EQ(box.template length<0>(), shape[0], "length<0>");
  REQUIRE_EQ(box.template length<(N > 1 ? N - 1 : 0)>(), shape[N > 1 ? N - 1 : 0], "length<N-1>");
  REQUIRE_EQ(box.size(), nd::size(shape), "size");
  same(Box<N>::fromShape(nd::to<N>(r.front), nd::to<N>(shape)), r.front, r.back, "fromShape");
  const long radius = g.chance(1, 6) ? g.i(0, 1L << 54) : g.i(0, 9);
  same(Box<N>::fromCenter(radius, nd::to<N>(r.front)), add(r.front, -radius), add(r.front, radius), "fromCenter");
  if (N > 0) { // Default center, default radius
    same(Box<N>::fromCenter(radius), nd::Pos(n, -radius), nd::Pos(n, radius), "fromCenter(radius)");
    same(Box<N>::fromCenter(), nd::Pos(n, -1), nd::Pos(n, 1), "fromCenter()");
  }

  // equality is coordinate-wise
  auto other = r;
  const auto axis = g.i(0, n - 1);
  const auto d = g.chance(1, 6) ? g.pick<long>({1L << 32, -(1L << 32), 1L << 53}) : g.z(-2, 2);
  (g.coin() ? other.front : other.back)[axis] += d;
  const Box<N> box2(nd::to<N>(other.front), nd::to<N>(other.back));
  REQUIRE_EQ(box == box2, d == 0, "operator==");
  REQUIRE_EQ(box != box2, d != 0, "operator!=");
}

template <Index N>
void algebra(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  auto r = genRegion(g, n, 2000, 1);
  NOTE("N=" << N << " front=" << nd::str(r.front) << " back=" << nd::str(r.back));
  Box<N> box(nd::to<N>(r.front), nd::to<N>(r.back));
  g.nontrivial();
  const int steps = g.i(1, 6);
  for (int k = 0; k < steps; ++k) {
    nd::Pos u(n), v(n);
    const long range = g.chance(1, 6) ? 1L << 54 : 9; // Exact neither as int nor as double
    for (std::size_t i = 0; i < n; ++i) {
      u[i] = g.z(-range, range);
      v[i] = g.z(-range, range);
    }
    const long a = g.z(-range, range);
    const auto pu = nd::to<N>(u);
    const auto pv = nd::to<N>(v);
    const Box<N> m(pu, pv);
    const auto f = r.front, b = r.back;
    const int op = g.draw(10);
    NOTE("op=" << op << " u=" << nd::str(u) << " v=" << nd::str(v) << " a=" << a);
    const Box<N> before = box;
    switch (op) {
      case 0: // dilate
        r = {add(f, u), add(b, v)};
        same(box + m, r.front, r.back, "box + margin");
        same(box += m, r.front, r.back, "box += margin");
        break;
      case 1: // erode
        r = {add(f, u, -1), add(b, v, -1)};
        same(box - m, r.front, r.back, "box - margin");
        same(box -= m, r.front, r.back, "box -= margin");
        break;
      case 2:
        r = {add(f, u), add(b, u)};
        same(box + pu, r.front, r.back, "box + vector");
        same(pu + box, r.front, r.back, "vector + box");
        same(box += pu, r.front, r.back, "box += vector");
        break;
      case 3:
        r = {add(f, u, -1), add(b, u, -1)};
        same(box - pu, r.front, r.back, "box - vector");
        same(box -= pu, r.front, r.back, "box -= vector");
        break;
      case 4:
        r = {add(f, a), add(b, a)};
        same(box + a, r.front, r.back, "box + scalar");
        same(a + box, r.front, r.back, "scalar + box");
        same(box += a, r.front, r.back, "box += scalar");
        break;
      case 5:
        r = {add(f, -a), add(b, -a)};
        same(box - a, r.front, r.back, "box - scalar");
        same(box -= a, r.front, r.back, "box -= scalar");
        break;
      case 6:
        r = {add(f, 1), add(b, 1)};
        same(++box, r.front, r.back, "++box");
        break;
      case 7:
        r = {add(f, -1), add(b, -1)};
        same(--box, r.front, r.back, "--box");
        break;
      case 8: {
        const auto axis = g.i(0, n - 1);
        r.back[axis] = r.front[axis];
        same(project(box, axis), r.front, r.back, "project");
        same(box, f, b, "projected in place by the free function");
        same(box.project(axis), r.front, r.back, "box.project");
        break;
      }
      case 9:
        same(+box, f, b, "+box");
        break;
      default:
        for (std::size_t i = 0; i < n; ++i) {
          r.front[i] = -f[i];
          r.back[i] = -b[i];
        }
        same(-box, r.front, r.back, "-box");
        box = -box;
    }
    same(box, r.front, r.back, "box after operation");
    same(before, f, b, "copy made before the operation");
  }
}

template <typename T, Index N>
void clamping(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  const auto r = genRegion(g, n, 2000, 1);
  const auto shape = nd::shape(g, n, 2000);
  const Box<N> box(nd::to<N>(r.front), nd::to<N>(r.back));
  Vector<T, N> p(static_cast<T>(n));
  Vector<T, N> q(static_cast<T>(n));
  for (std::size_t i = 0; i < n; ++i) {
    const double e = g.coin() ? g.z(-40, 40) : g.real(40);
    p[i] = static_cast<T>(r.front[i] + e);
    q[i] = static_cast<T>(e);
  }
  NOTE("N=" << N << " front=" << nd::str(r.front) << " back=" << nd::str(r.back) << " p=" << pbt::showAll(p)
            << " shape=" << nd::str(shape) << " q=" << pbt::showAll(q));
  const auto c = clamp(p, box);
  const auto d = clamp(q, nd::to<N>(shape));
  REQUIRE_EQ(c.size(), n, "size of the position clamped in a box");
  REQUIRE_EQ(d.size(), n, "size of the position clamped in a shape");
  bool changed = false;
  for (std::size_t i = 0; i < n; ++i) {
    const T lo = static_cast<T>(r.front[i]), hi = static_cast<T>(r.back[i]);
    const T e = p[i] < lo ? lo : p[i] > hi ? hi : p[i];
    changed |= e != p[i];
    REQUIRE_EQ(c[i], e, "coordinate " << i << " clamped in the box");
    const T top = static_cast<T>(shape[i] - 1);
    const T s = q[i] < 0 ? T(0) : q[i] > top ? top : q[i];
    REQUIRE_EQ(d[i], s, "coordinate " << i << " clamped in the shape");
  }
  g.nontrivial(changed);
}

template <typename U, Index N>
void containing(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  const auto shape = nd::shape(g, n, 200);
  const Raster<char, N> raster(nd::to<N>(shape));
  Vector<U, N> p(static_cast<U>(n));
  bool expected = true;
  for (std::size_t i = 0; i < n; ++i) {
    // mostly inside, so that a single axis may decide
    const double e = g.chance(3, 4) ? g.i(0, shape[i] - 1) : g.pick<double>({-1., -0.25, double(shape[i]), shape[i] - 0.25, -1e9, 1e9, shape[i] - 1.});
    p[i] = static_cast<U>(e);
    expected = expected && p[i] >= 0 && p[i] < shape[i];
  }
  NOTE("shape=" << nd::str(shape) << " p=" << pbt::showAll(p));
  g.nontrivial(n > 1);
  g.label(expected ? "inside" : "outside");
  REQUIRE_EQ(raster.contains(p), expected, "contains");
}

} // namespace

#define DISPATCH(f) \
  switch (g.draw(6)) { \
    case 0: \
      return f<1>(g); \
    case 1: \
      return f<2>(g); \
    case 2: \
      return f<3>(g); \
    case 3: \
      return f<4>(g); \
    case 4: \
      return f<5>(g); \
    case 5: \
      return f<6>(g); \
    default: \
      return f<-1>(g); \
  }

#if PBT_PART == 0
PBT_LAW(C02, iteration, 2) {
  DISPATCH(iteration)
}

PBT_LAW(C02, geometry, 1) {
  DISPATCH(geometry)
}
#endif

#if PBT_PART == 1
PBT_LAW(C02, algebra, 1) {
  DISPATCH(algebra)
}
#endif

#if PBT_PART == 2
PBT_LAW(C02, clamp, 1) {
  switch (g.draw(5)) {
    case 0:
      return clamping<Index, 1>(g);
    case 1:
      return clamping<Index, 2>(g);
    case 2:
      return clamping<double, 3>(g);
    case 3:
      return clamping<double, 2>(g);
    case 4:
      return clamping<Index, 4>(g);
    default:
      return clamping<Index, -1>(g);
  }
}

PBT_LAW(C02, contains, 1) {
  switch (g.draw(5)) {
    case 0:
      return containing<Index, 2>(g);
    case 1:
      return containing<double, 2>(g);
    case 2:
      return containing<double, 3>(g);
    case 3:
      return containing<Index, 4>(g);
    case 4:
      return containing<int, 1>(g);
    default:
      return containing<double, -1>(g);
  }
}

PBT_LAW(C02, whole, 0.2) {
  // the conventionally unlimited box leaves non-negative positions unchanged
  Vector<Index, 3> p;
  for (auto& e : p) {
    e = g.chance(1, 3) ? g.z(-50, 50) : g.i(0, 4000000000000000000L);
  }
  NOTE("p=" << pbt::showAll(p));
  g.nontrivial();
  const auto w = Box<3>::whole();
  const auto c = clamp(p, w);
  for (std::size_t i = 0; i < 3; ++i) {
    REQUIRE_EQ(w.front()[i], 0L, "front of the unlimited box");
    REQUIRE_EQ(c[i], std::max(0L, p[i]), "position clamped in the unlimited box");
  }
}
#endif
