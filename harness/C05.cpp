// C05: a ball is the set of the positions within its radius, for the chosen norm.
#include "nd.h"

#include "LitlRaster/Ball.h"

using namespace Litl;

namespace {

/// sum |p - c|^P
long distanceP(const nd::Pos& p, const nd::Pos& c, Index P) {
  long out = 0;
  for (std::size_t i = 0; i < p.size(); ++i) {
    long d = 1;
    for (Index k = 0; k < P; ++k) {
      d *= std::abs(p[i] - c[i]);
    }
    out += d;
  }
  return out;
}

/// radius^P, either exact or whose distance to an integer is much larger than the rounding error.
long double radiusP(double radius, Index P) {
  long double out = 1;
  for (Index k = 0; k < P; ++k) {
    out *= radius;
  }
  return out;
}

nd::Pos add(nd::Pos p, long a) {
  for (auto& e : p) {
    e += a;
  }
  return p;
}

template <Index N, Index P>
std::vector<nd::Pos> visit(const Ball<N, P>& ball, std::size_t n, std::size_t limit, int mode) {
  std::vector<nd::Pos> out;
  if (mode == 0) {
    for (const auto& p : ball) {
      out.push_back(nd::from(p));
      if (out.size() > limit) {
        break;
      }
    }
  } else {
    auto it = begin(ball);
    const auto e = end(ball);
    while (it != e && out.size() <= limit) {
      REQUIRE_EQ(it->size(), n, "dimension of the positions");
      out.push_back(nd::from(*it));
      if (mode == 1) {
        ++it;
      } else {
        it++;
      }
    }
    REQUIRE(out.size() > limit || it == e, "end");
  }
  return out;
}

template <Index N, Index P>
void membership(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 3);
  const long top = n == 1 ? 40 : n == 2 ? 9 : n == 3 ? 5 : n == 4 ? 3 : 2;
  double radius;
  switch (g.draw(4)) {
    case 0:
      radius = g.i(0, top);
      break;
    case 1: // around an integer
      radius = g.i(1, top) + g.pick<double>({1. / 1024, -1. / 1024, -1. / (1L << 30), 1. / (1L << 30), -1. / (1L << 20)});
      break;
    default: // multiples of 1/8: the powers of the radius are exact
      radius = g.i(0, 8 * top) / 8.;
  }
  nd::Pos center(n);
  const long scale = g.chance(1, 8) ? g.pick<long>({100000, 1L << 25, 1L << 33, 1L << 45}) : 10;
  for (auto& c : center) {
    c = g.chance(1, 2) && scale > 10 ? g.pick<long>({-1, 1}) * (scale + g.z(-5, 5)) : g.z(-scale, scale);
  }
  NOTE("N=" << N << " P=" << P << " radius=" << radius << " center=" << nd::str(center));
  g.nontrivial(radius >= 1);
  Ball<N, P> ball(radius, nd::to<N>(center));
  const long r = static_cast<long>(std::floor(radius));
  const auto check = [&](const Ball<N, P>& b, const nd::Pos& c) {
    REQUIRE_EQ(b.radius(), radius, "radius");
    REQUIRE(nd::from(b.center()) == c, "center is " << pbt::showAll(b.center()));
    const auto box = b.box();
    REQUIRE(nd::from(box.front()) == add(c, -r) && nd::from(box.back()) == add(c, r), "bounding box "
      << pbt::showAll(box.front()) << "-" << pbt::showAll(box.back()));
    REQUIRE(nd::from(b.shape()) == nd::Pos(n, 2 * r + 1), "shape is " << pbt::showAll(b.shape()));
    REQUIRE_EQ(b.template length<0>(), 2 * r + 1, "length<0>");
    REQUIRE_EQ(b.length(n - 1), 2 * r + 1, "length");
    REQUIRE_EQ(b.dimension(), static_cast<Index>(n), "dimension");
    std::vector<nd::Pos> expected;
    for (const auto& p : nd::positions(add(c, -r - 1), add(c, r + 1))) {
      if (distanceP(p, c, P) <= radiusP(radius, P)) {
        expected.push_back(p);
      }
    }
    const auto out = visit(b, n, expected.size() + 1, g.draw(2));
    REQUIRE_EQ(out.size(), expected.size(), "number of positions");
    for (std::size_t i = 0; i < out.size(); ++i) {
      REQUIRE(out[i] == expected[i], "position " << i << " is " << nd::str(out[i]));
    }
    REQUIRE_EQ(b.size(), static_cast<Index>(expected.size()), "size()");
  };
  check(ball, center);
  // shifts
  nd::Pos u(n);
  const long range = g.chance(1, 6) ? 1L << 40 : 9;
  for (auto& e : u) {
    e = g.z(-range, range);
  }
  const auto pu = nd::to<N>(u);
  const long a = g.z(-range, range);
  const int op = g.draw(9);
  NOTE("op=" << op << " u=" << nd::str(u) << " a=" << a);
  auto moved = center;
  const Ball<N, P> copy = ball;
  for (std::size_t i = 0; i < n; ++i) {
    switch (op) {
      case 0:
      case 1:
        moved[i] += u[i];
        break;
      case 2:
      case 3:
        moved[i] -= u[i];
        break;
      case 4:
        moved[i] += a;
        break;
      case 5:
        moved[i] -= a;
        break;
      case 6:
        ++moved[i];
        break;
      case 7:
        --moved[i];
        break;
      case 8:
        break;
      default:
        moved[i] = -moved[i];
    }
  }
  switch (op) {
    case 0:
      ball += pu;
      break;
    case 1:
      ball = ball + pu;
      break;
    case 2:
      ball -= pu;
      break;
    case 3:
      ball = ball - pu;
      break;
    case 4:
      ball += a;
      break;
    case 5:
      ball = ball - a;
      break;
    case 6:
      ++ball;
      break;
    case 7:
      --ball;
      break;
    case 8:
      ball = +ball;
      break;
    default:
      ball = -ball;
  }
  check(ball, moved);
  REQUIRE_EQ(copy == ball, moved == center, "operator==");
  REQUIRE_EQ(copy != ball, moved != center, "operator!=");
  REQUIRE(!(copy == Ball<N, P>(radius + 0.125, nd::to<N>(center))), "balls of different radii are equal");
  REQUIRE((copy != Ball<N, P>(radius + 0.125, nd::to<N>(center))), "balls of different radii are not different");
}

} // namespace

PBT_LAW(C05, membership, 1) {
  switch (g.draw(13)) {
    case 8:
      return membership<1, 3>(g);
    case 9:
      return membership<2, 3>(g);
    case 10:
      return membership<3, 3>(g);
    case 11:
      return membership<2, 4>(g);
    case 12:
      return membership<5, 2>(g);
    case 13:
      return membership<-1, 2>(g);
    case 0:
      return membership<1, 1>(g);
    case 1:
      return membership<1, 2>(g);
    case 2:
      return membership<2, 1>(g);
    case 3:
      return membership<2, 2>(g);
    case 4:
      return membership<3, 1>(g);
    case 5:
      return membership<3, 2>(g);
    case 6:
      return membership<4, 1>(g);
    default:
      return membership<4, 2>(g);
  }
}

// Inclusions between norms: the cross-polytope is in the sphere, which is in the cube.
PBT_LAW(C05, inclusion, 0.5) {
  const double radius = g.i(0, 80) / 8.;
  const Position<2> center {g.z(-9, 9), g.z(-9, 9)};
  NOTE("radius=" << radius << " center=" << pbt::showAll(center));
  g.nontrivial(radius >= 1);
  const Ball<2, 1> l1(radius, center);
  const Ball<2, 2> l2(radius, center);
  std::vector<nd::Pos> in2;
  for (const auto& p : l2) {
    in2.push_back(nd::from(p));
    REQUIRE(in2.size() < 10000, "does not stop");
  }
  std::size_t n = 0;
  for (const auto& p : l1) {
    REQUIRE(std::find(in2.begin(), in2.end(), nd::from(p)) != in2.end(), "L1 ball not in L2 ball");
    REQUIRE(++n <= in2.size(), "does not stop");
  }
}

namespace {

/// Large radii: the first positions only.
template <Index N, Index P>
void huge(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 3);
  const long r = g.i(1, n == 1 ? 1L << g.i(1, P == 1 ? 45 : P == 2 ? 23 : P == 3 ? 14 : 10) : n == 2 ? 70000 : 60); // Exact powers
  const double fraction = g.coin() ? 0 : g.i(0, 7) / 8.;
  nd::Pos center(n);
  for (auto& c : center) {
    c = g.coin() ? g.z(-10, 10) : g.z(-(1L << 40), 1L << 40);
  }
  NOTE("N=" << N << " P=" << P << " radius=" << r << "+" << fraction << " center=" << nd::str(center));
  g.nontrivial();
  const Ball<N, P> ball(r + fraction, nd::to<N>(center));
  const auto box = ball.box();
  REQUIRE(nd::from(box.front()) == add(center, -r) && nd::from(box.back()) == add(center, r), "bounding box "
    << pbt::showAll(box.front()) << "-" << pbt::showAll(box.back()));
  REQUIRE(nd::from(ball.shape()) == nd::Pos(n, 2 * r + 1), "shape is " << pbt::showAll(ball.shape()));
  REQUIRE_EQ(ball.template length<0>(), 2 * r + 1, "length<0>");
  REQUIRE_EQ(ball.length(n - 1), 2 * r + 1, "length");
  if (n == 1 && r < 70000 && g.chance(1, 100)) { // All of them
    long expected = center[0] - r;
    for (const auto& p : ball) {
      REQUIRE_EQ(p[0], expected, "position");
      ++expected;
    }
    REQUIRE_EQ(expected, center[0] + r + 1, "number of positions");
    return;
  }
  // Offsets to the center, all but the first coordinate constant
  nd::Pos first(n, 0);
  if (n == 1) {
    first[0] = -r;
  } else {
    // First non-empty row: along the last axis, then as close as possible to the center
    long double left = radiusP(r + fraction, P);
    for (std::size_t i = n; i-- > 0;) {
      long top = r;
      while (std::pow(static_cast<long double>(top), P) > left) {
        --top;
      }
      first[i] = -top;
      left -= std::pow(static_cast<long double>(top), P);
    }
  }
  auto it = begin(ball);
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE_EQ((*it)[i], center[i] + first[i], "coordinate " << i << " of the first position");
  }
  if (n == 1) {
    for (int k = 1; k < 5 && k <= 2 * r; ++k) {
      ++it;
      REQUIRE_EQ((*it)[0], center[0] - r + k, "position " << k);
    }
  }
}

} // namespace

PBT_LAW(C05, huge, .02) {
  switch (g.draw(7)) {
    case 0:
      return huge<1, 1>(g);
    case 1:
      return huge<1, 2>(g);
    case 2:
      return huge<1, 3>(g);
    case 3:
      return huge<2, 1>(g);
    case 4:
      return huge<2, 2>(g);
    case 5:
      return huge<3, 2>(g);
    case 6:
      return huge<-1, 2>(g);
    default:
      return huge<1, 4>(g);
  }
}
