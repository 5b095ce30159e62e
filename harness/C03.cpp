// C03: Box::surround() partitions the margin of a box.
#include "nd.h"

#include <set>

using namespace Litl;

namespace {

template <Index N>
void surround(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  const auto shape = nd::shape(g, n, n <= 4 ? 60 : 12, 1, n <= 4);
  nd::Pos front(n), back(n), mf(n), mb(n);
  const long top = n <= 2 ? (g.rare() ? 40 : 6) : n == 3 ? 3 : n <= 5 ? 2 : 1;
  std::size_t nonNull = 0;
  for (std::size_t i = 0; i < n; ++i) {
    front[i] = g.z(-10, 10);
    back[i] = front[i] + shape[i] - 1;
    mf[i] = g.chance(1, 4) ? 0 : -g.i(0, top);
    mb[i] = g.chance(1, 4) ? 0 : g.i(0, top);
    nonNull += (mf[i] != 0) + (mb[i] != 0);
  }
  NOTE("N=" << N << " front=" << nd::str(front) << " back=" << nd::str(back) << " margin=" << nd::str(mf) << "-"
            << nd::str(mb));
  g.nontrivial(nonNull >= 2);
  const Box<N> box(nd::to<N>(front), nd::to<N>(back));
  const Box<N> margin(nd::to<N>(mf), nd::to<N>(mb));
  const auto pieces = box.surround(margin);
  REQUIRE(nd::from(box.front()) == front && nd::from(box.back()) == back, "the box itself changed");
  nd::Pos uf = front, ub = back;
  for (std::size_t i = 0; i < n; ++i) {
    uf[i] += mf[i];
    ub[i] += mb[i];
  }
  REQUIRE(pieces.size() <= 2 * n, pieces.size() << " pieces");
  if (nonNull == 0) {
    REQUIRE(pieces.empty(), pieces.size() << " pieces around a null margin");
  }
  // every position of the union is in exactly one of the box and the pieces; nothing lies outside the union
  std::map<nd::Pos, int> count;
  for (const auto& p : nd::positions(front, back)) {
    ++count[p];
  }
  for (const auto& piece : pieces) {
    const auto pf = nd::from(piece.front()), pb = nd::from(piece.back());
    const auto all = nd::positions(pf, pb);
    REQUIRE(!all.empty(), "empty piece " << nd::str(pf) << "-" << nd::str(pb));
    REQUIRE(
        nd::inside(uf, ub, pf) && nd::inside(uf, ub, pb),
        "piece outside of the union " << nd::str(pf) << "-" << nd::str(pb));
    for (const auto& p : all) {
      REQUIRE(++count[p] == 1, "position " << nd::str(p) << " is covered twice");
    }
  }
  const auto all = nd::positions(uf, ub);
  for (const auto& p : all) {
    REQUIRE(count.count(p), "position " << nd::str(p) << " is not covered");
  }
  REQUIRE_EQ(count.size(), all.size(), "number of covered positions");
  // dilating then eroding is the identity, and the dilated box is the union
  const auto big = box + margin;
  REQUIRE(nd::from(big.front()) == uf && nd::from(big.back()) == ub, "box + margin");
  REQUIRE(big - margin == box, "box + margin - margin");
}

/// Large boxes and margins, whose pieces cannot be enumerated: the pieces are in the union, do not
/// intersect the box or each other, and their sizes sum up to that of the union.
template <Index N>
void large(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 5);
  // 2^60 / n bits at most: volumes are representable
  const long top = n <= 1 ? 1L << 40 : n == 2 ? 1L << 28 : n == 3 ? 1L << 18 : n == 4 ? 4096 : n <= 6 ? 300 : 40;
  const auto length = [&](long min) {
    return g.chance(1, 3) ? g.i(min, std::min(top, 8L)) : g.chance(1, 2) ? g.i(min, top) : g.size(min, std::min(top, 400L));
  };
  nd::Pos front(n), back(n), mf(n), mb(n), uf(n), ub(n);
  std::size_t nonNull = 0;
  __int128 inner = 1, outer = 1;
  for (std::size_t i = 0; i < n; ++i) {
    front[i] = g.chance(1, 3) ? g.z(-10, 10) : g.z(-top, top);
    back[i] = front[i] + length(1) - 1;
    mf[i] = g.chance(1, 4) ? 0 : -length(0);
    mb[i] = g.chance(1, 4) ? 0 : length(0);
    uf[i] = front[i] + mf[i];
    ub[i] = back[i] + mb[i];
    inner *= back[i] - front[i] + 1;
    outer *= ub[i] - uf[i] + 1;
    nonNull += (mf[i] != 0) + (mb[i] != 0);
  }
  NOTE("N=" << N << " front=" << nd::str(front) << " back=" << nd::str(back) << " margin=" << nd::str(mf) << "-"
            << nd::str(mb));
  g.nontrivial(nonNull >= 2);
  const Box<N> box(nd::to<N>(front), nd::to<N>(back));
  const Box<N> margin(nd::to<N>(mf), nd::to<N>(mb));
  std::vector<std::pair<nd::Pos, nd::Pos>> parts {{front, back}};
  for (const auto& piece : box.surround(margin)) {
    parts.emplace_back(nd::from(piece.front()), nd::from(piece.back()));
  }
  REQUIRE(parts.size() <= 2 * n + 1, parts.size() - 1 << " pieces");
  __int128 sum = 0;
  for (std::size_t a = 0; a < parts.size(); ++a) {
    const auto& pf = parts[a].first;
    const auto& pb = parts[a].second;
    __int128 size = 1;
    for (std::size_t i = 0; i < n; ++i) {
      REQUIRE(uf[i] <= pf[i] && pf[i] <= pb[i] && pb[i] <= ub[i], "piece " << nd::str(pf) << "-" << nd::str(pb));
      size *= pb[i] - pf[i] + 1;
    }
    sum += size;
    for (std::size_t b = 0; b < a; ++b) {
      bool intersect = true;
      for (std::size_t i = 0; i < n; ++i) {
        intersect = intersect && pf[i] <= parts[b].second[i] && parts[b].first[i] <= pb[i];
      }
      REQUIRE(
          !intersect,
          "pieces intersect: " << nd::str(pf) << "-" << nd::str(pb) << " and " << nd::str(parts[b].first) << "-"
                               << nd::str(parts[b].second));
    }
  }
  REQUIRE(sum == outer, "pieces do not cover the union: " << static_cast<double>(sum) << " != " << static_cast<double>(outer));
}

} // namespace

PBT_LAW(C03, large, 0.6) {
  switch (g.draw(6)) {
    case 0:
      return large<1>(g);
    case 1:
      return large<2>(g);
    case 2:
      return large<3>(g);
    case 3:
      return large<4>(g);
    case 4:
      return large<5>(g);
    case 5:
      return large<6>(g);
    default:
      return large<-1>(g);
  }
}

PBT_LAW(C03, partition, 1) {
  switch (g.draw(6)) {
    case 4:
      return surround<5>(g);
    case 0:
      return surround<1>(g);
    case 1:
      return surround<2>(g);
    case 2:
      return surround<3>(g);
    case 3:
      return surround<4>(g);
    default:
      return surround<-1>(g);
  }
}
