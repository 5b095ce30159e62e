// C35: iterators of regions, balls, subrasters and samplings are independent, multi-pass and usable in algorithms.
#include "nd.h"

#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"

#include <iterator>
#include <memory>
#include <numeric>

using namespace Litl;

namespace {

/// Jump by n elements, with += if available.
template <typename It>
auto jump(It& it, long n, bool compound) -> decltype(it += n, void()) {
  if (compound) {
    it += n;
  } else {
    std::advance(it, n);
  }
}
template <typename It>
void jump(It& it, long n, ...) {
  std::advance(it, n);
}

/// Random program over copies of iterators; see(element, k) checks that element is the k-th one.
template <typename It, typename TBegin, typename TEnd, typename TSee>
void walk(pbt::Gen& g, long size, TBegin&& first, TEnd&& last, TSee&& see) {
  struct Cursor {
    std::unique_ptr<It> it;
    long k;
  };
  std::vector<Cursor> pool;
  const auto open = [&]() {
    pool.push_back({std::unique_ptr<It>(new It(first())), 0});
  };
  open();
  long moves = 0;
  bool copied = false;
  const long steps = g.count(1, 40);
  for (long s = 0; s < steps; ++s) {
    if (pool.empty()) {
      open();
    }
    const auto c = g.i(0, pool.size() - 1);
    auto& it = *pool[c].it;
    auto& k = pool[c].k;
    switch (g.draw(9)) {
      case 0:
        NOTE("open");
        open();
        break;
      case 1: {
        NOTE("copy " << c);
        std::unique_ptr<It> copy(new It(it));
        const auto at = k;
        pool.push_back({std::move(copy), at});
        copied = true;
        break;
      }
      case 2: {
        // The original does not survive
        NOTE("replace " << c);
        std::unique_ptr<It> copy(new It(it));
        pool[c].it = std::move(copy);
        copied = true;
        break;
      }
      case 3:
        NOTE("close " << c);
        pool.erase(pool.begin() + c);
        break;
      case 4:
        if (k < size) {
          NOTE("*" << c << "++");
          see(*it++, k);
          ++k;
          ++moves;
        }
        break;
      case 5:
        if (k < size) {
          NOTE(c << "++");
          it++;
          ++k;
          ++moves;
        }
        break;
      case 6: {
        const auto d = g.i(0, pool.size() - 1);
        NOTE(c << "==" << d);
        REQUIRE_EQ(it == *pool[d].it, k == pool[d].k, "equality of iterators at " << k << " and " << pool[d].k);
        REQUIRE_EQ(it != *pool[d].it, k != pool[d].k, "inequality of iterators at " << k << " and " << pool[d].k);
        break;
      }
      case 7: {
        const auto n = g.i(0, size - k);
        NOTE("advance " << c << " by " << n);
        jump(it, n, g.coin());
        k += n;
        ++moves;
        break;
      }
      default:
        if (k < size) {
          NOTE("++" << c);
          ++it;
          ++k;
          ++moves;
        }
    }
    NOTE(" ");
    for (auto& p : pool) {
      const auto& constant = *p.it;
      REQUIRE_EQ(constant == last(), p.k == size, "end test at " << p.k << " of " << size);
      if (p.k < size) {
        see(**p.it, p.k);
      }
    }
  }
  g.nontrivial(copied && moves > 1 && size > 2);
  // From there, with algorithms
  for (auto& p : pool) {
    It it(*p.it);
    p.it.reset();
    auto k = p.k;
    REQUIRE_EQ(static_cast<long>(std::distance(it, last())), size - k, "distance to the end");
    std::for_each(it, last(), [&](const auto& e) {
      see(e, k++);
    });
    REQUIRE_EQ(k, size, "number of elements from " << p.k);
    if (size > p.k) {
      const auto target = g.i(p.k, size - 1);
      k = p.k;
      auto found = std::find_if(it, last(), [&](const auto&) {
        return k++ == target;
      });
      REQUIRE(found != last(), "element " << target << " is not found");
      k = target;
      for (; found != last(); ++found) {
        see(*found, k++);
      }
      REQUIRE_EQ(k, size, "number of elements from the one which was found");
    }
  }
}

nd::Pos subtract(const nd::Pos& a, const nd::Pos& b) {
  nd::Pos out(a);
  for (std::size_t i = 0; i < a.size(); ++i) {
    out[i] -= b[i];
  }
  return out;
}

template <Index N>
void boxLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  const auto shape = nd::shapeOrEmpty(g, n, 60);
  nd::Pos front(n), back(n);
  for (std::size_t i = 0; i < n; ++i) {
    front[i] = g.z(-5, 5);
    back[i] = front[i] + shape[i] - 1;
  }
  NOTE("box " << nd::str(front) << "-" << nd::str(back) << " ");
  const auto expected = nd::positions(front, back);
  const Box<N> box(nd::to<N>(front), nd::to<N>(back));
  walk<typename Box<N>::Iterator>(
      g,
      expected.size(),
      [&]() {
        return begin(box);
      },
      [&]() {
        return end(box);
      },
      [&](const Position<N>& p, long k) {
        REQUIRE(nd::from(p) == expected[k], "element " << k << " is " << pbt::showAll(p));
      });
  const std::vector<Position<N>> all(begin(box), end(box));
  REQUIRE_EQ(all.size(), expected.size(), "number of positions");
  for (std::size_t i = 0; i < all.size(); ++i) {
    REQUIRE(nd::from(all[i]) == expected[i], "position " << i);
  }
}

template <Index N, Index P>
void ballLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 3);
  const double radius = g.i(0, n == 1 ? 24 : n == 2 ? 10 : 5) / 2.;
  nd::Pos center(n), front(n), back(n);
  for (std::size_t i = 0; i < n; ++i) {
    center[i] = g.z(-5, 5);
    front[i] = center[i] - static_cast<long>(radius);
    back[i] = center[i] + static_cast<long>(radius);
  }
  NOTE("ball " << radius << " around " << nd::str(center) << " ");
  std::vector<nd::Pos> expected;
  for (const auto& p : nd::positions(front, back)) {
    double d = 0;
    for (auto e : subtract(p, center)) {
      d += P == 1 ? std::abs(e) : e * e;
    }
    if (d <= (P == 1 ? radius : radius * radius)) {
      expected.push_back(p);
    }
  }
  const Ball<N, P> ball(radius, nd::to<N>(center));
  walk<typename Ball<N, P>::Iterator>(
      g,
      expected.size(),
      [&]() {
        return begin(ball);
      },
      [&]() {
        return end(ball);
      },
      [&](const Position<N>& p, long k) {
        REQUIRE(nd::from(p) == expected[k], "element " << k << " is " << pbt::showAll(p));
      });
  const std::vector<Position<N>> all(begin(ball), end(ball));
  REQUIRE_EQ(all.size(), expected.size(), "number of positions");
  for (std::size_t i = 0; i < all.size(); ++i) {
    REQUIRE(nd::from(all[i]) == expected[i], "position " << i);
  }
}

template <Index N, bool Const>
void subrasterLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 4);
  const auto shape = nd::shape(g, n, 80);
  const auto region = nd::region(g, shape);
  const auto positions = nd::positions(region.first, region.second);
  NOTE("raster " << nd::str(shape) << " region " << nd::str(region.first) << "-" << nd::str(region.second) << " ");
  VecRaster<int, N> storage(nd::to<N>(shape));
  storage.range(1);
  using R = std::conditional_t<Const, const VecRaster<int, N>, VecRaster<int, N>>;
  R& raster = storage;
  auto sub = raster.subraster(Box<N>(nd::to<N>(region.first), nd::to<N>(region.second)));
  using Sub = decltype(sub);
  walk<typename Sub::Iterator>(
      g,
      positions.size(),
      [&]() {
        return begin(sub);
      },
      [&]() {
        return end(sub);
      },
      [&](const int& v, long k) {
        REQUIRE_EQ(&v - storage.data(), nd::offset(shape, positions[k]), "location of element " << k);
      });
  long sum = 0;
  for (const auto& p : positions) {
    sum += 1 + nd::offset(shape, p);
  }
  REQUIRE_EQ(std::accumulate(begin(sub), end(sub), 0L), sum, "sum");
}

template <bool Const>
void samplesLaw(pbt::Gen& g) {
  const long size = g.size(1, 30);
  const long stride = g.i(1, 4);
  IndexSampling sampling;
  sampling.front = g.i(0, size - 1);
  sampling.back = g.i(sampling.front, size - 1);
  sampling.step = g.i(1, 5);
  std::vector<int> data(size * stride);
  std::vector<long> expected;
  for (long i = sampling.front; i <= sampling.back; i += sampling.step) {
    expected.push_back(i);
  }
  NOTE("size=" << size << " stride=" << stride << " " << sampling.front << ":" << sampling.back << ":" << sampling.step << " ");
  // The end may be out of the data: use integers rather than pointers
  DataSamples<int> mutableSamples(data.data(), size, sampling, stride);
  using S = std::conditional_t<Const, const DataSamples<int>, DataSamples<int>>;
  S& samples = mutableSamples;
  walk<decltype(samples.begin())>(
      g,
      expected.size(),
      [&]() {
        return samples.begin();
      },
      [&]() {
        return samples.end();
      },
      [&](const int& v, long k) {
        REQUIRE_EQ(&v - data.data(), expected[k] * stride, "location of element " << k);
      });
  // Indices
  walk<IndexSampling::Iterator>(
      g,
      expected.size(),
      [&]() {
        return sampling.begin();
      },
      [&]() {
        return sampling.end();
      },
      [&](Index v, long k) {
        REQUIRE_EQ(v, expected[k], "element " << k);
      });
}

/// Forward and backward moves of several steps.
void jumpsLaw(pbt::Gen& g) {
  const long size = g.size(1, 30);
  const long stride = g.i(1, 4);
  IndexSampling sampling;
  sampling.front = g.i(0, size - 1);
  sampling.back = g.i(sampling.front, size - 1);
  sampling.step = g.i(1, 5);
  const long count = (sampling.back - sampling.front) / sampling.step + 1;
  std::vector<int> data((size + 5) * stride); // The end can be pointed to
  DataSamples<int> samples(data.data(), size, sampling, stride);
  const DataSamples<int>& constSamples = samples;
  const bool fromEnd = g.coin();
  NOTE("size=" << size << " stride=" << stride << " " << sampling.front << ":" << sampling.back << ":" << sampling.step << (fromEnd ? " from end" : " from begin"));
  auto index = fromEnd ? sampling.end() : sampling.begin();
  auto it = fromEnd ? samples.end() : samples.begin();
  auto cit = fromEnd ? constSamples.end() : constSamples.begin();
  long k = fromEnd ? count : 0;
  const long steps = g.count(1, 6);
  for (long s = 0; s < steps; ++s) {
    const long to = g.i(0, count);
    const long n = to - k;
    const bool minus = g.coin();
    NOTE((minus ? " -= " : " += ") << (minus ? -n : n));
    if (g.chance(1, 5)) { // Samples are moved to by location
      const long offset = (sampling.front + to * sampling.step) * stride;
      if (offset >= static_cast<long>(data.size())) {
        continue;
      }
      index += n;
      REQUIRE(&(it = &data[offset]) == &it, "= does not return the iterator");
      cit = &data[offset];
    } else if (minus) {
      REQUIRE(&(index -= -n) == &index, "-= does not return the iterator");
      REQUIRE(&(it -= -n) == &it, "-= does not return the iterator");
      cit -= -n;
    } else {
      REQUIRE(&(index += n) == &index, "+= does not return the iterator");
      REQUIRE(&(it += n) == &it, "+= does not return the iterator");
      cit += n;
    }
    k = to;
    const long expected = sampling.front + k * sampling.step;
    if (k < count) {
      REQUIRE_EQ(*index, expected, "index after the move");
      REQUIRE_EQ(&*it - data.data(), expected * stride, "location after the move");
      REQUIRE_EQ(&*cit - data.data(), expected * stride, "read-only location after the move");
    }
    REQUIRE_EQ(index == sampling.end(), k == count, "at the end of the indices");
    REQUIRE_EQ(it == samples.end(), k == count, "at the end of the samples");
    REQUIRE_EQ(index == sampling.begin(), k == 0, "at the beginning of the indices");
    REQUIRE_EQ(it == samples.begin(), k == 0, "at the beginning of the samples");
  }
  g.nontrivial(count > 1 && k > 0 && k < count);
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C35, jumps, .5) {
  jumpsLaw(g);
}

PBT_LAW(C35, box, 1) {
  switch (g.draw(3)) {
    case 0:
      return boxLaw<1>(g);
    case 1:
      return boxLaw<2>(g);
    case 2:
      return boxLaw<3>(g);
    default:
      return boxLaw<-1>(g);
  }
}

PBT_LAW(C35, samples, .5) {
  g.coin() ? samplesLaw<true>(g) : samplesLaw<false>(g);
}
#elif PBT_PART == 1
PBT_LAW(C35, ball, 1) {
  switch (g.draw(4)) {
    case 0:
      return ballLaw<1, 1>(g);
    case 1:
      return ballLaw<2, 1>(g);
    case 2:
      return ballLaw<2, 2>(g);
    case 3:
      return ballLaw<3, 2>(g);
    default:
      return ballLaw<-1, 2>(g);
  }
}
#else
PBT_LAW(C35, subraster, 1) {
  switch (g.draw(4)) {
    case 0:
      return subrasterLaw<1, false>(g);
    case 1:
      return subrasterLaw<2, true>(g);
    case 2:
      return subrasterLaw<2, false>(g);
    case 3:
      return subrasterLaw<3, false>(g);
    default:
      return subrasterLaw<-1, true>(g);
  }
}
#endif
