// C09: a subraster gives access to, and iterates over, exactly the pixels of its region, in row-major order.
#include "nd.h"

using namespace Litl;

namespace {

struct Case {
  nd::Pos shape;
  std::vector<int> values;
  nd::Pos front, back;
  std::vector<nd::Pos> region;
};

Case genCase(pbt::Gen& g, std::size_t n) {
  Case c;
  c.shape = nd::shape(g, n, 500);
  c.values.resize(nd::size(c.shape));
  int k = 1;
  for (auto& v : c.values) {
    v = k++;
  }
  const auto r = nd::region(g, c.shape);
  c.front = r.first;
  c.back = r.second;
  c.region = nd::positions(c.front, c.back);
  NOTE("shape=" << nd::str(c.shape) << " region=" << nd::str(c.front) << "-" << nd::str(c.back));
  g.nontrivial(c.region.size() > 1 && c.region.size() < c.values.size());
  return c;
}

template <typename TSub>
std::vector<const int*> visit(pbt::Gen& g, TSub& sub, std::size_t limit) {
  std::vector<const int*> out;
  auto it = begin(sub);
  const auto e = end(sub);
  switch (g.draw(2)) {
    case 0:
      for (; it != e && out.size() <= limit; ++it) {
        out.push_back(&*it);
      }
      break;
    case 1:
      for (; !(it == e) && out.size() <= limit; it++) {
        out.push_back(it.operator->());
      }
      break;
    default:
      for (auto& v : sub) {
        out.push_back(&v);
        if (out.size() > limit) {
          break;
        }
      }
  }
  return out;
}

template <Index N, typename TSub>
void readSub(pbt::Gen& g, TSub& sub, const Case& c, const int* data, const char* what) {
  nd::Pos shape;
  for (std::size_t i = 0; i < c.shape.size(); ++i) {
    shape.push_back(c.back[i] - c.front[i] + 1);
  }
  REQUIRE(nd::from(sub.shape()) == shape, what << ": shape " << pbt::showAll(sub.shape()));
  REQUIRE_EQ(sub.size(), c.region.size(), what << ": size");
  REQUIRE(nd::from(sub.region().front()) == c.front && nd::from(sub.region().back()) == c.back, what << ": region");
  REQUIRE(sub.raster().data() == data, what << ": raster()");
  const auto visited = visit(g, sub, c.region.size());
  REQUIRE_EQ(visited.size(), c.region.size(), what << ": number of visited pixels (or more)");
  for (std::size_t i = 0; i < visited.size(); ++i) {
    const auto o = nd::offset(c.shape, c.region[i]);
    REQUIRE(visited[i] == data + o, what << ": pixel " << i << " is at offset " << (visited[i] - data) << " instead of " << o);
    REQUIRE_EQ(*visited[i], c.values[o], what << ": value " << i);
  }
  // subscript is relative to the front of the region
  for (int k = 0; k < 4; ++k) {
    const auto i = g.i(0, c.region.size() - 1);
    auto local = c.region[i];
    for (std::size_t j = 0; j < local.size(); ++j) {
      local[j] -= c.front[j];
    }
    const auto& v = sub[nd::to<N>(local)];
    REQUIRE(&v == data + nd::offset(c.shape, c.region[i]), what << ": [" << nd::str(local) << "] is at offset " << (&v - data));
  }
}

template <Index N, typename TRaster>
void check(pbt::Gen& g, TRaster& raster, Case& c) {
  const Box<N> box(nd::to<N>(c.front), nd::to<N>(c.back));
  const int* data = raster.data();
  {
    const auto& readonly = raster;
    const auto sub = readonly.subraster(box);
    readSub<N>(g, sub, c, data, "read-only subraster");
  }
  auto sub = raster.subraster(box);
  readSub<N>(g, sub, c, data, "subraster");
  const auto& csub = sub;
  readSub<N>(g, csub, c, data, "const subraster");
  // writing through the subraster
  switch (g.draw(2)) {
    case 0: {
      int k = 0;
      for (auto& v : sub) {
        v = --k;
      }
      k = 0;
      for (const auto& p : c.region) {
        c.values[nd::offset(c.shape, p)] = --k;
      }
      break;
    }
    case 1: {
      const auto i = g.i(0, c.region.size() - 1);
      auto local = c.region[i];
      for (std::size_t j = 0; j < local.size(); ++j) {
        local[j] -= c.front[j];
      }
      sub[nd::to<N>(local)] = -9;
      c.values[nd::offset(c.shape, c.region[i])] = -9;
      break;
    }
    default: {
      std::vector<int> in(c.region.size());
      for (auto& v : in) {
        v = static_cast<int>(g.i(0, 1000));
      }
      auto it = begin(sub);
      for (std::size_t i = 0; i < in.size(); ++i, ++it) {
        *it = in[i];
        c.values[nd::offset(c.shape, c.region[i])] = in[i];
      }
      REQUIRE(it == end(sub), "the iterator is not at the end after size() increments");
      REQUIRE(!(it != end(sub)), "the iterator is not at the end after size() increments");
    }
  }
  REQUIRE(std::equal(c.values.begin(), c.values.end(), raster.begin()), "raster after writing the subraster: " << pbt::showAll(raster));
  readSub<N>(g, sub, c, data, "subraster after writing");
}

template <Index N>
void law(pbt::Gen& g) {
  auto c = genCase(g, nd::dim(g, N));
  auto storage = c.values;
  switch (g.draw(2)) {
    case 0: {
      PtrRaster<int, N> raster(nd::to<N>(c.shape), storage.data());
      return check<N>(g, raster, c);
    }
    case 1: {
      AlignedRaster<int, N> raster(nd::to<N>(c.shape), storage);
      return check<N>(g, raster, c);
    }
    default: {
      VecRaster<int, N> raster(nd::to<N>(c.shape), storage);
      return check<N>(g, raster, c);
    }
  }
}

/// Two iterators over two subrasters of two rasters, advanced together.
template <Index N>
void copyLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  auto c = genCase(g, n);
  VecRaster<int, N> in(nd::to<N>(c.shape), c.values);
  // output raster, larger, with the region shifted
  nd::Pos shape = c.shape, shift(n), front = c.front, back = c.back;
  for (std::size_t i = 0; i < n; ++i) {
    shape[i] += g.i(0, 2);
    shift[i] = g.i(-c.front[i], shape[i] - 1 - c.back[i]);
    front[i] += shift[i];
    back[i] += shift[i];
  }
  VecRaster<int, N> out(nd::to<N>(shape));
  std::vector<int> expected(nd::size(shape), 0);
  const auto target = nd::positions(front, back);
  for (std::size_t i = 0; i < target.size(); ++i) {
    expected[nd::offset(shape, target[i])] = c.values[nd::offset(c.shape, c.region[i])];
  }
  const auto& readonly = in;
  const auto from = readonly.subraster(Box<N>(nd::to<N>(c.front), nd::to<N>(c.back)));
  auto to = out.subraster(Box<N>(nd::to<N>(front), nd::to<N>(back)));
  auto o = begin(to);
  for (auto i = begin(from); i != end(from); ++i, ++o) {
    REQUIRE(o != end(to), "the output ends before the input");
    *o = *i;
  }
  REQUIRE(o == end(to), "the input ends before the output");
  REQUIRE(std::equal(expected.begin(), expected.end(), out.begin()), "copied region: " << pbt::showAll(out));
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C09, access_low, 2) {
  g.coin() ? law<1>(g) : law<2>(g);
}
#elif PBT_PART == 1
PBT_LAW(C09, access_high, 2) {
  g.coin() ? law<3>(g) : law<4>(g);
}
#elif PBT_PART == 2
PBT_LAW(C09, access_variable, 2) {
  law<-1>(g);
}
#else
PBT_LAW(C09, copy, 1) {
  switch (g.draw(2)) {
    case 0:
      return copyLaw<2>(g);
    case 1:
      return copyLaw<3>(g);
    default:
      return copyLaw<-1>(g);
  }
}
#endif
