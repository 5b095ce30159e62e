// C01: row-major storage. Position <-> index bijection, domain order, lengths, for every dimension and holder.
#include "nd.h"

using namespace Litl;

namespace {

template <typename TRaster>
void checkRaster(pbt::Gen& g, TRaster& raster, const nd::Pos& shape) {
  constexpr Index N = TRaster::Dimension;
  const auto& craster = raster;
  const auto n = nd::size(shape);
  REQUIRE_EQ(static_cast<long>(raster.size()), n, "size");
  REQUIRE_EQ(raster.dimension(), static_cast<Index>(shape.size()), "dimension");
  REQUIRE(nd::from(raster.shape()) == shape, "shape is " << nd::str(nd::from(raster.shape())));
  for (std::size_t i = 0; i < shape.size(); ++i) {
    REQUIRE_EQ(raster.length(i), shape[i], "length(" << i << ")");
  }
  REQUIRE_EQ(raster.end() - raster.begin(), n, "end - begin");
  REQUIRE_EQ(shapeSize(raster.shape()), n, "shapeSize");
  long stride = 1;
  for (std::size_t i = 0; i <= shape.size(); ++i) {
    REQUIRE_EQ(shapeStride(raster.shape(), i), stride, "shapeStride(" << i << ")");
    if (i < shape.size()) {
      stride *= shape[i];
    }
  }
  for (long k = 0; k < n; ++k) {
    raster.data()[k] = static_cast<typename std::remove_const<typename TRaster::Value>::type>(k % 119);
  }

  // each position once, in storage order
  const auto expected = nd::domain(shape);
  std::vector<bool> hit(n, false);
  for (long k = 0; k < n; ++k) {
    const auto& p = expected[k];
    const auto pos = nd::to<N>(p);
    const auto index = raster.index(pos);
    REQUIRE_EQ(index, nd::offset(shape, p), "index(" << nd::str(p) << ")");
    REQUIRE(index >= 0 && index < n && !hit[index], "index " << index << " out of range or hit twice");
    hit[index] = true;
    REQUIRE(&raster[pos] == raster.data() + k, "operator[](" << nd::str(p) << ")");
    REQUIRE(&craster[pos] == raster.data() + k, "const operator[](" << nd::str(p) << ")");
    REQUIRE(&raster.at(pos) == raster.data() + k, "at(" << nd::str(p) << ")");
    REQUIRE(&raster[k] == raster.data() + k, "operator[](" << k << ")");
    REQUIRE(raster.contains(pos), "contains(" << nd::str(p) << ")");
  }
  REQUIRE(raster.begin() == raster.data(), "begin");
  REQUIRE(n == 0 || &raster.front() == raster.data(), "front");
  REQUIRE(n == 0 || &raster.back() == raster.data() + n - 1, "back");

  // the domain spans the raster, in storage order
  const auto domain = raster.domain();
  REQUIRE(nd::from(domain.front()) == nd::Pos(shape.size(), 0), "domain front " << pbt::showAll(domain.front()));
  nd::Pos last = shape;
  for (auto& e : last) {
    --e;
  }
  REQUIRE(nd::from(domain.back()) == last, "domain back " << pbt::showAll(domain.back()));
  REQUIRE_EQ(domain.size(), n, "domain size");
  long k = 0;
  for (const auto& p : domain) {
    REQUIRE(k < n, "domain iteration does not stop");
    REQUIRE(nd::from(p) == expected[k], "domain position " << k << " is " << pbt::showAll(p));
    REQUIRE(&craster[p] == craster.data() + k, "value at domain position " << k);
    ++k;
  }
  REQUIRE_EQ(k, n, "number of domain positions");

  if (n == 0) {
    g.label("empty");
    return;
  }

  // writing through a position is reading back through the index, and nothing else changes
  const auto w = nd::inShape(g, shape);
  raster[nd::to<N>(w)] = 121;
  for (long j = 0; j < n; ++j) {
    const auto v = j == nd::offset(shape, w) ? 121 : j % 119;
    REQUIRE(raster.data()[j] == static_cast<typename TRaster::Value>(v), "write at " << nd::str(w) << " changed " << j);
  }
}

/// Compile-time lengths.
template <typename TRaster, std::size_t... Is>
void checkLengths(const TRaster& raster, const nd::Pos& shape, std::index_sequence<Is...>) {
  const std::vector<long> l {raster.template length<Is>()...};
  const std::vector<long> s {shapeStride<Is>(raster.shape())...};
  long stride = 1;
  for (std::size_t i = 0; i < shape.size(); ++i) {
    REQUIRE_EQ(l[i], shape[i], "length<" << i << ">");
    REQUIRE_EQ(s[i], stride, "shapeStride<" << i << ">");
    stride *= shape[i];
  }
}

template <typename T, Index N>
void any(pbt::Gen& g) {
  const auto shape = nd::shapeOrEmpty(g, nd::dim(g, N), 600);
  NOTE("shape=" << nd::str(shape) << " N=" << N);
  g.nontrivial(nd::size(shape) > 1 && shape.size() > 1);
  const auto s = nd::to<N>(shape);
  switch (g.draw(3)) {
    case 0: {
      NOTE("VecRaster");
      VecRaster<T, N> r(s);
      checkRaster(g, r, shape);
      break;
    }
    case 1: {
      NOTE("ValRaster");
      ValRaster<T, N> r(s);
      checkRaster(g, r, shape);
      break;
    }
    case 2: {
      NOTE("AlignedRaster");
      AlignedRaster<T, N> r(s);
      checkRaster(g, r, shape);
      break;
    }
    default: {
      NOTE("PtrRaster");
      std::vector<T> data(nd::size(shape));
      PtrRaster<T, N> r(s, data.data());
      checkRaster(g, r, shape);
      REQUIRE(r.data() == data.data(), "PtrRaster data");
    }
  }
}

template <typename T, Index N>
void lengths(pbt::Gen& g) {
  const auto shape = nd::shape(g, N, 600);
  Raster<T, N> r(nd::to<N>(shape));
  checkLengths(r, shape, std::make_index_sequence<N>());
}

} // namespace

PBT_LAW(C01, fixed_dimension, 3) {
  switch (g.draw(9)) {
    case 0:
      return any<int, 1>(g);
    case 1:
      return any<int, 2>(g);
    case 2:
      return any<double, 2>(g);
    case 3:
      return any<std::int64_t, 3>(g);
    case 4:
      return any<char, 3>(g);
    case 5:
      return any<float, 4>(g);
    case 6:
      return any<std::uint16_t, 4>(g);
    case 7:
      return any<short, 5>(g);
    case 8:
      return any<double, 6>(g);
    default:
      return any<unsigned char, 2>(g);
  }
}

PBT_LAW(C01, variable_dimension, 2) {
  switch (g.draw(2)) {
    case 0:
      return any<int, -1>(g);
    case 1:
      return any<double, -1>(g);
    default:
      return any<unsigned char, -1>(g);
  }
}

PBT_LAW(C01, static_lengths, 0.3) {
  g.nontrivial();
  switch (g.draw(4)) {
    case 0:
      return lengths<int, 1>(g);
    case 1:
      return lengths<int, 2>(g);
    case 2:
      return lengths<int, 3>(g);
    case 3:
      return lengths<int, 4>(g);
    default:
      return lengths<int, 5>(g);
  }
}

// Fixed and variable dimensions describe the same image.
PBT_LAW(C01, fixed_vs_variable, 1) {
  const auto shape = nd::shape(g, 3, 400);
  NOTE("shape=" << nd::str(shape));
  g.nontrivial(nd::size(shape) > 1);
  Raster<int, 3> fixed(nd::to<3>(shape));
  Raster<int, -1> variable(nd::to<-1>(shape));
  fixed.range();
  variable.range();
  const auto p = nd::inShape(g, shape);
  REQUIRE_EQ(fixed[nd::to<3>(p)], variable[nd::to<-1>(p)], "value at " << nd::str(p));
  REQUIRE_EQ(fixed.index(nd::to<3>(p)), variable.index(nd::to<-1>(p)), "index of " << nd::str(p));
}

// Large shapes: the index arithmetic does not rely on small lengths (no pixel is allocated: the view is never read).
PBT_LAW(C01, large_index, 0.5) {
  long word = 0;
  nd::Pos shape(3);
  for (auto& s : shape) {
    s = g.i(1, 100000);
  }
  const auto p = nd::inShape(g, shape);
  NOTE("shape=" << nd::str(shape) << " pos=" << nd::str(p));
  g.nontrivial(nd::offset(shape, p) > std::numeric_limits<int>::max());
  PtrRaster<long, 3> r(nd::to<3>(shape), &word);
  REQUIRE_EQ(r.index(nd::to<3>(p)), nd::offset(shape, p), "index");
  REQUIRE_EQ(static_cast<long>(r.size()), nd::size(shape), "size");
  PtrRaster<long, -1> v(nd::to<-1>(shape), &word);
  REQUIRE_EQ(v.index(nd::to<-1>(p)), nd::offset(shape, p), "variable index");
}
