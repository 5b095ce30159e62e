// C06: construction, sizes, ownership, copies and moves of rasters and sequences, for each data holder.
#include "nd.h"

#include "LitlContainer/Sequence.h"

#include <list>

using namespace Litl;

namespace {

template <typename T>
std::vector<T> genValues(pbt::Gen& g, long n) {
  std::vector<T> out(n);
  const long top = std::is_same<T, char>::value || std::is_same<T, unsigned char>::value ? 100 : 1000000;
  for (auto& v : out) {
    v = static_cast<T>(g.i(0, top));
  }
  return out;
}

template <typename TContainer, typename T>
void same(const TContainer& c, const std::vector<T>& expected, const char* what) {
  REQUIRE_EQ(static_cast<std::size_t>(c.size()), expected.size(), what << ": size");
  REQUIRE_EQ(static_cast<std::size_t>(c.end() - c.begin()), expected.size(), what << ": end - begin");
  REQUIRE_EQ(c.emtpy(), expected.empty(), what << ": empty");
  for (std::size_t i = 0; i < expected.size(); ++i) {
    REQUIRE(c.data()[i] == expected[i], what << ": value " << i << " is " << +c.data()[i]);
  }
}

template <typename TRaster, typename T>
void same(const TRaster& r, const nd::Pos& shape, const std::vector<T>& expected, const char* what) {
  REQUIRE(nd::from(r.shape()) == shape, what << ": shape is " << pbt::showAll(r.shape()));
  same(r, expected, what);
}

template <typename TFunc>
bool throws(TFunc&& f) {
  try {
    f();
  } catch (const SizeError&) {
    return true;
  }
  return false;
}

template <typename T>
std::valarray<T> toValarray(const std::vector<T>& v) {
  return std::valarray<T>(v.data(), v.size());
}

/// Copies are deep and independent; moves and assignments transfer the values.
template <typename TRaster, typename T>
void lifecycle(pbt::Gen& g, TRaster raster, const nd::Pos& shape, const std::vector<T>& values, bool stable) {
  TRaster copy(raster);
  same(copy, shape, values, "copy");
  REQUIRE(values.empty() || copy.data() != raster.data(), "the copy shares the data of its source");
  REQUIRE(copy == raster, "copy differs from its source");
  REQUIRE(!(copy != raster), "copy differs from its source (!=)");
  if (!values.empty()) {
    const auto k = g.i(0, values.size() - 1);
    auto changed = values;
    changed[k] = changed[k] + 1;
    copy[k] = changed[k];
    same(raster, shape, values, "source of a modified copy");
    same(copy, shape, changed, "modified copy");
    REQUIRE(!(copy == raster), "different values compare equal");
    REQUIRE(copy != raster, "different values compare equal (!=)");
    copy[k] = values[k];
    raster[k] = changed[k];
    same(copy, shape, values, "copy of a modified source");
    raster[k] = values[k];
  }
  const auto* data = raster.data();
  TRaster moved(std::move(raster));
  same(moved, shape, values, "moved-to raster");
  REQUIRE(!stable || values.empty() || moved.data() == data, "moving copies the data");
  TRaster assigned(copy);
  assigned.fill(T(7));
  assigned = moved;
  same(assigned, shape, values, "copy-assigned raster");
  REQUIRE(values.empty() || assigned.data() != moved.data(), "the copy-assigned raster shares the data of its source");
  assigned.fill(T(3));
  same(moved, shape, values, "source of a copy-assigned and modified raster");
  data = moved.data();
  assigned = std::move(moved);
  same(assigned, shape, values, "move-assigned raster");
  REQUIRE(!stable || values.empty() || assigned.data() == data, "move assignment copies the data");
  // self-assignment
  auto& self = assigned;
  assigned = self;
  same(assigned, shape, values, "self-assigned raster");
}

template <typename T, Index N>
void rasters(pbt::Gen& g) {
  const auto shape = nd::shapeOrEmpty(g, nd::dim(g, N), 120);
  const auto n = nd::size(shape);
  const auto pos = nd::to<N>(shape);
  const auto values = genValues<T>(g, n);
  const int how = g.draw(n ? 9 : 6); // A view needs values
  NOTE("N=" << N << " shape=" << nd::str(shape) << " ctor=" << how);
  g.nontrivial(n > 1);
  const std::vector<T> zeros(n, T(0));
  switch (how) {
    case 0: {
      VecRaster<T, N> r(pos, values.data());
      REQUIRE(values.empty() || r.data() != values.data(), "VecRaster shares a raw pointer");
      same(r, shape, values, "VecRaster from pointer");
      return lifecycle(g, std::move(r), shape, values, true);
    }
    case 1: {
      VecRaster<T, N> r(pos, values);
      REQUIRE(values.empty() || r.data() != values.data(), "VecRaster shares an iterable");
      same(r, shape, values, "VecRaster from iterable");
      return lifecycle(g, std::move(r), shape, values, true);
    }
    case 2: {
      auto v = values;
      const auto* data = v.data();
      VecRaster<T, N> r(pos, std::move(v));
      REQUIRE(r.data() == data, "VecRaster copies a moved vector");
      same(r, shape, values, "VecRaster from moved vector");
      REQUIRE(&r.container()[0] == data, "container()");
      std::vector<T> back(3);
      REQUIRE(&r.moveTo(back) == &back, "moveTo() returns its argument");
      REQUIRE(back == values && back.data() == data, "moveTo() copies or loses the values");
      return;
    }
    case 3: {
      const std::list<int> l(values.begin(), values.end());
      VecRaster<T, N> r(pos, l);
      same(r, shape, values, "VecRaster from list of other type");
      return lifecycle(g, std::move(r), shape, values, true);
    }
    case 4: {
      ValRaster<T, N> r(pos, values.data());
      same(r, shape, values, "ValRaster from pointer");
      return lifecycle(g, std::move(r), shape, values, false);
    }
    case 5: {
      ValRaster<T, N> r(pos, toValarray(values));
      same(r, shape, values, "ValRaster from moved valarray");
      return lifecycle(g, std::move(r), shape, values, false);
    }
    case 6: {
      AlignedRaster<T, N> r(pos, values, nullptr, g.pick<std::size_t>({0, 16, 64, 1024}));
      same(r, shape, values, "AlignedRaster from iterable");
      REQUIRE(r.owns(), "AlignedRaster does not own its data");
      return lifecycle(g, std::move(r), shape, values, true);
    }
    case 7: {
      auto v = values;
      AlignedRaster<T, N> r(pos, v.data());
      same(r, shape, values, "AlignedRaster view");
      REQUIRE(r.data() == v.data() && !r.owns(), "AlignedRaster does not share the given pointer");
      const auto k = g.i(0, n - 1);
      r[k] = T(101);
      REQUIRE(v[k] == T(101), "write through the AlignedRaster view");
      AlignedRaster<T, N> c(r);
      REQUIRE(c.data() == v.data() && !c.owns(), "copy of a sharing AlignedRaster");
      return;
    }
    case 8: {
      auto v = values;
      PtrRaster<T, N> r(pos, v.data());
      same(r, shape, values, "PtrRaster");
      REQUIRE(r.data() == v.data(), "PtrRaster does not share the given pointer");
      const auto k = g.i(0, n - 1);
      r[k] = T(101);
      REQUIRE(v[k] == T(101), "write through the PtrRaster");
      v[k] = T(55);
      REQUIRE(r[k] == T(55), "read through the PtrRaster");
      const PtrRaster<T, N> c(r);
      REQUIRE(c.data() == v.data(), "copy of a PtrRaster");
      const PtrRaster<const T, N> cr(pos, v.data());
      same(cr, shape, v, "PtrRaster to const");
      REQUIRE(cr.data() == v.data(), "PtrRaster to const does not share the given pointer");
      // across types
      VecRaster<T, N> owner(pos, v);
      REQUIRE(owner == r && r == owner && owner == cr, "equality across holders");
      owner[k] = T(56);
      REQUIRE(owner != r && !(owner == cr), "inequality across holders");
      return;
    }
    default: {
      // default-initialized: shape and size only (values are zero for standard containers)
      VecRaster<T, N> r(pos);
      same(r, shape, zeros, "VecRaster from shape");
      AlignedRaster<T, N> a(pos);
      REQUIRE_EQ(static_cast<long>(a.size()), n, "AlignedRaster size");
      REQUIRE(reinterpret_cast<std::uintptr_t>(a.data()) % 16 == 0, "AlignedRaster is not SIMD-aligned");
      a.fill(T(1)); // valid memory
      VecRaster<T, N> empty;
      REQUIRE(nd::size(nd::from(empty.shape())) == 0 && empty.size() == 0, "default raster is not empty");
      return;
    }
  }
}

template <typename T>
void sequences(pbt::Gen& g) {
  const long n = g.count(0, 60);
  const auto values = genValues<T>(g, n);
  const int how = g.draw(5);
  NOTE("sequence n=" << n << " ctor=" << how);
  g.nontrivial(n > 1);
  switch (how) {
    case 0: {
      Sequence<T> s(n, values.data());
      same(s, values, "sequence from pointer");
      auto c = s;
      REQUIRE(c == s && !(c != s), "copy differs");
      REQUIRE(n == 0 || c.data() != s.data(), "copy shares data");
      if (n > 0) {
        c[n - 1] += 1;
        same(s, values, "source of modified copy");
        REQUIRE(c != s && !(c == s), "different sequences are equal");
      }
      const auto* p = s.data();
      auto m = std::move(s);
      REQUIRE(m.data() == p, "moved sequence");
      same(m, values, "moved sequence");
      // a prefix is not equal to the whole
      if (n > 1) {
        Sequence<T> prefix(n - 1, values.data());
        REQUIRE(prefix != m && m != prefix, "sequences of different sizes are equal");
      }
      return;
    }
    case 1: {
      Sequence<T> s(values);
      same(s, values, "sequence from iterable");
      REQUIRE(n == 0 || s.data() != values.data(), "sequence shares data of iterable");
      return;
    }
    case 2: {
      auto v = values;
      const auto* p = v.data();
      Sequence<T> s(n, std::move(v));
      same(s, values, "sequence from moved vector");
      REQUIRE(s.data() == p, "moved vector is copied");
      std::vector<T> back;
      s.moveTo(back);
      REQUIRE(back == values, "moveTo");
      return;
    }
    case 3: {
      auto v = values;
      Sequence<T, PtrHolder<T>> s(n, v.data());
      same(s, values, "sequence view");
      REQUIRE(s.data() == v.data(), "sequence view copies");
      if (n > 0) {
        s[0] = T(77);
        REQUIRE(v[0] == T(77), "write through view");
      }
      return;
    }
    case 4: {
      Sequence<T, AlignedBuffer<T>> s(values);
      same(s, values, "aligned sequence");
      REQUIRE(s.owns(), "aligned sequence does not own");
      auto c = s;
      REQUIRE(c.owns() && c == s && c.data() != s.data(), "copy of aligned sequence");
      return;
    }
    default: {
      std::list<int> l(values.begin(), values.end());
      Sequence<T> s(l);
      same(s, values, "sequence from list");
      Sequence<T> z(n);
      same(z, std::vector<T>(n, T(0)), "sequence from size");
      return;
    }
  }
}

template <typename T, Index N>
void mismatch(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N), 60);
  const auto n = nd::size(shape);
  const auto pos = nd::to<N>(shape);
  const long d = g.coin() ? 0 : g.pick<long>({1, -1, n, -n, 7});
  const long m = std::max(0L, n + d);
  auto values = genValues<T>(g, m);
  const int how = g.draw(4);
  NOTE("N=" << N << " shape=" << nd::str(shape) << " values=" << m << " ctor=" << how);
  const bool expected = m != n;
  g.nontrivial(expected);
  g.label(expected ? "mismatch" : "match");
  bool got = false;
  switch (how) {
    case 0:
      got = throws([&] { VecRaster<T, N> r(pos, values); });
      break;
    case 1:
      got = throws([&] { VecRaster<T, N> r(pos, std::move(values)); });
      break;
    case 2:
      got = throws([&] { ValRaster<T, N> r(pos, toValarray(values)); });
      break;
    case 3:
      got = throws([&] { AlignedRaster<T, N> r(pos, values); });
      break;
    default:
      got = throws([&] { Sequence<T> s(n, std::move(values)); });
  }
  REQUIRE_EQ(got, expected, "SizeError for " << m << " values in a raster of " << n);
}

/// Lists have a fixed number of elements: choose the shape
template <Index N>
void lists(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N), 12);
  const auto n = nd::size(shape);
  const auto pos = nd::to<N>(shape);
  const auto v = genValues<int>(g, 6);
  NOTE("N=" << N << " shape=" << nd::str(shape) << " with 6 values " << pbt::showAll(v));
  g.label(n == 6 ? "match" : "mismatch");
  g.nontrivial(n > 1);
  const bool got = throws([&] {
    VecRaster<int, N> r(pos, {v[0], v[1], v[2], v[3], v[4], v[5]});
    same(r, shape, v, "raster from list");
    AlignedRaster<double, N> a(pos, {v[0], v[1], v[2], v[3], v[4], v[5]});
    same(a, shape, std::vector<double>(v.begin(), v.end()), "aligned raster from list");
  });
  REQUIRE_EQ(got, n != 6, "SizeError for 6 listed values in a raster of " << n);
  const Sequence<int> s {v[0], v[1], v[2], v[3], v[4], v[5]};
  same(s, v, "sequence from list");
  bool rejected = false;
  try {
    ArrRaster<int, 6, N> r(pos);
    REQUIRE_EQ(n, 6L, "size accepted by a raster of capacity 6");
    same(r, shape, std::vector<int>(6, 0), "array raster");
    ArrRaster<int, 6, N> q(pos, v);
    same(q, shape, v, "array raster from iterable");
    std::array<int, 6> arr;
    std::copy(v.begin(), v.end(), arr.begin());
    ArrRaster<int, 6, N> m(pos, std::move(arr));
    same(m, shape, v, "array raster from array");
    lifecycle(g, m, shape, v, false);
    ArrRaster<int, 6, N> f(pos, v.data());
    same(f, shape, v, "array raster from pointer");
    REQUIRE(std::equal(v.begin(), v.end(), f.container().begin()), "container of the array raster");
    std::array<int, 6> back {};
    REQUIRE(&f.moveTo(back) == &back, "moveTo() returns its argument");
    REQUIRE(std::equal(v.begin(), v.end(), back.begin()), "array moved from the raster");
  } catch (const std::exception& e) {
    rejected = true;
  }
  REQUIRE_EQ(rejected, n != 6, "rejection of a size different from the capacity");
}

void deduced(pbt::Gen& g) {
  const auto shape = nd::shape(g, 3, 60);
  const auto n = nd::size(shape);
  const auto values = genValues<int>(g, n);
  NOTE("shape=" << nd::str(shape));
  g.nontrivial(n > 1);
  auto v = values;
  const auto copied = rasterize(v, shape[0], shape[1], shape[2]);
  same(copied, shape, values, "rasterized copy");
  REQUIRE(copied.data() != v.data(), "rasterize(lvalue) shares data");
  REQUIRE(v == values, "rasterize(lvalue) changes its argument");
  auto view = rasterize(v.data(), shape[0], shape[1], shape[2]);
  same(view, shape, values, "rasterized pointer");
  REQUIRE(view.data() == v.data(), "rasterize(pointer) copies");
  view[0] = 12;
  REQUIRE(v[0] == 12, "write through rasterize(pointer)");
  v[0] = values[0];
  const auto* p = v.data();
  const auto moved = rasterize(std::move(v), shape[0], shape[1] * shape[2]);
  same(moved, nd::Pos {shape[0], shape[1] * shape[2]}, values, "rasterized rvalue");
  REQUIRE(moved.data() == p, "rasterize(rvalue) copies");
  REQUIRE(&rasterize(moved) == &moved, "rasterize(raster) is not the raster itself");
  // same values, other shape
  const auto other = rasterize(p, shape[0] * shape[1], shape[2]);
  REQUIRE_EQ(other == moved, nd::from(other.shape()) == nd::from(moved.shape()), "equality of different shapes");
}

/// Containers are equal when their elements are: zeros of both signs are, values which are not numbers are not.
template <typename T>
void specialEquality(pbt::Gen& g) {
  const auto shape = nd::shape(g, 2, 40);
  const auto n = nd::size(shape);
  std::vector<T> v(n), w(n);
  for (long i = 0; i < n; ++i) {
    v[i] = w[i] = static_cast<T>(g.z(-2, 2));
  }
  const long changes = g.i(0, 2);
  for (long k = 0; k < changes; ++k) {
    const auto i = g.i(0, n - 1);
    switch (g.draw(3)) {
      case 0:
        v[i] = T(0.);
        w[i] = T(-0.);
        break;
      case 1:
        v[i] = w[i] = std::numeric_limits<T>::quiet_NaN();
        break;
      case 2:
        v[i] = w[i] = std::numeric_limits<T>::infinity();
        break;
      default:
        v[i] = T(1);
        w[i] = T(1) + std::numeric_limits<T>::epsilon();
    }
  }
  NOTE("shape=" << nd::str(shape) << " v=" << pbt::showAll(v) << " w=" << pbt::showAll(w));
  g.nontrivial(changes > 0);
  const Position<2> pos {shape[0], shape[1]};
  const VecRaster<T, 2> a(pos, v), b(pos, w);
  const PtrRaster<T, 2> c(pos, v.data());
  const AlignedRaster<T, 2> d(pos, w);
  bool expected = true, self = true;
  for (long i = 0; i < n; ++i) {
    expected = expected && v[i] == w[i];
    self = self && v[i] == v[i];
  }
  REQUIRE_EQ(a == b, expected, "equality of rasters");
  REQUIRE_EQ(a != b, !expected, "inequality of rasters");
  REQUIRE_EQ(a == a, self, "equality of a raster to itself");
  REQUIRE_EQ(a != a, !self, "inequality of a raster to itself");
  REQUIRE_EQ(c == d, expected, "equality of a view and an aligned raster");
  REQUIRE_EQ(c == a, self, "equality of a view and a raster");
  const Sequence<T> x(v), y(w);
  REQUIRE_EQ(x == y, expected, "equality of sequences");
  REQUIRE_EQ(x == x, self, "equality of a sequence to itself");
}

/// "[a, b, c ... x, y, z]"
template <typename T, typename TMake>
void streams(pbt::Gen& g, long n, TMake&& make) {
  const auto values = genValues<T>(g, n);
  NOTE("n=" << n);
  g.nontrivial(n > 1);
  std::ostringstream expected;
  expected << "[";
  for (long i = 0; i < n; ++i) {
    if (n > 7 && i == 3) {
      expected << " ... ";
      i = n - 3;
    } else if (i > 0) {
      expected << ", ";
    }
    expected << values[i];
  }
  expected << "]";
  std::ostringstream out;
  out << make(values);
  REQUIRE_EQ(out.str(), expected.str(), "stream output");
}

/// Default-constructed and zero-size containers are empty; text output of both.
template <typename TContainer>
void isEmpty(const TContainer& c, const char* what) {
  REQUIRE(c.size() == 0 && c.begin() == c.end() && c == c && !(c != c), what << " is not empty");
  std::ostringstream out;
  out << c;
  REQUIRE_EQ(out.str(), "[]", "stream output of " << what);
}

void empties() {
  isEmpty(Sequence<int>(), "default sequence");
  isEmpty(Sequence<double>(0), "sequence of size 0");
  isEmpty(Sequence<short>(std::vector<short>().size()), "sequence of size 0");
  isEmpty(Sequence<int, AlignedBuffer<int>>(), "default aligned sequence");
  isEmpty(Raster<int>(), "default raster");
  isEmpty(Raster<int, 3>(), "default 3D raster");
  isEmpty(AlignedRaster<double, 2>(), "default aligned raster");
  Sequence<int> a, b {1};
  REQUIRE(a != b && b != a, "an empty sequence equals a sequence of size 1");
}

/// Views of the same memory compare equal if and only if they have the same size and values.
void views(pbt::Gen& g) {
  std::vector<double> values(g.size(1, 12));
  for (auto& e : values) {
    e = g.chance(1, 12) ? std::numeric_limits<double>::quiet_NaN() : g.z(-1, 1);
  }
  const long n = values.size();
  const long a = g.i(0, n - 1), b = g.coin() ? a : g.i(0, n - 1);
  const long m = g.i(1, n - a), l = g.coin() && m <= n - b ? m : g.i(1, n - b);
  NOTE("values=" << pbt::showAll(values) << " " << m << " from " << a << ", " << l << " from " << b);
  g.nontrivial(m > 1 || l > 1);
  const bool expected = m == l && std::equal(values.begin() + a, values.begin() + a + m, values.begin() + b);
  {
    Sequence<double, PtrHolder<double>> lhs(m, values.data() + a), rhs(l, values.data() + b);
    REQUIRE_EQ(lhs == rhs, expected, "equality of views");
    REQUIRE_EQ(lhs != rhs, !expected, "inequality of views");
    const std::vector<double> r(rhs.begin(), rhs.end()), s(lhs.begin(), lhs.end());
    Sequence<double> copy(r), other(s);
    REQUIRE_EQ(copy == other, expected, "equality of sequences");
    REQUIRE_EQ(copy != other, !expected, "inequality of sequences");
  }
  {
    PtrRaster<double, 1> lhs({m}, values.data() + a), rhs({l}, values.data() + b);
    REQUIRE_EQ(lhs == rhs, expected, "equality of raster views");
    REQUIRE_EQ(lhs != rhs, !expected, "inequality of raster views");
  }
  {
    PtrRaster<double, 2> lhs({m, 1}, values.data() + a);
    PtrRaster<double, -1> rhs({l, 1}, values.data() + b), flat({1, l}, values.data() + b);
    REQUIRE_EQ(PtrRaster<double>({m, 1}, values.data() + a) == PtrRaster<double>({l, 1}, values.data() + b), expected, "equality of 2D views");
    REQUIRE_EQ((PtrRaster<double, -1>({m, 1}, values.data() + a) == flat), expected && m == 1, "equality of views of other shapes");
    REQUIRE_EQ((rhs == flat), l == 1 && values[b] == values[b], "equality of views of transposed shapes");
    REQUIRE_EQ((lhs == PtrRaster<double, 2>({1, m}, values.data() + a)), m == 1 && values[a] == values[a], "equality of views of transposed shapes");
  }
}

/// Text output of a very long container.
void longStream(pbt::Gen& g) {
  const auto n = g.i(1L << 15, 1L << 18);
  NOTE("n=" << n);
  g.nontrivial();
  Sequence<int> values(n);
  long v = g.i(0, 1000);
  for (auto& e : values) {
    e = v++;
  }
  std::ostringstream out, expected;
  out << values;
  expected << "[" << values[0] << ", " << values[1] << ", " << values[2] << " ... ";
  expected << values[n - 3] << ", " << values[n - 2] << ", " << values[n - 1] << "]";
  const auto s = out.str();
  REQUIRE_EQ(s.substr(0, 200), expected.str(), "stream output");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C06, rasters, 3) {
  switch (g.draw(2)) {
    case 0:
      return rasters<int, 2>(g);
    case 1:
      return rasters<double, 3>(g);
    default:
      return rasters<char, 1>(g);
  }
}
#endif
#if PBT_PART == 1
PBT_LAW(C06, variable_rasters, 2) {
  switch (g.draw(1)) {
    case 0:
      return rasters<int, -1>(g);
    default:
      return rasters<float, 4>(g);
  }
}
#endif
#if PBT_PART == 2
PBT_LAW(C06, sequences, 1) {
  switch (g.draw(2)) {
    case 0:
      return sequences<int>(g);
    case 1:
      return sequences<double>(g);
    default:
      return sequences<unsigned char>(g);
  }
}
PBT_LAW(C06, size_errors, 1) {
  switch (g.draw(3)) {
    case 0:
      return mismatch<int, 2>(g);
    case 1:
      return mismatch<double, 3>(g);
    case 2:
      return mismatch<short, 1>(g);
    default:
      return mismatch<int, -1>(g);
  }
}
#endif
#if PBT_PART == 3
PBT_LAW(C06, lists_and_arrays, 1) {
  switch (g.draw(3)) {
    case 0:
      return lists<1>(g);
    case 1:
      return lists<2>(g);
    case 2:
      return lists<3>(g);
    default:
      return lists<-1>(g);
  }
}
PBT_LAW(C06, special_equality, .4) {
  g.coin() ? specialEquality<double>(g) : specialEquality<float>(g);
}
PBT_LAW(C06, rasterize, 1) {
  deduced(g);
}
PBT_LAW(C06, views, 0.5) {
  if (g.chance(1, 100)) {
    return empties();
  }
  views(g);
}
PBT_LAW(C06, stream, 0.3) {
  if (g.chance(1, 500)) {
    return longStream(g);
  }
  switch (g.draw(3)) {
    case 0:
      return streams<int>(g, g.count(0, 20), [](const auto& v) {
        return Sequence<int>(v);
      });
    case 1: {
      const auto shape = nd::shape(g, 2, 20);
      return streams<double>(g, nd::size(shape), [&](const auto& v) {
        return VecRaster<double, 2>(nd::to<2>(shape), v);
      });
    }
    case 2:
      return streams<long>(g, 9, [](const auto& v) {
        return Vector<long, 9>(v);
      });
    default:
      return streams<float>(g, g.size(0, 20), [](const auto& v) {
        return Vector<float, -1>(v);
      });
  }
}
#endif
