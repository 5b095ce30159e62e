// C08: slices and sections are views of exactly the pixels of their region; non-contiguous slices are refused.
#include "nd.h"

using namespace Litl;

namespace {

struct Case {
  nd::Pos shape;
  std::vector<int> values;
};

Case genCase(pbt::Gen& g, std::size_t n) {
  Case c;
  c.shape = nd::shape(g, n, 400);
  c.values.resize(nd::size(c.shape));
  int k = 1;
  for (auto& v : c.values) {
    v = k++;
  }
  return c;
}

/// Contiguity by definition: complete below M - 1, flat from M.
bool contiguous(const nd::Pos& shape, const nd::Pos& f, const nd::Pos& b, std::size_t m) {
  for (std::size_t i = 0; i < shape.size(); ++i) {
    if (i + 1 < m && (f[i] != 0 || b[i] + 1 != shape[i])) {
      return false;
    }
    if (i >= m && f[i] != b[i]) {
      return false;
    }
  }
  return true;
}

/// Values of a region, in row-major order.
std::vector<int> regionValues(const Case& c, const nd::Pos& f, const nd::Pos& b) {
  std::vector<int> out;
  for (const auto& p : nd::positions(f, b)) {
    out.push_back(c.values[nd::offset(c.shape, p)]);
  }
  return out;
}

template <typename TView>
void sameView(TView& view, const nd::Pos& shape, const std::vector<int>& values, const int* data, const char* what) {
  REQUIRE(nd::from(view.shape()) == shape, what << ": shape " << pbt::showAll(view.shape()) << " instead of " << nd::str(shape));
  REQUIRE_EQ(static_cast<std::size_t>(view.size()), values.size(), what << ": size");
  REQUIRE(view.data() == data, what << ": the view starts at offset " << (view.data() - data) << " of its region");
  for (std::size_t i = 0; i < values.size(); ++i) {
    REQUIRE_EQ(view[i], values[i], what << ": value " << i);
  }
}

/// Region which is likely to be contiguous for M.
std::pair<nd::Pos, nd::Pos> genRegion(pbt::Gen& g, const nd::Pos& shape, std::size_t m) {
  auto r = nd::region(g, shape);
  if (g.chance(1, 6)) {
    return r;
  }
  for (std::size_t i = 0; i < shape.size(); ++i) {
    if (i + 1 < m) {
      r.first[i] = 0;
      r.second[i] = shape[i] - 1;
    } else if (i >= m) {
      r.second[i] = r.first[i];
    }
  }
  // near misses
  if (g.chance(1, 3)) {
    const auto i = g.i(0, shape.size() - 1);
    switch (g.draw(3)) {
      case 0:
        r.first[i] = std::min(r.first[i] + 1, r.second[i]);
        break;
      case 1:
        r.second[i] = std::max(r.second[i] - 1, r.first[i]);
        break;
      case 2:
        r.second[i] = std::min(r.second[i] + 1, shape[i] - 1);
        break;
      default:
        r.first[i] = std::max(r.first[i] - 1, 0L);
    }
  }
  return r;
}

template <Index M, typename TRaster, Index N>
void sliceOf(pbt::Gen& g, TRaster& raster, Case& c, const Box<N>& box, const nd::Pos& f, const nd::Pos& b) {
  const bool ok = contiguous(c.shape, f, b, M);
  g.label(ok ? "contiguous" : "not contiguous");
  const auto& readonly = raster;
  REQUIRE_EQ(raster.template isContiguous<M>(box), ok, "isContiguous");
  nd::Pos shape;
  for (Index i = 0; i < M; ++i) {
    shape.push_back(b[i] - f[i] + 1);
  }
  const auto values = regionValues(c, f, b);
  const int* data = raster.data() + nd::offset(c.shape, f);
  bool thrown = false;
  try {
    const auto view = readonly.template slice<M>(box);
    REQUIRE(ok, "slice() of a non-contiguous region does not throw");
    static_assert(std::is_same<std::decay_t<decltype(view)>, PtrRaster<const int, M>>::value, "type of a read-only slice");
    sameView(view, shape, values, data, "read-only slice");
  } catch (const Exception&) {
    thrown = true;
  }
  REQUIRE_EQ(thrown, !ok, "read-only slice() throws");
  thrown = false;
  try {
    auto view = raster.template slice<M>(box);
    REQUIRE(ok, "slice() of a non-contiguous region does not throw");
    sameView(view, shape, values, data, "slice");
  } catch (const Exception&) {
    thrown = true;
  }
  REQUIRE_EQ(thrown, !ok, "slice() throws");
}

/// Writing through a slice writes the region and nothing else.
template <typename TView>
void writeView(pbt::Gen& g, TView& view, Case& c, const nd::Pos& f, const nd::Pos& b) {
  const auto region = nd::positions(f, b);
  if (region.empty()) {
    return;
  }
  switch (g.draw(2)) {
    case 0:
      view.fill(-5);
      for (const auto& p : region) {
        c.values[nd::offset(c.shape, p)] = -5;
      }
      break;
    case 1: {
      const auto k = g.i(0, region.size() - 1);
      view[k] = -7;
      c.values[nd::offset(c.shape, region[k])] = -7;
      break;
    }
    default:
      view += 1000;
      for (const auto& p : region) {
        c.values[nd::offset(c.shape, p)] += 1000;
      }
  }
}

template <Index N, Index M, typename TRaster>
void slices(pbt::Gen& g, TRaster& raster, Case& c) {
  const auto r = genRegion(g, c.shape, M);
  NOTE("N=" << N << " M=" << M << " shape=" << nd::str(c.shape) << " region=" << nd::str(r.first) << "-" << nd::str(r.second));
  const Box<N> box(nd::to<N>(r.first), nd::to<N>(r.second));
  sliceOf<M>(g, raster, c, box, r.first, r.second);
  const bool ok = contiguous(c.shape, r.first, r.second, M);
  g.nontrivial(ok ? nd::positions(r.first, r.second).size() > 1 : true);
  if (ok) {
    auto view = raster.template slice<M>(box);
    writeView(g, view, c, r.first, r.second);
  }
  REQUIRE(std::equal(c.values.begin(), c.values.end(), raster.begin()), "raster after writing its slice: " << pbt::showAll(raster));
}

template <Index N, Index M>
void sliceLaw(pbt::Gen& g) {
  auto c = genCase(g, N >= 0 ? N : g.i(M, 5));
  auto storage = c.values;
  switch (g.draw(3)) {
    case 0: {
      PtrRaster<int, N> raster(nd::to<N>(c.shape), storage.data());
      return slices<N, M>(g, raster, c);
    }
    case 1: {
      AlignedRaster<int, N> raster(nd::to<N>(c.shape), storage);
      return slices<N, M>(g, raster, c);
    }
    default: {
      VecRaster<int, N> raster(nd::to<N>(c.shape), storage);
      return slices<N, M>(g, raster, c);
    }
  }
}

template <Index N, typename TRaster>
void sections(pbt::Gen& g, TRaster& raster, Case& c) {
  const std::size_t last = c.shape.size() - 1;
  const auto& readonly = raster;
  nd::Pos f(c.shape.size(), 0);
  auto b = c.shape;
  for (auto& i : b) {
    --i;
  }
  f[last] = g.i(0, c.shape[last] - 1);
  b[last] = g.i(f[last], c.shape[last] - 1);
  NOTE("N=" << N << " shape=" << nd::str(c.shape) << " section " << f[last] << "-" << b[last]);
  g.nontrivial(c.values.size() > 1);
  const int* data = raster.data() + nd::offset(c.shape, f);
  auto shape = c.shape;
  shape[last] = b[last] - f[last] + 1;
  const auto thick = readonly.section(f[last], b[last]);
  sameView(thick, shape, regionValues(c, f, b), data, "read-only thick section");
  auto writable = raster.section(f[last], b[last]);
  sameView(writable, shape, regionValues(c, f, b), data, "thick section");
  writeView(g, writable, c, f, b);
  REQUIRE(std::equal(c.values.begin(), c.values.end(), raster.begin()), "raster after writing a thick section");
  if (g.coin()) {
    // section of the section
    const auto k = g.i(0, shape[last] - 1);
    f[last] += k;
    b[last] = f[last] + g.i(0, shape[last] - 1 - k);
    const auto again = thick.section(k, k + b[last] - f[last]);
    shape[last] = b[last] - f[last] + 1;
    sameView(again, shape, regionValues(c, f, b), raster.data() + nd::offset(c.shape, f), "section of a section");
  }
}

template <Index N, typename TRaster>
void flatSections(pbt::Gen& g, TRaster& raster, Case& c) {
  const std::size_t last = c.shape.size() - 1;
  const auto& readonly = raster;
  nd::Pos f(c.shape.size(), 0);
  auto b = c.shape;
  for (auto& i : b) {
    --i;
  }
  f[last] = g.i(0, c.shape[last] - 1);
  b[last] = f[last];
  NOTE("N=" << N << " shape=" << nd::str(c.shape) << " section " << f[last]);
  g.nontrivial(c.values.size() > 1);
  const int* data = raster.data() + nd::offset(c.shape, f);
  const nd::Pos shape(c.shape.begin(), c.shape.begin() + last);
  const auto flat = readonly.section(f[last]);
  sameView(flat, shape, regionValues(c, f, b), data, "read-only section");
  auto writable = raster.section(f[last]);
  sameView(writable, shape, regionValues(c, f, b), data, "section");
  writeView(g, writable, c, f, b);
  REQUIRE(std::equal(c.values.begin(), c.values.end(), raster.begin()), "raster after writing a section");
}

template <Index N, bool Recurse>
struct Recursion {
  template <typename TView>
  static void check(pbt::Gen& g, const TView& view, const Case& c, nd::Pos f, nd::Pos b, std::size_t dim) {
    const auto k = g.i(0, c.shape[dim - 1] - 1);
    f[dim - 1] = b[dim - 1] = k;
    const auto sub = view.section(k);
    const nd::Pos shape(c.shape.begin(), c.shape.begin() + dim - 1);
    // the data pointers of the views are compared through the values, which are all distinct
    const auto values = regionValues(c, f, b);
    REQUIRE(nd::from(sub.shape()) == shape, "shape of a recursive section: " << pbt::showAll(sub.shape()));
    REQUIRE(std::equal(values.begin(), values.end(), sub.begin(), sub.end()), "values of a recursive section: " << pbt::showAll(sub));
    Recursion<N - 1, (N > 3)>::check(g, sub, c, f, b, dim - 1);
  }
};

template <Index N>
struct Recursion<N, false> {
  template <typename TView>
  static void check(pbt::Gen&, const TView&, const Case&, const nd::Pos&, const nd::Pos&, std::size_t) {}
};

template <Index N>
void sectionLaw(pbt::Gen& g) {
  auto c = genCase(g, N >= 0 ? N : g.i(1, 5));
  auto storage = c.values;
  const auto how = g.draw(2);
  if (how == 0) {
    PtrRaster<int, N> raster(nd::to<N>(c.shape), storage.data());
    sections<N>(g, raster, c);
  } else {
    VecRaster<int, N> raster(nd::to<N>(c.shape), storage);
    sections<N>(g, raster, c);
  }
}

template <Index N>
void flatLaw(pbt::Gen& g) {
  auto c = genCase(g, N >= 0 ? N : g.i(2, 5));
  auto storage = c.values;
  if (g.coin()) {
    PtrRaster<int, N> raster(nd::to<N>(c.shape), storage.data());
    flatSections<N>(g, raster, c);
  } else {
    VecRaster<int, N> raster(nd::to<N>(c.shape), storage);
    flatSections<N>(g, raster, c);
  }
}

template <Index N>
void recursiveLaw(pbt::Gen& g) {
  auto c = genCase(g, N);
  NOTE("N=" << N << " shape=" << nd::str(c.shape));
  g.nontrivial(c.values.size() > 1);
  VecRaster<int, N> raster(nd::to<N>(c.shape), c.values);
  nd::Pos b = c.shape;
  for (auto& i : b) {
    --i;
  }
  const auto& readonly = raster;
  Recursion<N, true>::check(g, readonly, c, nd::Pos(N, 0), b, N);
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C08, slice, 2) {
  switch (g.draw(5)) {
    case 0:
      return sliceLaw<1, 1>(g);
    case 1:
      return sliceLaw<2, 1>(g);
    case 2:
      return sliceLaw<2, 2>(g);
    case 3:
      return sliceLaw<3, 1>(g);
    case 4:
      return sliceLaw<3, 2>(g);
    default:
      return sliceLaw<3, 3>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C08, slice_more, 2) {
  switch (g.draw(5)) {
    case 0:
      return sliceLaw<4, 2>(g);
    case 1:
      return sliceLaw<4, 3>(g);
    case 2:
      return sliceLaw<5, 2>(g);
    case 3:
      return sliceLaw<-1, 1>(g);
    case 4:
      return sliceLaw<-1, 2>(g);
    default:
      return sliceLaw<-1, 3>(g);
  }
}
#elif PBT_PART == 2
PBT_LAW(C08, section_thick, 1) {
  switch (g.draw(4)) {
    case 0:
      return sectionLaw<1>(g);
    case 1:
      return sectionLaw<2>(g);
    case 2:
      return sectionLaw<3>(g);
    case 3:
      return sectionLaw<4>(g);
    default:
      return sectionLaw<-1>(g);
  }
}
#else
PBT_LAW(C08, section_flat, 1) {
  switch (g.draw(3)) {
    case 0:
      return flatLaw<2>(g);
    case 1:
      return flatLaw<3>(g);
    case 2:
      return flatLaw<4>(g);
    default:
      return flatLaw<-1>(g);
  }
}
PBT_LAW(C08, section_recursive, 1) {
  switch (g.draw(2)) {
    case 0:
      return recursiveLaw<2>(g);
    case 1:
      return recursiveLaw<3>(g);
    default:
      return recursiveLaw<4>(g);
  }
}
#endif
