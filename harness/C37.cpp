// C37: failures (memory exhaustion, exceptions of user functions, wrong arguments) leave no leak and valid objects.
#include "nd.h"

#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/MedianFilter.h"

#include <memory>
#include <new>
#include <numeric>
#include <valarray>

using namespace Litl;

namespace {

/// The allocation which fails, counted from the beginning of the attempt; negative if none.
volatile long countdown = -1;
volatile bool failed = false;
volatile long balance = 0; ///< Number of live allocations made or freed while watched
volatile bool watching = false;
constexpr std::size_t tooMuch = std::size_t(1) << 32; ///< No such memory, and AddressSanitizer would complain

bool refuse() {
  if (!watching || countdown < 0) {
    return false;
  }
  if (countdown-- == 0) {
    failed = true;
    return true;
  }
  return false;
}

} // namespace

extern "C" {
void* __real_malloc(std::size_t);
void __real_free(void*);

void* __wrap_malloc(std::size_t n) {
  if (refuse()) {
    return nullptr;
  }
  void* out = n > tooMuch ? nullptr : __real_malloc(n);
  if (out && watching) {
    balance = balance + 1;
  }
  return out;
}

void __wrap_free(void* p) {
  if (p && watching) {
    balance = balance - 1;
  }
  __real_free(p);
}
}

void* operator new(std::size_t n) {
  if (refuse()) {
    throw std::bad_alloc();
  }
  void* out = n > tooMuch ? nullptr : __real_malloc(n ? n : 1);
  if (!out) {
    throw std::bad_alloc();
  }
  if (watching) {
    balance = balance + 1;
  }
  return out;
}
void* operator new[](std::size_t n) {
  return operator new(n);
}
void operator delete(void* p) noexcept {
  if (p && watching) {
    balance = balance - 1;
  }
  __real_free(p);
}
void operator delete[](void* p) noexcept {
  operator delete(p);
}
void operator delete(void* p, std::size_t) noexcept {
  operator delete(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  operator delete(p);
}

namespace {

struct Boom {};

/// Count the allocations from here on, and expect none to be left.
struct Watch {
  Watch() {
    countdown = -1;
    balance = 0;
    watching = true;
  }
  ~Watch() {
    watching = false;
    countdown = -1;
  }
};

/// Run the operation with its k-th allocation failing: the failure must be reported as an exception.
/// \return True if it has failed.
template <typename F>
bool attempt(long k, F&& f) {
  failed = false;
  countdown = k;
  bool thrown = false;
  try {
    f();
  } catch (const std::bad_alloc&) {
    thrown = true;
  }
  countdown = -1;
  const bool f2 = failed;
  if (thrown != f2) {
    watching = false;
    FAIL((f2 ? "an allocation failed, yet no exception was raised" : "std::bad_alloc was raised although memory was available"));
  }
  return thrown;
}

void settled(const char* what) {
  const long b = balance;
  watching = false;
  REQUIRE(b <= 0, what << ": " << b << " allocations are leaked");
  REQUIRE(b >= 0, what << ": " << -b << " too many deallocations");
}

template <typename R, typename V>
void expectValues(const R& r, const nd::Pos& shape, const V& values, const char* what) {
  const bool was = watching;
  watching = false;
  REQUIRE(nd::from(r.shape()) == shape, what << ": shape is " << pbt::showAll(r.shape()));
  REQUIRE_EQ(static_cast<std::size_t>(r.size()), values.size(), what << ": size");
  REQUIRE(std::equal(values.begin(), values.end(), r.begin()), what << ": values are " << pbt::showAll(r));
  watching = was;
}

template <typename T>
std::vector<T> randomValues(pbt::Gen& g, long size) {
  std::vector<T> out(size);
  for (auto& v : out) {
    v = static_cast<T>(g.i(1, 9));
  }
  return out;
}

template <typename R, typename T, Index N>
void holderLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 3);
  const auto shape = nd::shape(g, n, 60);
  const auto other = nd::shape(g, n, 60);
  const auto values = randomValues<T>(g, nd::size(shape));
  const auto values2 = randomValues<T>(g, nd::size(other));
  const auto values3 = randomValues<T>(g, nd::size(shape));
  const auto op = g.draw(10);
  const bool robust = !std::is_same<R, ValRaster<T, N>>::value; // Assigning std::valarray is not exception safe
  const long k = robust || (op != 3 && op != 10) ? g.i(0, 9) : -1;
  NOTE("shape " << nd::str(shape) << " other " << nd::str(other) << " operation " << op << " allocation " << k);
  const auto s = nd::to<N>(shape);
  const auto s2 = nd::to<N>(other);
  bool any = false;
  const long at = g.i(0, nd::size(shape));
  const auto bytes = g.draw(4);
  {
    Watch w;
    {
      R a(s, values);
      R b(s2, values2);
      R c(s, values3);
      std::vector<T> sum(values), sinus(values);
      for (std::size_t i = 0; i < values.size(); ++i) {
        sum[i] = static_cast<T>(values[i] + values3[i]);
      }
      switch (op) {
        case 0:
          any = attempt(k, [&]() {
            R r(s, values);
            expectValues(r, shape, values, "new raster");
          });
          break;
        case 1:
          any = attempt(k, [&]() {
            R r(s);
            expectValues(r.fill(T(3)), shape, std::vector<T>(values.size(), T(3)), "new raster");
          });
          break;
        case 2:
          any = attempt(k, [&]() {
            R r(a);
            expectValues(r, shape, values, "copy");
          });
          break;
        case 3:
          any = attempt(k, [&]() {
            b = a;
          });
          if (any && N != -1) {
            expectValues(b, other, values2, "target of the failed assignment");
          }
          b = a; // Memory is available again
          expectValues(b, shape, values, "assigned raster");
          break;
        case 4:
          any = attempt(k, [&]() {
            const auto r = a + c;
            expectValues(r, shape, sum, "sum");
          });
          break;
        case 5:
          any = attempt(k, [&]() {
            a += c;
          });
          expectValues(a, shape, sum, "sum in place");
          a = R(s, values);
          break;
        case 6: {
          // A user function which throws
          long calls = 0;
          bool thrown = false;
          try {
            a.apply(
                [&](auto x, auto y) {
                  if (calls++ == at) {
                    throw Boom();
                  }
                  return static_cast<T>(x + y);
                },
                c);
          } catch (const Boom&) {
            thrown = true;
          }
          any = thrown;
          watching = false;
          REQUIRE_EQ(thrown, at < static_cast<long>(values.size()), "exception of the function");
          REQUIRE(nd::from(a.shape()) == shape && a.size() == values.size(), "shape after an exception");
          for (std::size_t i = 0; i < values.size(); ++i) {
            REQUIRE(a[i] == values[i] || a[i] == sum[i], "value " << i << " after an exception");
          }
          watching = true;
          a = R(s, values);
          break;
        }
        case 7: {
          // Wrong arguments
          auto wrong = other;
          wrong.back() += nd::size(shape) + 1;
          bool thrown = false;
          const auto p = nd::to<N>(wrong);
          try {
            R r(p, values);
          } catch (const Exception&) {
            thrown = true;
          }
          any = true;
          watching = false;
          REQUIRE(thrown, "size mismatch is accepted");
          watching = true;
          thrown = false;
          auto out = nd::to<N>(shape);
          try {
            a.at(out) = T(0);
          } catch (const OutOfBoundsError&) {
            thrown = true;
          }
          watching = false;
          REQUIRE(thrown, "out of bounds position is accepted");
          watching = true;
          break;
        }
        case 8:
          any = attempt(k, [&]() {
            R r(std::move(a));
            a = std::move(r);
          });
          if (any) { // Partly moved: may be anywhere, yet is assignable
            a = R(s, values);
          }
          break;
        case 9: {
          // More memory than there is, including sizes in bytes which are not representable
          const std::size_t huge[] = {
              std::size_t(1) << 50,
              std::size_t(-1) / sizeof(T) / 2,
              std::size_t(-1) / sizeof(T) - 16,
              std::size_t(1) << 62,
              (std::size_t(1) << 63) - 1};
          // std::valarray does not check sizes by itself
          const auto size = huge[std::is_same<R, ValRaster<T, N>>::value ? bytes % 2 : bytes];
          bool thrown = false;
          auto position = s;
          for (auto& e : position) {
            e = 1;
          }
          position[0] = static_cast<Index>(size);
          watching = false;
          try {
            R r(position);
            REQUIRE(r.data() != nullptr, "no data for " << size << " pixels");
            FAIL("got memory for " << size << " pixels");
          } catch (const std::bad_alloc&) {
            thrown = true;
          } catch (const std::length_error&) {
            thrown = true;
          }
          REQUIRE(thrown, "no exception");
          watching = true;
          any = true;
          break;
        }
        default:
          any = attempt(k, [&]() {
            std::vector<R> many;
            many.reserve(2);
            many.push_back(a);
            many.emplace_back(s, values3);
            std::swap(many[0], many[1]);
            expectValues(many[1], shape, values, "swapped");
          });
      }
      expectValues(a, shape, values, "operand");
      expectValues(c, shape, values3, "second operand");
    }
    settled("after all");
  }
  g.nontrivial(any);
}

/// Do not count, nor refuse, the allocations of a failing oracle.
void expect(bool ok, const char* what) {
  if (!ok) {
    watching = false;
    FAIL("wrong result: " << what);
  }
}

template <Index N>
void filterLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 2);
  const auto shape = nd::shape(g, n, 40);
  const auto values = randomValues<double>(g, nd::size(shape));
  const auto s = nd::to<N>(shape);
  const auto op = g.draw(6);
  const long k = g.chance(1, 4) ? g.i(0, 60) : g.i(0, 6);
  NOTE("shape " << nd::str(shape) << " operation " << op << " allocation " << k);
  bool any = false;
  {
    Watch w;
    {
      const VecRaster<double, N> a(s, values);
      auto unit = s;
      for (auto& e : unit) {
        e = 1;
      }
      const Box<N> window(unit * -1L, unit);
      const std::vector<double> weights(window.size(), 1.);
      switch (op) {
        case 0:
          any = attempt(k, [&]() {
            const auto kernel = kernelize(weights.data(), window);
            const auto out = kernel * extrapolate<NearestNeighbor>(a);
            double sum = 0;
            for (const auto& q : window) {
              auto p = q;
              for (std::size_t i = 0; i < n; ++i) {
                p[i] = std::min<Index>(std::max<Index>(q[i], 0), shape[i] - 1);
              }
              sum += a[p];
            }
            expect(out[0] == sum, "correlation");
          });
          break;
        case 1:
          any = attempt(k, [&]() {
            MedianFilter<double, N> filter(window);
            const auto out = filter.apply(extrapolate<Periodic>(a));
            expect(out.size() == a.size(), "median");
          });
          break;
        case 2:
          any = attempt(k, [&]() {
            auto d = a.distribution();
            expect(d.quantile(0.) == *std::min_element(values.begin(), values.end()), "quantile");
            const auto h = d.histogram(std::vector<double> {0, 5, 10});
            expect(static_cast<std::size_t>(h[0] + h[1]) == values.size(), "histogram");
          });
          break;
        case 3:
          any = attempt(k, [&]() {
            const auto pieces = a.domain().surround(window);
            expect(pieces.size() == 2 * n, "pieces");
          });
          break;
        case 4:
          any = attempt(k, [&]() {
            const auto out = exp(a * 0.);
            expect(out[0] == 1., "exp");
          });
          break;
        case 5:
          any = attempt(k, [&]() {
            double sum = 0;
            const auto sub = a.subraster(a.domain());
            for (const auto& e : sub) {
              sum += e;
            }
            expect(sum == std::accumulate(values.begin(), values.end(), 0.), "sum over a subraster");
          });
          break;
        default:
          any = attempt(k, [&]() {
            const auto section = a.section(0, 0);
            const auto out = VecRaster<double, N>(section.shape(), section);
            expect(out[0] == values[0], "section");
          });
      }
      expectValues(a, shape, values, "operand");
    }
    settled("after all");
  }
  g.nontrivial(any);
}

/// A user function which throws at a given call.
struct Fuse {
  mutable long left;
  void burn() const {
    if (left-- == 0) {
      throw Boom();
    }
  }
};

/// User-defined extrapolation method.
struct Fussy {
  const Fuse& fuse;
  template <typename TRaster>
  const typename TRaster::Value& at(const TRaster& raster, const Position<TRaster::Dimension>& position) const {
    fuse.burn();
    return raster[clamp(position, raster.shape())];
  }
};

/// A user type whose copies may throw.
struct Touchy {
  static const Fuse* fuse;
  Touchy(int v = 0) : value(new int(v)) {}
  Touchy(const Touchy& other) : value((fuse ? fuse->burn() : void(), new int(*other.value))) {}
  Touchy& operator=(const Touchy& other) {
    if (fuse) {
      fuse->burn();
    }
    *value = *other.value;
    return *this;
  }
  ~Touchy() {
    delete value;
  }
  bool operator==(const Touchy& other) const {
    return *value == *other.value;
  }
  int* value;
};
const Fuse* Touchy::fuse = nullptr;

template <Index N>
void throwingLaw(pbt::Gen& g) {
  const auto n = nd::dim(g, N, 2);
  const auto shape = nd::shape(g, n, 40);
  const auto values = randomValues<double>(g, nd::size(shape));
  const auto s = nd::to<N>(shape);
  const auto op = g.draw(8);
  const long k = g.coin() ? g.i(0, 10) : g.i(0, 10 * nd::size(shape));
  NOTE("shape " << nd::str(shape) << " operation " << op << " call " << k);
  bool thrown = false;
  const Fuse fuse {k};
  {
    Watch w;
    {
      const VecRaster<double, N> a(s, values);
      VecRaster<double, N> b(s);
      b.fill(-1);
      auto unit = s;
      unit.fill(1);
      const Box<N> window(unit * -1L, unit);
      const std::vector<double> weights(window.size(), 1.);
      const auto in = extrapolate<Fussy>(a, Fussy {fuse});
      // Expected filtered values
      VecRaster<double, N> sums(s), medians(s);
      for (const auto& p : a.domain()) {
        std::vector<double> neighbors;
        for (const auto& q : window) {
          neighbors.push_back(a[clamp(p + q, a.shape())]);
        }
        sums[p] = std::accumulate(neighbors.begin(), neighbors.end(), 0.);
        std::sort(neighbors.begin(), neighbors.end());
        medians[p] = neighbors[neighbors.size() / 2];
      }
      // The pixels are either untouched or final
      const auto partial = [&](const VecRaster<double, N>& expected, double scale) {
        watching = false;
        REQUIRE(b.shape() == s && b.size() == values.size(), "shape of the output");
        for (std::size_t i = 0; i < values.size(); ++i) {
          // The filters may use the output as scratch memory
          REQUIRE(b[i] == expected[i] * scale || (thrown && (b[i] == -1 || op == 0 || op == 2)), "pixel " << i << " is " << b[i] << " instead of " << expected[i] * scale);
        }
        watching = true;
      };
      try {
        switch (op) {
          case 0: {
            const auto kernel = kernelize(weights.data(), window);
            kernel.correlateTo(in, b);
            break;
          }
          case 1: {
            const auto kernel = kernelize(weights.data(), window);
            b = kernel * in;
            break;
          }
          case 2: {
            MedianFilter<double, N> filter(window);
            filter.applyTo(in, b);
            break;
          }
          case 3: {
            MedianFilter<double, N> filter(window);
            b = filter.apply(in);
            break;
          }
          case 4:
            b.generate(
                [&](double x) {
                  fuse.burn();
                  return 2 * x;
                },
                a);
            break;
          case 5:
            b = a;
            b.fill(-1).generate([i = 0, &fuse, &values]() mutable {
              fuse.burn();
              return 3 * values[i++];
            });
            break;
          case 6: {
            auto it = b.begin();
            const auto region = a.domain();
            for (const auto& p : region) {
              fuse.burn();
              *it++ = 4 * a[p];
            }
            break;
          }
          case 7: {
            // Elements which cannot be copied
            struct Guard {
              ~Guard() {
                Touchy::fuse = nullptr;
              }
            } guard;
            VecRaster<Touchy, N> many(s);
            for (std::size_t i = 0; i < values.size(); ++i) {
              *many[i].value = i + 1;
            }
            VecRaster<Touchy, N> other(s);
            Touchy::fuse = &fuse;
            {
              const auto copy = many;
              (void)copy;
            }
            other = many;
            auto moved = std::move(many);
            moved.fill(Touchy(3));
            break;
          }
          default: {
            const auto linear = interpolate<std::conditional_t<N == -1, NearestNeighbor, Linear>>(in);
            for (const auto& p : a.domain()) {
              Vector<double, N> x(static_cast<Index>(p.size()));
              std::copy(p.begin(), p.end(), x.begin());
              b[p] = linear(x);
            }
          }
        }
      } catch (const Boom&) {
        thrown = true;
      }
      switch (op) {
        case 0:
        case 1:
          partial(sums, 1);
          break;
        case 2:
        case 3:
          partial(medians, 1);
          break;
        case 4:
          partial(a, 2);
          break;
        case 5:
          partial(a, 3);
          break;
        case 6:
          partial(a, 4);
          break;
        case 7:
          break;
        default:
          partial(a, 1);
      }
      expectValues(a, shape, values, "operand");
    }
    settled("after all");
  }
  REQUIRE_EQ(thrown, fuse.left < 0, "exception of the user function");
  g.nontrivial(thrown);
}

/// Invalid arguments of constructors, accessors and views.
template <typename E, typename F>
void refused(const char* what, F&& f) {
  bool thrown = false;
  try {
    f();
  } catch (const E&) {
    thrown = true;
  }
  if (!thrown) {
    watching = false;
    FAIL(what << " is accepted");
  }
}

void wrongLaw(pbt::Gen& g) {
  const auto shape = nd::shape(g, 2, 40);
  const auto s = nd::to<2>(shape);
  const auto values = randomValues<int>(g, nd::size(shape));
  const auto op = g.draw(9);
  const long off = g.pick<long>({1, 1, 2, 3, 10, 1L << 20});
  const long delta = g.coin() ? off : -off;
  const auto axis = g.i(0, 1);
  const auto size = static_cast<long>(values.size());
  NOTE("shape " << nd::str(shape) << " operation " << op << " off by " << delta << " along " << axis);
  {
    Watch w;
    {
      VecRaster<int, 2> a(s, values);
      const VecRaster<int, 2>& ca = a;
      switch (op) {
        case 0:
          refused<OutOfBoundsError>("index", [&]() {
            a.at(delta > 0 ? size - 1 + off : -size - off);
          });
          break;
        case 1: {
          auto p = nd::to<2>(shape) - 1L;
          p[axis] = delta > 0 ? shape[axis] - 1 + off : -shape[axis] - off;
          refused<OutOfBoundsError>("position", [&]() {
            ca.at(p);
          });
          break;
        }
        case 2: {
          const auto count = delta > 0 ? size + off % 1000 : std::max(0L, size - off);
          const std::vector<int> wrong(count, 1);
          if (count != size) {
            refused<SizeError>("number of values", [&]() {
              VecRaster<int, 2> b(s, wrong);
            });
            refused<SizeError>("number of values of a valarray", [&]() {
              ValRaster<int, 2> b(s, wrong);
            });
            refused<SizeError>("size of a vector", [&]() {
              auto moved = wrong;
              VecRaster<int, 2> b(s, std::move(moved));
            });
            refused<SizeError>("size of a rasterized vector", [&]() {
              rasterize(wrong, shape[0], shape[1]);
            });
          }
          break;
        }
        case 3:
          // Rasters of fixed capacity
          if (size != 6) {
            refused<std::exception>("size of an array", [&]() {
              ArrRaster<int, 6, 2> b(s);
            });
            refused<std::exception>("size of an array with values", [&]() {
              ArrRaster<int, 6, 2> b(s, values);
            });
            refused<SizeError>("size of a given array", [&]() {
              ArrRaster<int, 6, 2> b(s, std::array<int, 6> {{1, 2, 3, 4, 5, 6}});
            });
          }
          break;
        case 4:
          if (shape[0] > 1 && shape[1] > 1) {
            auto back = nd::to<2>(shape) - 1L;
            Position<2> front {0, 0};
            if (axis == 0) {
              front[0] = 1 + off % (shape[0] - 1); // Part of several rows
            } else {
              back[0] -= 1 + off % (shape[0] - 1);
            }
            refused<Exception>("slice which is not contiguous", [&]() {
              a.slice<2>(Box<2>(front, back));
            });
            refused<Exception>("line over several rows", [&]() {
              ca.slice<1>(Box<2>(Position<2> {0, 0}, back));
            });
          }
          break;
        case 5: {
          VecRaster<int, -1> b(nd::to<-1>(shape), values);
          Position<-1> p(axis ? 3 : 1);
          p.fill(0);
          refused<SizeError>("dimension of the position", [&]() {
            b.index(p);
          });
          break;
        }
        case 6: {
          const std::size_t as = 2L << g.draw(6);
          std::vector<char> memory(1024);
          auto* data = memory.data() + 256 - (std::uintptr_t(memory.data()) % 256) + 1 + off % (as - 1 ? as - 1 : 1);
          if (std::uintptr_t(data) % as) {
            refused<AlignmentError>("misaligned data", [&]() {
              AlignedBuffer<char> b(16, data, as);
            });
            refused<AlignmentError>("misaligned raster", [&]() {
              AlignedRaster<char, 1> b({16}, data, as);
            });
          }
          break;
        }
        case 7:
          refused<NullPtrError>("null pointer", [&]() {
            isAligned<int>(nullptr, 16);
          });
          refused<NullPtrError>("null pointer", [&]() {
            alignment<int>(nullptr);
          });
          break;
        case 8: {
          const Index bound = g.i(-5, 5);
          refused<OutOfBoundsError>("value", [&]() {
            OutOfBoundsError::mayThrow("value", delta > 0 ? bound + off : bound - 5 - off, {bound - 5, bound});
          });
          break;
        }
        default: {
          const auto d = a.domain();
          // Views do not own, be they read-only
          const auto section = ca.section(0, shape[1] - 1);
          refused<OutOfBoundsError>("position in a section", [&]() {
            auto p = nd::to<2>(shape) - 1L;
            p[axis] += off;
            section.at(p);
          });
          expectValues(section, shape, values, "section");
          watching = false;
          REQUIRE(nd::from(d.shape()) == shape, "domain");
          watching = true;
        }
      }
      expectValues(a, shape, values, "operand");
    }
    settled("after all");
  }
  g.nontrivial(size > 1);
}

} // namespace

PBT_LAW(C37, vector, 1) {
  g.coin() ? holderLaw<VecRaster<double, 2>, double, 2>(g) : holderLaw<VecRaster<std::uint8_t, -1>, std::uint8_t, -1>(g);
}
PBT_LAW(C37, aligned, 1) {
  g.coin() ? holderLaw<AlignedRaster<double, 2>, double, 2>(g) :
             holderLaw<AlignedRaster<std::uint16_t, -1>, std::uint16_t, -1>(g);
}
PBT_LAW(C37, valarray, .5) {
  holderLaw<ValRaster<float, 3>, float, 3>(g);
}
PBT_LAW(C37, filters, 1) {
  g.coin() ? filterLaw<2>(g) : filterLaw<-1>(g);
}
PBT_LAW(C37, throwing, 1) {
  g.coin() ? throwingLaw<2>(g) : throwingLaw<-1>(g);
}
PBT_LAW(C37, wrong, 1) {
  wrongLaw(g);
}
