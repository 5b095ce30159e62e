// C14: histograms count, for each bin, the values between its bounds (the upper one being included in the last bin).
#include "nd.h"

#include "LitlContainer/Sequence.h"

#include <list>

using namespace Litl;

namespace {

template <typename T, typename B, typename TBins>
void law(pbt::Gen& g) {
  const bool many = g.chance(1, 5000); // More values in a bin than a small counter can hold
  const long n = many ? g.i(0, 200000) : g.chance(1, 30) ? g.i(0, 2000) : g.size(0, 40);
  const long m = g.coin() ? 5 : 60;
  std::vector<T> values(n);
  auto state = many ? g.draw(~0ull) : 0;
  const auto period = many ? g.i(1, 10) : 1;
  for (auto& v : values) {
    if (many) {
      state = state * 6364136223846793005ull + 1442695040888963407ull;
      v = static_cast<T>((state >> 33) % period);
      continue;
    }
    v = static_cast<T>(std::is_floating_point<T>::value ? g.real(m) : std::is_unsigned<T>::value ? g.i(0, m) : g.z(-m, m));
  }
  std::vector<B> edges(g.size(1, 20));
  for (auto& e : edges) {
    if (n > 0 && g.chance(1, 3)) {
      e = static_cast<B>(values[g.i(0, n - 1)]);
    } else {
      e = static_cast<B>(std::is_floating_point<B>::value ? g.real(m) : g.z(-m, m));
    }
  }
  std::sort(edges.begin(), edges.end());
  const bool distinct = !g.chance(1, 5);
  if (distinct) {
    edges.erase(std::unique(edges.begin(), edges.end()), edges.end());
  }
  NOTE("values=" << (many ? std::to_string(n) + " values below " + std::to_string(period) : pbt::showAll(values)) << " bins=" << pbt::showAll(edges));
  std::vector<std::size_t> expected(edges.size() - 1, 0);
  std::size_t inside = 0;
  for (auto v : values) {
    for (std::size_t i = 0; i + 1 < edges.size(); ++i) {
      const bool last = i + 2 == edges.size();
      if (static_cast<long double>(v) >= edges[i] && (static_cast<long double>(v) < edges[i + 1] || (last && static_cast<long double>(v) == edges[i + 1]))) {
        ++expected[i];
        ++inside;
      }
    }
  }
  g.nontrivial(inside > 0 && expected.size() > 1);
  g.label(inside == static_cast<std::size_t>(n) ? "all in range" : "outliers");
  const TBins bins(edges.begin(), edges.end());
  const Sequence<T> data(values);
  auto d = data.distribution();
  switch (g.draw(3)) {
    case 0:
      if (n > 0) {
        d.nth(g.i(0, n - 1));
      }
      break;
    case 1:
      d.sort();
      break;
    case 2:
      d.histogram(bins);
      break;
    default:
      break;
  }
  const auto got = d.histogram(bins);
  REQUIRE_EQ(got.size(), expected.size(), "number of bins");
  for (std::size_t i = 0; i < got.size(); ++i) {
    REQUIRE_EQ(got[i], expected[i], "bin " << i);
  }
  if (n > 0) {
    // the histogram does not spoil the other estimators
    auto sorted = values;
    std::sort(sorted.begin(), sorted.end());
    const auto i = g.i(0, n - 1);
    REQUIRE_EQ(d.nth(i), sorted[i], "nth() after histogram()");
  }
  REQUIRE(std::equal(values.begin(), values.end(), data.begin()), "the container is modified");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C14, double_double, 1) {
  law<double, double, std::vector<double>>(g);
}
#elif PBT_PART == 1
PBT_LAW(C14, int_double, 1) {
  law<int, double, std::vector<double>>(g);
}
PBT_LAW(C14, int_int, 1) {
  law<int, int, std::list<int>>(g);
}
#else
PBT_LAW(C14, float_long, 1) {
  law<float, long, std::vector<long>>(g);
}
PBT_LAW(C14, uchar_int, 1) {
  law<unsigned char, int, std::vector<int>>(g);
}
#endif
