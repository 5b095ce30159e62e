// C27: chronometers: increments, elapsed time and statistics, in any history, with a clock under control.
#include "nd.h"

#include "LitlRun/Chronometer.h"

#include <chrono>

using namespace Litl;

static long c27Now = 0;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(c27Now));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(c27Now));
}
} // namespace _V2
} // namespace chrono
} // namespace std

namespace {

template <typename TUnit>
struct Model {
  bool running = false;
  long tic = 0;
  std::vector<double> increments;
  TUnit elapsed {};
};

template <typename TUnit>
void verify(const Chronometer<TUnit>& c, const Model<TUnit>& m) {
  REQUIRE_EQ(c.isRunning(), m.running, "isRunning");
  REQUIRE_EQ(c.count(), m.increments.size(), "count");
  REQUIRE(c.increments() == m.increments, "increments are " << pbt::showAll(c.increments()) << " instead of " << pbt::showAll(m.increments));
  if (std::is_floating_point<typename TUnit::rep>::value) {
    REQUIRE(std::abs(c.elapsed().count() - m.elapsed.count()) <= 1e-9 * (1 + std::abs(m.elapsed.count())), "elapsed time is " << c.elapsed().count() << " instead of " << m.elapsed.count());
  } else {
    REQUIRE(c.elapsed() == m.elapsed, "elapsed time is " << c.elapsed().count() << " instead of " << m.elapsed.count());
  }
  const auto& v = m.increments;
  if (v.empty()) {
    return;
  }
  REQUIRE_EQ(static_cast<double>(c.last().count()), v.back(), "last");
  const double lo = *std::min_element(v.begin(), v.end());
  const double hi = *std::max_element(v.begin(), v.end());
  REQUIRE_EQ(c.min(), lo, "min");
  REQUIRE_EQ(c.max(), hi, "max");
  long double mean = 0, variance = 0;
  for (auto e : v) {
    mean += e;
  }
  mean /= v.size();
  for (auto e : v) {
    variance += (e - mean) * (e - mean);
  }
  const double stdev = std::sqrt(variance / v.size());
  REQUIRE(std::abs(c.mean() - mean) <= 1e-12 * hi, "mean is " << c.mean() << " instead of " << mean);
  REQUIRE(std::abs(c.stdev() - stdev) <= 1e-6 * stdev + 1e-12 * hi, "standard deviation is " << c.stdev() << " instead of " << stdev);
  REQUIRE(v.size() > 1 || c.stdev() == 0, "standard deviation of a single increment is " << c.stdev());
}

template <typename TUnit>
void law(pbt::Gen& g) {
  using Rep = typename TUnit::rep;
  c27Now = g.i(0, 1000000000000L);
  const auto offset = [&] {
    return TUnit(static_cast<Rep>(g.coin() ? 0 : g.z(-1000, 100000)));
  };
  const auto withOffset = g.coin();
  const auto first = withOffset ? offset() : TUnit();
  std::vector<Chronometer<TUnit>> cs;
  std::vector<Model<TUnit>> ms(1);
  ms[0].elapsed = first;
  NOTE("offset=" << first.count() << "; ");
  if (withOffset) {
    cs.emplace_back(first);
  } else {
    cs.emplace_back();
  }
  const long base = g.pick<long>({1, 1000, 1000000, 1000000000, 3600000000000L});
  const bool close = g.coin();
  const long steps = g.count(1, 25);
  long stops = 0;
  for (long k = 0; k < steps; ++k) {
    const auto w = cs.size() == 2 ? g.draw(1) : 0;
    auto& c = cs[w];
    auto& m = ms[w];
    const long wait = close ? 10 * base + g.z(-base / 1000 - 3, base / 1000 + 3) : g.i(0, 20 * base);
    switch (g.draw(8)) {
      case 0: {
        const auto o = offset();
        NOTE(w << ": reset " << o.count() << "; ");
        if (o == TUnit() && g.coin()) {
          c.reset();
        } else {
          c.reset(o);
        }
        m.running = false;
        m.increments.clear();
        m.elapsed = o;
        break;
      }
      case 1:
        if (cs.size() < 2) {
          NOTE("copy; ");
          cs.push_back(Chronometer<TUnit>(cs[0]));
          ms.push_back(Model<TUnit>(ms[0]));
        } else {
          NOTE("copy " << w << "; ");
          cs[1 - w] = cs[w];
          ms[1 - w] = ms[w];
        }
        break;
      case 2:
        NOTE(w << ": start; ");
        c.start(); // possibly restarts
        m.running = true;
        m.tic = c27Now;
        break;
      default: {
        NOTE(w << ": " << (m.running ? "" : "start, ") << wait << " ns, stop; ");
        if (!m.running) {
          c.start();
          m.tic = c27Now;
          REQUIRE(c.isRunning(), "the chronometer does not run");
        }
        c27Now += std::max(0L, wait);
        const auto inc = std::chrono::duration_cast<TUnit>(std::chrono::nanoseconds(c27Now - m.tic));
        const auto out = c.stop();
        REQUIRE(out == inc, "increment is " << out.count() << " instead of " << inc.count());
        m.running = false;
        m.increments.push_back(inc.count());
        m.elapsed += inc;
        ++stops;
      }
    }
    c27Now += g.coin() ? 0 : g.i(0, base);
    for (std::size_t i = 0; i < cs.size(); ++i) {
      verify(cs[i], ms[i]);
    }
  }
  g.nontrivial(stops > 1);
}

} // namespace

PBT_LAW(C27, nanoseconds, 1) {
  law<std::chrono::nanoseconds>(g);
}
PBT_LAW(C27, microseconds, .5) {
  law<std::chrono::microseconds>(g);
}
PBT_LAW(C27, milliseconds, 1) {
  law<std::chrono::milliseconds>(g);
}
PBT_LAW(C27, seconds, .5) {
  law<std::chrono::seconds>(g);
}
PBT_LAW(C27, floating, 1) {
  law<std::chrono::duration<double>>(g);
}
