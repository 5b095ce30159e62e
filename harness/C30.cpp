// C30: all the pixel looping strategies of the benchmark compute the same thing, for any size and history.
#include "nd.h"

#include "LitlRun/IterationBenchmark.h"

using namespace Litl;

/// The clock ticks once at each reading, and by the requested time in between.
static long c30Now = 0;
static long c30Tick = 0;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(c30Now += c30Tick));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(c30Now += c30Tick));
}
} // namespace _V2
} // namespace chrono
} // namespace std

namespace {

struct Bench : IterationBenchmark {
  explicit Bench(Index side) : IterationBenchmark(side) {}

  using IterationBenchmark::m_a;
  using IterationBenchmark::m_b;
  using IterationBenchmark::m_c;
  using IterationBenchmark::m_chrono;
};

} // namespace

PBT_LAW(C30, strategies, 1) {
  const Index side = g.chance(1, 10) ? g.i(0, 20) : g.size(0, 7);
  NOTE("side=" << side << ": ");
  g.nontrivial(side > 1);
  Bench bench(side);
  const nd::Pos shape {side, side, side};
  for (auto* r : {&bench.m_a, &bench.m_b, &bench.m_c}) {
    REQUIRE(nd::from(r->shape()) == shape, "shape is " << nd::str(nd::from(r->shape())));
    REQUIRE_EQ(static_cast<long>(r->size()), side * side * side, "size");
  }
  for (const auto& e : bench.m_a) {
    REQUIRE(e >= -50 && e <= 50, "uniform value " << +e << " is out of range");
  }
  // Sums may exceed the range: they wrap around.
  const auto random = g.coin();
  std::uint64_t state = g.draw(1000);
  std::vector<char> a, b, expected;
  for (std::size_t i = 0; i < bench.m_a.size(); ++i) {
    if (random) {
      state = pbt::mix(state);
      bench.m_a[i] = static_cast<char>(state);
      bench.m_b[i] = static_cast<char>(state >> 8);
    }
    a.push_back(bench.m_a[i]);
    b.push_back(bench.m_b[i]);
    expected.push_back(static_cast<char>(a.back() + b.back()));
  }
  const long steps = g.count(1, 8);
  IterationBenchmark::Duration total {};
  for (long k = 0; k < steps; ++k) {
    for (auto& e : bench.m_c) {
      e = static_cast<char>(e + 1 + k);
    }
    IterationBenchmark::Duration duration;
    c30Tick = 0;
    c30Now += g.i(1, 100) * 1000000; // The time between two calls does not count
    const auto before = c30Now;
    c30Tick = g.i(0, 5) * 500000;
    const auto way = g.draw(7);
    NOTE(way << " ");
    switch (way) {
      case 0:
        duration = bench.loopOverXyz();
        break;
      case 1:
        duration = bench.loopOverZyx();
        break;
      case 2:
        duration = bench.iterateOverPositions();
        break;
      case 3:
        duration = bench.iterateOverPositionsOptimized();
        break;
      case 4:
        duration = bench.loopOverIndices();
        break;
      case 5:
        duration = bench.iterateOverValues();
        break;
      case 6:
        duration = bench.callOperator();
        break;
      default:
        duration = bench.callGenerate();
    }
    total += duration;
    REQUIRE(
        duration.count() <= (c30Now - before) / 1000000,
        "duration of strategy " << way << " is " << duration.count() << " ms instead of at most " << (c30Now - before) / 1000000. << " ms");
    REQUIRE(duration.count() > 0 || c30Tick < 1000000, "null duration of strategy " << way);
    REQUIRE(nd::from(bench.m_c.shape()) == shape, "shape of the output of strategy " << way);
    for (std::size_t i = 0; i < expected.size(); ++i) {
      REQUIRE_EQ(+bench.m_c[i], +expected[i], "strategy " << way << " at index " << i);
      REQUIRE(bench.m_a[i] == a[i] && bench.m_b[i] == b[i], "strategy " << way << " changes its input at index " << i);
    }
    REQUIRE(duration.count() >= 0 && duration == bench.m_chrono.last(), "duration of strategy " << way);
    REQUIRE_EQ(bench.m_chrono.count(), static_cast<std::size_t>(k + 1), "number of increments");
    REQUIRE(!bench.m_chrono.isRunning() && bench.m_chrono.elapsed() == total, "chronometer");
  }
}
