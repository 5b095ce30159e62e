// C26: pipelines evaluate each step at most once, after its prerequisites, in any history of requests.
#include "nd.h"

#include "LitlRun/StepperPipeline.h"

#include <chrono>
#include <set>

using namespace Litl;

// Clock under control: time elapses in the steps only.
static long c26Now = 0;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(c26Now));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(c26Now));
}
} // namespace _V2
} // namespace chrono
} // namespace std

namespace {

constexpr int count = 14;

template <int I>
struct S;

using Words = std::vector<int>;

// clang-format off
template <> struct S<0> : PipelineStep<void, long> {};
template <> struct S<1> : PipelineStep<void, const long&> {};
template <> struct S<2> : PipelineStep<S<0>, long> {};
template <> struct S<3> : PipelineStep<S<2>, const std::string&> {};
template <> struct S<4> : PipelineStep<std::tuple<S<2>, S<1>>, double> {};
template <> struct S<5> : PipelineStep<std::tuple<S<4>, S<3>, S<0>>, void> {};
template <> struct S<6> : PipelineStep<S<5>, const Words&> {};
template <> struct S<7> : PipelineStep<std::tuple<S<1>, S<0>>, std::string> {};
template <> struct S<8> : PipelineStep<std::tuple<S<7>, S<6>, S<2>, S<5>>, long&> {};
template <> struct S<9> : PipelineStep<std::tuple<>, Words> {};
template <> struct S<10> : PipelineStep<std::tuple<S<9>, S<9>>, long> {};
template <> struct S<11> : PipelineStep<std::tuple<S<10>, S<4>>, long> {};
template <> struct S<12> : PipelineStep<std::tuple<S<7>, S<3>, S<0>, S<9>, S<1>, S<8>, S<11>>, std::string> {};
template <> struct S<13> : PipelineStep<std::tuple<S<9>, S<0>, S<1>, S<2>, S<12>>, void> {};
// clang-format on

const std::vector<std::vector<int>> parents {{}, {}, {0}, {2}, {2, 1}, {4, 3, 0}, {5}, {1, 0}, {7, 6, 2, 5}, {}, {9}, {10, 4}, {7, 3, 0, 9, 1, 8, 11}, {9, 0, 1, 2, 12}};

struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};

/// What an instance did.
struct Pipeline : StepperPipeline<Pipeline> {
  long values[count] = {};
  std::string strings[count];
  Words words[count];
  std::vector<int> log;
  std::vector<int> gets;
  int thrower = -1;
  int throws = 0;
  long duration[count] = {};
  long salt = 0;

  void restart() {
    this->reset();
  }

  void run(int i) {
    c26Now += duration[i];
    log.push_back(i);
    if (i == thrower && throws > 0) {
      --throws;
      throw Boom("step");
    }
    long v = 1000003 * (i + 1) + salt;
    for (auto p : parents[i]) {
      v = (v * 31 + values[p]) % 1000000007L;
    }
    values[i] = v;
    strings[i] = std::to_string(v);
    words[i] = {i, static_cast<int>(v)};
  }

protected:
  template <typename T>
  void doEvaluate();

  template <typename T>
  typename T::Return doGet();
};

// clang-format off
template <> void Pipeline::doEvaluate<S<0>>() { run(0); }
template <> void Pipeline::doEvaluate<S<1>>() { run(1); }
template <> void Pipeline::doEvaluate<S<2>>() { run(2); }
template <> void Pipeline::doEvaluate<S<3>>() { run(3); }
template <> void Pipeline::doEvaluate<S<4>>() { run(4); }
template <> void Pipeline::doEvaluate<S<5>>() { run(5); }
template <> void Pipeline::doEvaluate<S<6>>() { run(6); }
template <> void Pipeline::doEvaluate<S<7>>() { run(7); }
template <> void Pipeline::doEvaluate<S<8>>() { run(8); }
template <> void Pipeline::doEvaluate<S<9>>() { run(9); }
template <> void Pipeline::doEvaluate<S<10>>() { run(10); }
template <> void Pipeline::doEvaluate<S<11>>() { run(11); }
template <> void Pipeline::doEvaluate<S<12>>() { run(12); }
template <> void Pipeline::doEvaluate<S<13>>() { run(13); }
template <> long Pipeline::doGet<S<0>>() { return values[0]; }
template <> const long& Pipeline::doGet<S<1>>() { return values[1]; }
template <> long Pipeline::doGet<S<2>>() { return values[2]; }
template <> const std::string& Pipeline::doGet<S<3>>() { return strings[3]; }
template <> double Pipeline::doGet<S<4>>() { return values[4]; }
template <> void Pipeline::doGet<S<5>>() {}
template <> const Words& Pipeline::doGet<S<6>>() { return words[6]; }
template <> std::string Pipeline::doGet<S<7>>() { return strings[7]; }
template <> long& Pipeline::doGet<S<8>>() { return values[8]; }
template <> Words Pipeline::doGet<S<9>>() { return words[9]; }
template <> long Pipeline::doGet<S<10>>() { return values[10]; }
template <> long Pipeline::doGet<S<11>>() { return values[11]; }
template <> std::string Pipeline::doGet<S<12>>() { return strings[12]; }
template <> void Pipeline::doGet<S<13>>() {}
// clang-format on

/// What it should have done.
struct Model {
  std::set<int> done;
  long values[count] = {};
  long elapsed[count] = {};

  void closure(int i, std::set<int>& out) const {
    for (auto p : parents[i]) {
      closure(p, out);
    }
    if (!done.count(i)) {
      out.insert(i);
    }
  }
};

#define FOREACH_STEP(m) m(0) m(1) m(2) m(3) m(4) m(5) m(6) m(7) m(8) m(9) m(10) m(11) m(12) m(13)

void get(Pipeline& p, int i, long expected) {
  const auto str = std::to_string(expected);
  switch (i) {
    case 0:
      REQUIRE_EQ(p.get<S<0>>(), expected, "value of step 0");
      break;
    case 1: {
      const long& r = p.get<S<1>>();
      REQUIRE_EQ(r, expected, "value of step 1");
      REQUIRE(&r == &p.values[1], "step 1 is not returned by reference");
      break;
    }
    case 2:
      REQUIRE_EQ(p.get<S<2>>(), expected, "value of step 2");
      break;
    case 3: {
      const std::string& r = p.get<S<3>>();
      REQUIRE(r == str && &r == &p.strings[3], "value of step 3 is " << r);
      break;
    }
    case 4:
      REQUIRE_EQ(p.get<S<4>>(), static_cast<double>(expected), "value of step 4");
      break;
    case 5:
      p.get<S<5>>();
      break;
    case 6: {
      const Words& r = p.get<S<6>>();
      REQUIRE(&r == &p.words[6] && r.size() == 2 && r[1] == expected, "value of step 6");
      break;
    }
    case 7:
      REQUIRE_EQ(p.get<S<7>>(), str, "value of step 7");
      break;
    case 8: {
      long& r = p.get<S<8>>();
      REQUIRE(&r == &p.values[8] && r == expected, "value of step 8 is " << r);
      break;
    }
    case 9: {
      const Words r = p.get<S<9>>();
      REQUIRE(r.size() == 2 && r[1] == expected, "value of step 9");
      break;
    }
    case 10:
      REQUIRE_EQ(p.get<S<10>>(), expected, "value of step 10");
      break;
    case 11:
      REQUIRE_EQ(p.get<S<11>>(), expected, "value of step 11");
      break;
    case 12:
      REQUIRE_EQ(p.get<S<12>>(), str, "value of step 12");
      break;
    default:
      p.get<S<13>>();
  }
}

void verify(const Pipeline& p, const Model& m) {
  double total = 0;
#define VERIFY_STEP(i) \
  REQUIRE_EQ(p.evaluated<S<i>>(), m.done.count(i) > 0, "evaluated() of step " << i); \
  if (m.done.count(i)) { \
    const double ms = m.elapsed[i] * 1e-6; \
    total += ms; \
    REQUIRE(std::abs(p.milliseconds<S<i>>() - ms) <= 1e-9 * (1 + ms), "duration of step " << i << " is " << p.milliseconds<S<i>>() << " instead of " << ms); \
  } else { \
    REQUIRE_EQ(p.milliseconds<S<i>>(), -1., "duration of step " << i); \
  }
  FOREACH_STEP(VERIFY_STEP)
  REQUIRE(std::abs(p.milliseconds() - total) <= 1e-9 * (1 + total), "total duration is " << p.milliseconds() << " instead of " << total);
}

} // namespace

PBT_LAW(C26, history, 1) {
  c26Now = g.i(0, 1000);
  const int pool = g.chance(1, 3) ? 2 : 1;
  std::vector<Pipeline> ps(pool);
  std::vector<Model> ms(pool);
  for (auto& p : ps) {
    p.salt = g.i(0, 50);
  }
  const long steps = g.count(1, 14);
  std::size_t requests = 0;
  for (long k = 0; k < steps; ++k) {
    const int w = pool == 2 ? static_cast<int>(g.draw(1)) : 0;
    auto& p = ps[w];
    auto& m = ms[w];
    const auto action = g.draw(9);
    p.log.clear();
    if (action == 0) {
      NOTE(w << ": reset; ");
      p.restart();
      m.done.clear();
      p.salt += g.i(1, 5);
    } else if (action == 1 && pool == 2) {
      NOTE(w << ": copy to the other; ");
      ps[1 - w] = p;
      ms[1 - w] = m;
    } else {
      const int i = static_cast<int>(g.draw(count - 1));
      std::set<int> todo;
      m.closure(i, todo);
      for (auto s : todo) {
        p.duration[s] = g.coin() ? 0 : g.i(0, 5000000);
      }
      p.thrower = -1;
      p.throws = 0;
      if (action == 2) {
        p.thrower = static_cast<int>(g.draw(count - 1));
        p.throws = 1;
      }
      const bool fails = p.throws && todo.count(p.thrower);
      NOTE(w << ": get " << i << (fails ? " which fails at step " : "") << (fails ? std::to_string(p.thrower) : "") << "; ");
      g.label(fails ? "failure" : todo.empty() ? "nothing to do" : todo.size() == 1 ? "single evaluation" : "several evaluations");
      requests += !todo.empty();
      // expected values
      long next[count];
      std::copy_n(m.values, count, next);
      for (auto s : todo) { // steps are topologically sorted
        long v = 1000003 * (s + 1) + p.salt;
        for (auto q : parents[s]) {
          v = (v * 31 + next[q]) % 1000000007L;
        }
        next[s] = v;
      }
      bool thrown = false;
      try {
        get(p, i, next[i]);
      } catch (const Boom&) {
        thrown = true;
      }
      REQUIRE_EQ(thrown, fails, "exception of the step");
      for (auto s : p.log) {
        REQUIRE(todo.count(s), "step " << s << " is evaluated, although " << (m.done.count(s) ? "already done" : "not required"));
        for (auto q : parents[s]) {
          REQUIRE(m.done.count(q), "step " << s << " is evaluated before its prerequisite " << q);
        }
        if (fails && s == p.thrower) {
          todo.erase(s);
          continue;
        }
        REQUIRE(m.done.insert(s).second, "step " << s << " is evaluated twice");
        m.values[s] = next[s];
        m.elapsed[s] = p.duration[s];
      }
      REQUIRE(fails || p.log.size() == todo.size(), "some required step is not evaluated");
    }
    for (int v = 0; v < pool; ++v) {
      verify(ps[v], ms[v]);
    }
  }
  g.nontrivial(requests > 0 && steps > 1);
}
