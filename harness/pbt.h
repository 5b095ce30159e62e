/*
 * Minimal property-based testing engine with integrated shrinking.
 *
 * Every random decision of a case is one integer drawn from a Gen; a case is therefore fully described by its
 * sequence of draws ("tape"). Shrinking edits the tape, replay re-reads it.  Cases run in forked workers, so that
 * crashes, sanitizer reports, aborts and endless loops are attributed to the very case which triggered them.
 */
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

/// Failure of an oracle.
struct Failure {
  std::string what;
};

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

constexpr std::size_t maxTape = 1u << 18;

/// Thrown when a case needs more draws: it is discarded.
struct Overflow {};

class Gen {
public:
  /// Random generation; the tape is recorded in a buffer of maxTape words, `count` words being used.
  Gen(std::uint64_t seed, std::uint64_t* tape, volatile std::uint64_t* count) :
      m_state(seed), m_tape(tape), m_count(count), m_replay(false), m_in() {
    *m_count = 0;
  }

  /// Replay; the draws actually used are recorded too.
  Gen(const std::vector<std::uint64_t>& in, std::uint64_t* tape, volatile std::uint64_t* count) :
      m_state(0), m_tape(tape), m_count(count), m_replay(true), m_in(in) {
    *m_count = 0;
  }

  /// Uniform draw in [0, max].
  std::uint64_t draw(std::uint64_t max) {
    std::uint64_t v = 0;
    const std::uint64_t i = *m_count;
    if (m_replay) {
      v = i < m_in.size() ? m_in[i] : 0;
      if (v > max) {
        v = max;
      }
    } else {
      m_state += 0x9e3779b97f4a7c15ull;
      std::uint64_t r = mix(m_state);
      v = max == ~0ull ? r : r % (max + 1);
    }
    if (i >= maxTape) {
      throw Overflow {};
    }
    m_tape[i] = v;
    *m_count = i + 1;
    return v;
  }

  /// Uniform integer in [lo, hi], shrinking towards lo.
  long i(long lo, long hi) {
    return static_cast<long>(
        static_cast<std::uint64_t>(lo) +
        draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
  }

  /// Uniform integer in [lo, hi], shrinking towards the value closest to 0.
  long z(long lo, long hi) {
    if (lo >= 0) {
      return i(lo, hi);
    }
    if (hi <= 0) {
      return -i(-hi, -lo);
    }
    // interleave 0, 1, -1, 2, -2...
    const std::uint64_t n = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo);
    const std::uint64_t m = std::min<std::uint64_t>(hi, -lo);
    const std::uint64_t k = draw(n);
    if (k <= 2 * m) {
      return (k & 1) ? static_cast<long>((k + 1) / 2) : -static_cast<long>(k / 2);
    }
    const auto r = static_cast<long>(k - m);
    return hi > -lo ? r : -r;
  }

  /// True with probability num/den; shrinks to false.
  bool chance(int num, int den) {
    return draw(den - 1) >= static_cast<std::uint64_t>(den - num);
  }

  bool coin() {
    return draw(1) == 1;
  }

  /// Small-biased size in [lo, hi].
  long size(long lo, long hi) {
    switch (draw(5)) {
      case 0:
      case 1:
        return i(lo, std::min(hi, lo + 3));
      case 2:
      case 3:
        return i(lo, std::min(hi, lo + 12));
      default:
        return i(lo, hi);
    }
  }

  /// True once in a while (large and therefore slow cases); shrinks to false.
  bool rare() {
    return chance(1, 600);
  }

  /// Small-biased count in [lo, hi], rarely much more than hi.
  long count(long lo, long hi) {
    if (rare()) {
      return i(lo, hi * pick<long>({4, 12, 40, 120}));
    }
    return size(lo, hi);
  }

  template <typename T>
  const T& pick(const std::vector<T>& values) {
    return values[draw(values.size() - 1)];
  }

  /// Integer-valued scalar with |v| <= m, with emphasis on the extremes.
  long small(long m) {
    if (chance(1, 8)) {
      return chance(1, 2) ? m : -m;
    }
    return z(-m, m);
  }

  /// Finite real number, multiple of 1/64, |v| <= m.
  double real(double m) {
    return z(-static_cast<long>(m * 64), static_cast<long>(m * 64)) / 64.;
  }

  /// Mark the case as non-trivial (by the rule of the law).
  void nontrivial(bool b = true) {
    m_nontrivial = m_nontrivial || b;
  }
  bool isNontrivial() const {
    return m_nontrivial;
  }

  /// Count an event.
  void label(const char* l) {
    if (labels) {
      ++(*labels)[l];
    }
  }

  /// Describe the case (evaluated only when needed, see NOTE).
  bool verbose = false;
  std::ostringstream text;
  /// Where the description is kept up to date, such that it survives a crash.
  char* live = nullptr;
  std::size_t liveSize = 0;
  void flush() {
    if (live) {
      std::strncpy(live, text.str().c_str(), liveSize - 1);
      live[liveSize - 1] = 0;
    }
  }
  std::map<std::string, std::uint64_t>* labels = nullptr;

private:
  std::uint64_t m_state;
  std::uint64_t* m_tape;
  volatile std::uint64_t* m_count;
  bool m_replay;
  std::vector<std::uint64_t> m_in;
  bool m_nontrivial = false;
};

using LawFunction = void (*)(Gen&);

struct Law {
  std::string property;
  std::string name;
  double weight;
  LawFunction run;
};

std::vector<Law>& laws();

struct Registrar {
  Registrar(const char* property, const char* name, double weight, LawFunction f) {
    laws().push_back({property, name, weight, f});
  }
};

// Printing helpers ------------------------------------------------------------------------------------------------

template <typename T>
struct Show {
  static void to(std::ostream& o, const T& v) {
    o << v;
  }
};
template <>
struct Show<char> {
  static void to(std::ostream& o, const char& v) {
    o << int(v);
  }
};
template <>
struct Show<signed char> {
  static void to(std::ostream& o, const signed char& v) {
    o << int(v);
  }
};
template <>
struct Show<unsigned char> {
  static void to(std::ostream& o, const unsigned char& v) {
    o << int(v);
  }
};

template <typename T>
std::string show(const T& v) {
  std::ostringstream o;
  o.precision(17);
  Show<T>::to(o, v);
  return o.str();
}

template <typename It>
std::string showRange(It b, It e, std::size_t limit = 64) {
  std::ostringstream o;
  o.precision(17);
  o << "{";
  std::size_t n = 0;
  for (; b != e; ++b, ++n) {
    if (n) {
      o << ",";
    }
    if (n == limit) {
      o << "...";
      break;
    }
    Show<typename std::decay<decltype(*b)>::type>::to(o, *b);
  }
  o << "}";
  return o.str();
}

template <typename C>
std::string showAll(const C& c) {
  return showRange(c.begin(), c.end());
}

} // namespace pbt

#define PBT_LAW(property, name, weight) \
  static void law_##property##_##name(pbt::Gen& g); \
  static pbt::Registrar registrar_##property##_##name(#property, #name, weight, &law_##property##_##name); \
  static void law_##property##_##name(pbt::Gen& g)

#define NOTE(stream) \
  do { \
    if (g.verbose) { \
      g.text.precision(17); \
      g.text << stream << "; "; \
      g.flush(); \
    } \
  } while (0)

// The failure message is built in a global stream, so that a check costs little code where it is expanded.
namespace pbt {
std::ostream& failStream();
[[noreturn]] void raise(const char* cond);
} // namespace pbt

#define FAIL(stream) \
  do { \
    pbt::failStream() << stream; \
    pbt::raise(nullptr); \
  } while (0)

#define REQUIRE(cond, stream) \
  do { \
    if (__builtin_expect(!(cond), 0)) { \
      pbt::failStream() << stream; \
      pbt::raise(#cond); \
    } \
  } while (0)

#define REQUIRE_EQ(a, b, stream) \
  do { \
    const auto pbt_a = (a); \
    const auto pbt_b = (b); \
    if (__builtin_expect(!(pbt_a == pbt_b), 0)) { \
      pbt::failStream() << stream << ": got " << pbt::show(pbt_a) << ", expected " << pbt::show(pbt_b); \
      pbt::raise(nullptr); \
    } \
  } while (0)

#endif
