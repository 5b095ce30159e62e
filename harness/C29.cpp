// C29: type and sequence utilities, segments and exceptions.
#include "nd.h"

#include "LitlTypes/Exceptions.h"
#include "LitlTypes/Segment.h"
#include "LitlTypes/SeqUtils.h"
#include "LitlTypes/TypeUtils.h"

#include <iomanip>
#include <list>

using namespace Litl;

namespace {

double real(pbt::Gen& g) {
  switch (g.draw(5)) {
    case 0:
      return static_cast<double>(g.z(-1000, 1000));
    case 1:
      return g.z(-1000, 1000) / 2.;
    case 2:
      return g.real(3);
    case 3:
      return std::nextafter(static_cast<double>(g.z(-50, 50)), g.coin() ? 1e9 : -1e9);
    case 4:
      return g.z(-(1L << 54), 1L << 54) / static_cast<double>(1L << g.i(2, 24));
    default:
      return g.real(1000000);
  }
}

template <typename TInt, typename TFloat>
void floors(pbt::Gen& g) {
  auto x = static_cast<TFloat>(real(g));
  while (std::abs(x) >= static_cast<TFloat>(std::numeric_limits<TInt>::max())) {
    x /= 1024; // Only values which can be represented
  }
  NOTE("x=" << std::setprecision(20) << static_cast<double>(x));
  const TInt f = Litl::floor<TInt>(x);
  REQUIRE_EQ(f, static_cast<TInt>(std::floor(x)), "floor");
  g.nontrivial(x < 0);
  g.label(x < 0 ? (x == std::floor(x) ? "negative integer" : "negative") : "positive");
}

template <typename T>
void clamps(pbt::Gen& g) {
  const T a = static_cast<T>(std::is_floating_point<T>::value ? real(g) : g.z(-20, 20));
  const T b = static_cast<T>(std::is_floating_point<T>::value ? real(g) : g.z(-20, 20));
  T x = static_cast<T>(std::is_floating_point<T>::value ? real(g) : g.z(-30, 30));
  const T lo = std::min(a, b), hi = std::max(a, b);
  x = g.chance(1, 6) ? lo : g.chance(1, 6) ? hi : x;
  NOTE("x=" << x << " in [" << lo << ", " << hi << "]");
  const auto y = Litl::clamp(x, lo, hi);
  REQUIRE_EQ(y, std::min(std::max(x, lo), hi), "clamp");
  g.nontrivial(y != x);
}

/// Documented meaning of each limit.
template <typename T>
void scalarLimits(T v) {
  using L = Limits<T>;
  using N = std::numeric_limits<T>;
  REQUIRE(L::zero() == T(0) && L::one() == T(1), "zero or one");
  REQUIRE(L::min() == N::lowest(), "min");
  REQUIRE(L::max() == N::max(), "max");
  REQUIRE(L::inf() == (N::has_infinity ? N::infinity() : N::max()), "inf");
  REQUIRE(L::min() <= v && v <= L::max() && v <= L::inf(), "value out of the limits");
  REQUIRE(L::epsilon() == N::epsilon(), "epsilon");
  const long double lo = N::lowest(), hi = N::max();
  REQUIRE(std::abs(static_cast<long double>(L::halfMin()) - std::ceil(std::is_integral<T>::value ? lo / 2 : 0) - (std::is_integral<T>::value ? 0 : lo / 2)) <= std::abs(lo) * 1e-7L, "halfMin");
  REQUIRE(std::is_integral<T>::value ? static_cast<long double>(L::halfMax()) == (sizeof(T) < 8 ? std::floor(hi / 2) + 1 : static_cast<long double>(N::max() / 2 + 1)) : L::halfMax() == N::max() / 2, "halfMax");
  REQUIRE(L::almostMin() >= L::min() && L::almostMax() <= L::max(), "almostMin or almostMax");
  REQUIRE(L::almostMin() == static_cast<T>(N::lowest() + N::epsilon()) && L::almostMax() == static_cast<T>(N::max() - N::epsilon()), "almostMin or almostMax");
  REQUIRE(TypeTraits<T>::fromScalar(v) == v, "fromScalar");
  using F = typename TypeTraits<T>::Floating;
  REQUIRE(std::is_floating_point<F>::value && (std::is_same<T, F>::value || !std::is_floating_point<T>::value), "Floating");
  REQUIRE((std::is_same<typename TypeTraits<T>::Scalar, T>::value), "Scalar");
  int calls = 0;
  const auto func = [&](T x) {
    ++calls;
    return x;
  };
  REQUIRE(TypeTraits<T>::applyScalar(func, v) == v && calls == 1, "applyScalar");
}

template <typename S>
void complexLimits(S v) {
  using T = std::complex<S>;
  using L = Limits<T>;
  using M = std::numeric_limits<S>;
  REQUIRE(L::zero() == T(0, 0) && L::one() == T(1, 1), "zero or one");
  REQUIRE(L::min() == T(M::lowest(), M::lowest()) && L::max() == T(M::max(), M::max()), "min or max");
  REQUIRE(L::inf() == T(M::infinity(), M::infinity()), "inf");
  REQUIRE(L::epsilon() == T(M::epsilon(), M::epsilon()), "epsilon");
  REQUIRE(L::halfMin() == T(M::lowest() / 2, M::lowest() / 2) && L::halfMax() == T(M::max() / 2, M::max() / 2), "halfMin or halfMax");
  REQUIRE(TypeTraits<T>::fromScalar(v) == T(v, v), "fromScalar");
  REQUIRE((std::is_same<typename TypeTraits<T>::Scalar, S>::value && std::is_same<typename TypeTraits<T>::Floating, T>::value), "types");
  int calls = 0;
  const auto func = [&](S x) {
    ++calls;
    return x + calls;
  };
  const T out = TypeTraits<T>::applyScalar(func, v);
  REQUIRE(out == T(v + 1, v + 2) && calls == 2, "applyScalar");
}

struct Record {
  long a;
  std::string b;
  double c;
};

} // namespace

#if PBT_PART == 0

PBT_LAW(C29, floor, 1) {
  switch (g.draw(3)) {
    case 0:
      return floors<Index, double>(g);
    case 1:
      return floors<int, float>(g);
    case 2:
      return floors<int, double>(g);
    default:
      return floors<Index, long double>(g);
  }
}

PBT_LAW(C29, clamp, 1) {
  switch (g.draw(2)) {
    case 0:
      return clamps<int>(g);
    case 1:
      return clamps<Index>(g);
    default:
      return clamps<double>(g);
  }
}

PBT_LAW(C29, limits, .5) {
  const auto v = g.i(0, 1) ? g.z(-100, 100) : g.i(0, 1);
  NOTE("v=" << v);
  g.nontrivial();
#define LIMITS(T) scalarLimits<T>(static_cast<T>(v));
  switch (g.draw(4)) {
    case 0:
      LIMITS(bool) LIMITS(char) LIMITS(signed char) LIMITS(unsigned char)
      break;
    case 1:
      LIMITS(short) LIMITS(unsigned short) LIMITS(int) LIMITS(unsigned int)
      break;
    case 2:
      LIMITS(long) LIMITS(unsigned long) LIMITS(long long) LIMITS(unsigned long long)
      break;
    case 3:
      LIMITS(float) LIMITS(double) LIMITS(long double)
      break;
    default:
      complexLimits<float>(v);
      complexLimits<double>(v);
      complexLimits<long double>(v);
  }
}

PBT_LAW(C29, segment, .5) {
  const long front = g.chance(1, 4) ? g.z(-(1L << 60), 1L << 60) : g.z(-20, 20);
  const long size = g.chance(1, 4) ? g.i(0, 1L << 60) : g.i(0, 20);
  NOTE("front=" << front << " size=" << size);
  g.nontrivial(front != 0);
  const auto s = Segment::fromSize(front, size);
  REQUIRE_EQ(s.front(), front, "front");
  REQUIRE_EQ(s.back(), front + size - 1, "back");
  REQUIRE_EQ(s.size(), static_cast<std::size_t>(size), "size");
  const Segment t(front, front + size);
  REQUIRE(t.front() == front && t.back() == front + size && t.size() == static_cast<std::size_t>(size + 1), "front and back");
}

PBT_LAW(C29, exceptions, 1) {
  static const char* texts[] = {"", "a", "some message", "two\nlines", "with: colon"};
  const auto text = [&]() {
    return g.chance(1, 12) ? std::string(g.count(0, 300), 'z') + texts[g.draw(4)] : std::string(texts[g.draw(4)]);
  };
  const std::string prefix = text(), message = text();
  const auto prefixed = g.coin();
  NOTE("[" << prefix << "] [" << message << "]; ");
  Exception e = prefixed ? Exception(prefix, message) : Exception(message);
  std::string expected = (prefixed ? prefix : "Litl error") + ": " + message;
  REQUIRE_EQ(std::string(e.what()), expected, "what()");
  const auto n = g.count(0, 4);
  for (long i = 0; i < n; ++i) {
    const std::string line = text();
    const auto indent = g.chance(1, 6) ? g.draw(40) : g.draw(3);
    const auto& out = indent == 0 && g.coin() ? e.append(line) : e.append(line, indent);
    REQUIRE(&out == &e, "append() does not return the exception");
    expected += "\n" + std::string(2 * indent, ' ') + line;
    REQUIRE_EQ(std::string(e.what()), expected, "what() after append()");
  }
  g.nontrivial(n > 0);
  try {
    throw e;
  } catch (const std::exception& caught) {
    REQUIRE_EQ(std::string(caught.what()), expected, "what() once thrown");
  }
  // bounds
  const long origin = g.chance(1, 3) ? g.z(-(1L << 60), 1L << 60) : 0;
  const long lo = origin + g.z(-10, 10), hi = lo + g.i(0, g.chance(1, 3) ? 1L << 60 : 10);
  const long v = g.chance(1, 3) ? lo - 1 : g.chance(1, 2) ? hi + 1 : g.chance(1, 2) ? g.z(-(1L << 62), 1L << 62) : origin + g.z(-20, 20);
  NOTE(v << " in " << lo << "-" << hi);
  bool thrown = false;
  try {
    OutOfBoundsError::mayThrow("value: ", v, {lo, hi});
  } catch (const OutOfBoundsError& o) {
    thrown = true;
    const std::string what = o.what();
    REQUIRE(what == "Out of bounds error: value: " + std::to_string(v) + " not in [" + std::to_string(lo) + ", " + std::to_string(hi) + "]", "message is " << what);
  }
  REQUIRE_EQ(thrown, v < lo || v > hi, "out of bounds error");
  // pointers
  const int* p = g.coin() ? nullptr : &texts[0] == nullptr ? nullptr : reinterpret_cast<const int*>(&lo);
  NullPtrError error("dummy");
  thrown = false;
  try {
    error.mayThrow(p, message);
  } catch (const NullPtrError& q) {
    thrown = true;
    REQUIRE_EQ(std::string(q.what()), "Null pointer error: " + message, "message of the null pointer error");
  }
  REQUIRE_EQ(thrown, p == nullptr, "null pointer error");
}

#else

PBT_LAW(C29, tuples, 1) {
  const long a = g.z(-100, 100);
  const std::string b(g.chance(1, 20) ? g.i(0, 400) : g.i(0, 5), 'x');
  const double c = g.z(-8, 8) / 2.;
  NOTE("tuple " << a << " " << b << " " << c);
  g.nontrivial();
  std::tuple<long, std::string, double> t(a, b, c);
  const auto& ct = t;
  const auto r = tupleAs<Record>(ct);
  REQUIRE(r.a == a && r.b == b && r.c == c, "tupleAs");
  const auto r2 = tupleAs<Record>(t);
  REQUIRE(r2.a == a && r2.b == b && r2.c == c, "tupleAs");
  int calls = 0;
  const auto out = tupleApply(ct, [&](long x, const std::string& y, double z) {
    ++calls;
    return std::to_string(x) + y + std::to_string(z);
  });
  REQUIRE(calls == 1 && out == std::to_string(a) + b + std::to_string(c), "tupleApply");
  tupleApply(t, [&](long& x, std::string& y, double&) {
    x += 1;
    y += "y";
  });
  REQUIRE(std::get<0>(t) == a + 1 && std::get<1>(t) == b + "y" && std::get<2>(t) == c, "tupleApply by reference");
  std::string order;
  seqForeach(t, [&](auto& e) {
    e += e;
    order += std::to_string(sizeof(e)) + ",";
  });
  REQUIRE(std::get<0>(t) == 2 * (a + 1) && std::get<1>(t) == b + "y" + b + "y" && std::get<2>(t) == 2 * c, "seqForeach of tuple");
  REQUIRE(order == std::to_string(sizeof(long)) + "," + std::to_string(sizeof(std::string)) + "," + std::to_string(sizeof(double)) + ",", "order of seqForeach");
  const auto twice = seqTransform<Record>(ct, [](const auto& e) {
    return e + e;
  });
  REQUIRE(twice.a == 4 * (a + 1) && twice.b == b + "y" + b + "y" + b + "y" + b + "y" && twice.c == 4 * c, "seqTransform of tuple");
  REQUIRE((isTuple<decltype(t)>() && isTuple<const std::tuple<>&>() && isTuple<std::array<int, 3>>() && !isTuple<std::vector<int>>() && !isTuple<int>()), "isTuple");
  REQUIRE((isIterable<std::vector<int>>::value && isIterable<std::string>::value && isIterable<std::array<int, 2>>::value && !isIterable<int>::value && !isIterable<Record>::value && !isIterable<std::tuple<int>>::value), "isIterable");
}

/// Very long sequences.
PBT_LAW(C29, long_sequences, .002) {
  const auto n = g.i(1L << 15, 1L << 18);
  const auto seed = g.i(0, 1000);
  NOTE("n=" << n << " seed=" << seed);
  g.nontrivial();
  std::vector<long> v(n);
  for (long i = 0; i < n; ++i) {
    v[i] = (i + seed) * 7919 % 1000003;
  }
  auto w = v;
  seqForeach(w, [](auto& e) {
    e += 5;
  });
  const auto half = seqTransform<std::vector<double>>(v, [](long e) {
    return e / 2.;
  });
  REQUIRE_EQ(static_cast<long>(half.size()), n, "size of seqTransform");
  std::vector<long> out(n);
  auto its = std::make_tuple(v.begin(), half.begin());
  for (auto& o : out) {
    o = iteratorTupleApply(its, [](long a, double b) {
      return a + static_cast<long>(2 * b);
    });
  }
  for (long i = 0; i < n; ++i) {
    REQUIRE_EQ(w[i], v[i] + 5, "seqForeach at " << i);
    REQUIRE_EQ(half[i], v[i] / 2., "seqTransform at " << i);
    REQUIRE_EQ(out[i], 2 * v[i], "iteratorTupleApply at " << i);
  }
}

PBT_LAW(C29, sequences, 1) {
  const auto n = g.chance(1, 50) ? g.count(0, 600) : g.size(0, 12);
  std::vector<long> v(n);
  for (auto& e : v) {
    e = g.z(-100, 100);
  }
  NOTE("v=" << pbt::showAll(v));
  g.nontrivial(n > 1);
  const auto& cv = v;
  std::vector<long> seen;
  seqForeach(cv, [&](const auto& e) {
    seen.push_back(e);
  });
  REQUIRE(seen == v, "const seqForeach");
  auto w = v;
  seqForeach(w, [&](auto& e) {
    e = 3 * e + 1;
  });
  const auto doubles = seqTransform<std::vector<double>>(cv, [](long e) {
    return e / 2.;
  });
  const auto list = seqTransform<std::list<long>>(cv, [](long e) {
    return e - 1;
  });
  REQUIRE(doubles.size() == v.size() && list.size() == v.size(), "size of seqTransform");
  auto it = list.begin();
  for (long i = 0; i < n; ++i, ++it) {
    REQUIRE_EQ(w[i], 3 * v[i] + 1, "seqForeach");
    REQUIRE_EQ(doubles[i], v[i] / 2., "seqTransform");
    REQUIRE_EQ(*it, v[i] - 1, "seqTransform");
  }
  std::array<long, 4> a {{1, 2, 3, static_cast<long>(n)}};
  seqForeach(a, [](auto& e) {
    e *= 2;
  });
  REQUIRE((a == std::array<long, 4> {{2, 4, 6, 2 * n}}), "seqForeach of array");
  const auto b = seqTransform<std::array<double, 4>>(a, [](long e) {
    return e * .5;
  });
  REQUIRE((b == std::array<double, 4> {{1, 2, 3, static_cast<double>(n)}}), "seqTransform of array");
  // iterators
  auto its = std::make_tuple(v.begin(), doubles.begin(), w.begin());
  for (long i = 0; i < n; ++i) {
    const auto sum = iteratorTupleApply(its, [](long x, double y, long& z) {
      z += 5;
      return x + y + z;
    });
    REQUIRE_EQ(sum, v[i] + doubles[i] + 3 * v[i] + 6, "iteratorTupleApply");
    REQUIRE_EQ(w[i], 3 * v[i] + 6, "iteratorTupleApply by reference");
  }
  REQUIRE(std::get<0>(its) == v.end() && std::get<1>(its) == doubles.end() && std::get<2>(its) == w.end(), "iterators are not incremented");
  // serialization
  std::ostringstream o1, o2, o3;
  serialize(o1, n);
  serialize(o2, n, std::string("abc"), 'c', 2.5);
  serialize(o3, std::string("abc"), n);
  REQUIRE_EQ(o1.str(), std::to_string(n), "serialize");
  REQUIRE_EQ(o2.str(), std::to_string(n) + ", abc, c, 2.5", "serialize");
  REQUIRE_EQ(o3.str(), "abc, " + std::to_string(n), "serialize");
  std::ostringstream o4, o5;
  serialize(o4, n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, n + 7, n + 8, n + 9, n + 10, n + 11, n + 12);
  serialize(o5, 1, 'b', 2.5, "d", n, std::string(), -1L, 'x');
  std::string expected = std::to_string(n);
  for (int k = 1; k < 13; ++k) {
    expected += ", " + std::to_string(n + k);
  }
  REQUIRE_EQ(o4.str(), expected, "serialize many arguments");
  REQUIRE_EQ(o5.str(), "1, b, 2.5, d, " + std::to_string(n) + ", , -1, x", "serialize arguments of many types");
  // The function is called exactly once per element, in order
  int calls = 0;
  const auto stateful = seqTransform<std::vector<long>>(cv, [&](long e) {
    return e + 1000 * calls++;
  });
  REQUIRE_EQ(calls, static_cast<int>(n), "number of calls of seqTransform");
  for (long i = 0; i < n; ++i) {
    REQUIRE_EQ(stateful[i], v[i] + 1000 * i, "seqTransform with a stateful function");
  }
  calls = 0;
  const auto count = [&](auto& e) {
    e += calls++;
  };
  std::array<long, 1> one {{n}};
  seqForeach(one, count);
  REQUIRE(calls == 1 && one[0] == n, "seqForeach of a single element");
  const auto single = seqTransform<std::array<long, 1>>(one, [&](long e) {
    return e + calls++;
  });
  REQUIRE(calls == 2 && single[0] == n + 1, "seqTransform of a single element");
  auto lone = std::make_tuple(n);
  seqForeach(lone, count);
  REQUIRE(calls == 3 && std::get<0>(lone) == n + 2, "seqForeach of a tuple of a single element");
  const auto loneTwice = seqTransform<std::array<long, 1>>(lone, [&](long e) {
    return e + calls++;
  });
  REQUIRE(calls == 4 && loneTwice[0] == n + 5, "seqTransform of a tuple of a single element");
}

#endif
