/*
 * N-dimensional reference model, written independently of the library: plain vectors of long,
 * row-major order with the first axis varying fastest.
 */
#ifndef VERIF_ND_H
#define VERIF_ND_H

#include "pbt.h"

#include "LitlRaster/Raster.h"

using Litl::Index;
using Litl::Position;

namespace nd {

using Pos = std::vector<long>;

inline long size(const Pos& shape) {
  if (shape.empty()) {
    return 0;
  }
  long out = 1;
  for (auto s : shape) {
    out *= s;
  }
  return out;
}

/// Type in which the products of kernel and input values are computed.
template <typename TK, typename TIn>
using Product = decltype(std::declval<TK>() * std::declval<TIn>());

/// Value which fits any type: small, a multiple of 1/4 for floating point types.
template <typename T>
T pixel(pbt::Gen& g, long min, long max) {
  const long v = std::is_signed<T>::value ? g.i(min, max) : g.i(0, max);
  return static_cast<T>(std::is_floating_point<T>::value && g.coin() ? v + .25 * g.draw(3) : v);
}

/// Row-major offset: sum of pos[i] * product of the previous lengths.
inline long offset(const Pos& shape, const Pos& pos) {
  long out = 0;
  long stride = 1;
  for (std::size_t i = 0; i < shape.size(); ++i) {
    out += pos[i] * stride;
    stride *= shape[i];
  }
  return out;
}

inline bool inside(const Pos& front, const Pos& back, const Pos& p) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (p[i] < front[i] || p[i] > back[i]) {
      return false;
    }
  }
  return true;
}

/// All positions of the box, first axis fastest.
inline std::vector<Pos> positions(const Pos& front, const Pos& back) {
  std::vector<Pos> out;
  const auto n = front.size();
  if (n == 0) {
    return out;
  }
  for (std::size_t i = 0; i < n; ++i) {
    if (back[i] < front[i]) {
      return out;
    }
  }
  Pos p = front;
  while (true) {
    out.push_back(p);
    std::size_t i = 0;
    while (i < n && p[i] == back[i]) {
      p[i] = front[i];
      ++i;
    }
    if (i == n) {
      return out;
    }
    ++p[i];
  }
}

inline std::vector<Pos> domain(const Pos& shape) {
  Pos back = shape;
  for (auto& b : back) {
    --b;
  }
  return positions(Pos(shape.size(), 0), back);
}

template <typename V>
Pos from(const V& v) {
  Pos out;
  for (std::size_t i = 0; i < v.size(); ++i) {
    out.push_back(static_cast<long>(v[i]));
  }
  return out;
}

template <Index N>
Position<N> to(const Pos& p) {
  Position<N> out(static_cast<Index>(p.size()));
  for (std::size_t i = 0; i < p.size(); ++i) {
    out[i] = p[i];
  }
  return out;
}

/// A concrete dimension for template dimension n (-1 for variable).
inline std::size_t dim(pbt::Gen& g, Index n, long maxVariable = 5) {
  if (n >= 0) {
    return static_cast<std::size_t>(n);
  }
  return static_cast<std::size_t>(maxVariable >= 4 && g.chance(1, 12) ? g.i(maxVariable + 1, 8) : g.i(1, maxVariable));
}

/// Shape with strictly positive lengths and at most maxSize elements (rarely more).
inline Pos shape(pbt::Gen& g, std::size_t n, long maxSize, long minLength = 1, bool mayBeLarge = true) {
  const bool large = mayBeLarge && g.rare();
  if (large) {
    maxSize *= g.pick<long>({4, 12, 40});
  }
  Pos out(n, minLength);
  long total = 1;
  for (std::size_t i = 0; i < n; ++i) {
    total *= minLength;
  }
  // visit axes in a random rotation so that any of them may be the long one
  const std::size_t first = n > 1 ? g.i(0, n - 1) : 0;
  for (std::size_t k = 0; k < n; ++k) {
    const std::size_t i = (first + k) % n;
    const long others = total / out[i];
    const long top = std::max(minLength, maxSize / std::max(1L, others));
    const long natural = n <= 1 || large ? top : std::min(top, n == 2 ? 40L : n == 3 ? 14L : 7L);
    if (g.chance(1, 12)) {
      out[i] = g.i(minLength, top);
    } else {
      out[i] = g.size(minLength, natural);
    }
    total = others * out[i];
  }
  return out;
}

/// Shape with more than 2^15 (often 2^16) elements, along one or two long axes: rarely to be used.
inline Pos longShape(pbt::Gen& g, std::size_t n) {
  const long size = g.pick<long>({33000, 66000, 132000});
  Pos out(n);
  long others = 1;
  for (auto& l : out) {
    l = n <= 3 ? g.i(1, 3) : g.i(1, 2);
    others *= l;
  }
  const std::size_t a = g.i(0, n - 1), b = g.i(0, n - 1);
  if (a == b) {
    out[a] = size * out[a] / others + 1;
  } else {
    others /= out[a] * out[b];
    out[a] = g.pick<long>({2, 100, 256, 300});
    out[b] = size / others / out[a] + 1;
  }
  return out;
}

/// Fill with small values: generated one by one if not too many.
template <typename T, typename TContainer>
void fillPixels(pbt::Gen& g, TContainer& values, long min, long max) {
  if (values.size() < 20000) {
    for (auto& e : values) {
      e = pixel<T>(g, min, max);
    }
    return;
  }
  auto state = g.draw(~0ull);
  for (auto& e : values) {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    const long span = std::is_signed<T>::value ? max - min + 1 : max + 1;
    e = static_cast<T>((std::is_signed<T>::value ? min : 0) + static_cast<long>((state >> 33) % span));
  }
}

/// Shape which may have null lengths.
inline Pos shapeOrEmpty(pbt::Gen& g, std::size_t n, long maxSize) {
  auto out = shape(g, n, maxSize);
  if (g.chance(1, 30)) {
    out[g.i(0, n - 1)] = 0;
  }
  return out;
}

inline Pos inBox(pbt::Gen& g, const Pos& front, const Pos& back) {
  Pos out(front.size());
  for (std::size_t i = 0; i < out.size(); ++i) {
    switch (g.draw(3)) {
      case 0:
        out[i] = front[i];
        break;
      case 1:
        out[i] = back[i];
        break;
      default:
        out[i] = g.i(front[i], back[i]);
    }
  }
  return out;
}

inline Pos inShape(pbt::Gen& g, const Pos& s) {
  Pos back = s;
  for (auto& b : back) {
    --b;
  }
  return inBox(g, Pos(s.size(), 0), back);
}

/// Non-empty region of a shape.
inline std::pair<Pos, Pos> region(pbt::Gen& g, const Pos& s) {
  auto a = inShape(g, s);
  auto b = inShape(g, s);
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (a[i] > b[i]) {
      std::swap(a[i], b[i]);
    }
  }
  return {a, b};
}

inline std::string str(const Pos& p) {
  return pbt::showAll(p);
}

} // namespace nd

#endif
