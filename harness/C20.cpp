// C20: samplings, and sparse correlation of samples.
#include "nd.h"

#include "LitlRaster/Sampling.h"
#include "LitlTransforms/Convolution.h"

using namespace Litl;

namespace {

/// Random sampling of [0, size): front, back, step.
struct Sampling {
  long front, back, step;
  bool defaultBack;
  std::vector<long> indices;
};

Sampling sampling(pbt::Gen& g, long size) {
  Sampling s;
  s.front = g.coin() ? 0 : g.i(0, size - 1);
  s.defaultBack = g.coin();
  s.back = s.defaultBack ? size - 1 : g.i(s.front, size - 1);
  s.step = g.coin() ? 1 : g.size(1, size + 2);
  for (long i = s.front; i <= s.back; i += s.step) {
    s.indices.push_back(i);
  }
  return s;
}

IndexSampling make(const Sampling& s) {
  if (s.defaultBack) {
    return {s.front, Limits<Index>::inf(), s.step};
  }
  return {s.front, s.back, s.step};
}

std::string str(const Sampling& s) {
  return std::to_string(s.front) + ":" + (s.defaultBack ? "end" : std::to_string(s.back)) + ":" + std::to_string(s.step);
}

template <typename T>
void axis(pbt::Gen& g, T unit) {
  const long front = g.z(-50, 50);
  const long back = front + g.i(-20, 100);
  const long step = g.size(1, 130);
  NOTE("front=" << front << " back=" << back << " step=" << step << " unit=" << unit);
  const AxisSampling<T> s {static_cast<T>(front * unit), static_cast<T>(back * unit), static_cast<T>(step * unit)};
  std::vector<T> expected;
  for (long i = front; i <= back; i += step) {
    expected.push_back(static_cast<T>(i * unit));
  }
  g.nontrivial(expected.size() > 1);
  g.label(expected.empty() ? "empty" : expected.size() == 1 ? "singleton" : "several samples");
  REQUIRE_EQ(s.size(), expected.size(), "size()");
  std::vector<T> got;
  for (auto it = s.begin(); it != s.end() && got.size() <= expected.size(); ++it) {
    got.push_back(*it);
  }
  REQUIRE(got == expected, "iteration: " << pbt::showAll(got));
  got.clear();
  for (auto it = s.begin(); it != s.end() && got.size() <= expected.size();) {
    auto was = it++;
    got.push_back(*was);
  }
  REQUIRE(got == expected, "post-incrementation: " << pbt::showAll(got));
  REQUIRE(s.vector() == expected, "vector()");
  if (!expected.empty()) {
    const long n = g.i(0, expected.size() - 1);
    auto it = s.begin();
    it += n;
    REQUIRE_EQ(*it, expected[n], "iterator += " << n);
    const long m = g.i(0, n);
    it -= m;
    REQUIRE_EQ(*it, expected[n - m], "iterator -= " << m);
    auto other = s.begin();
    REQUIRE((it == other) == (n == m), "equality of iterators");
    it += static_cast<long>(expected.size()) - (n - m);
    REQUIRE(it == s.end(), "not at end");
  }
}

/// Billions of samples or more, or far from zero: values are reached by jumps.
void far(pbt::Gen& g) {
  const long limit = 1L << g.pick<int>({31, 33, 53, 54, 60});
  const long front = g.z(-limit, limit);
  const long back = g.coin() ? g.i(front, front + limit) : front + g.size(0, 1000);
  const long step = g.coin() ? g.size(1, 1000) : g.i(1, limit);
  const long last = (back - front) / step;
  NOTE("front=" << front << " back=" << back << " step=" << step);
  g.nontrivial(last > 0);
  g.label(last > (1L << 31) ? "billions" : "less");
  const IndexSampling s {front, back, step};
  REQUIRE_EQ(s.size(), static_cast<std::size_t>(last + 1), "size()");
  const PositionSampling<2> p({{front, 0}, {back, 1}}, {step, 2});
  REQUIRE(p.shape() == Position<2>({last + 1, 1}), "shape of " << p.along(0).size() << " samples");
  const long k = g.i(0, last);
  auto it = s.begin();
  REQUIRE_EQ(*it, front, "first sample");
  it += k;
  REQUIRE_EQ(*it, front + k * step, "sample " << k);
  it += last - k;
  REQUIRE_EQ(*it, front + last * step, "last sample");
  REQUIRE(it != s.end(), "at end before the end");
  ++it;
  REQUIRE(it == s.end(), "not at end");
  it -= last + 1 - k;
  REQUIRE_EQ(*it, front + k * step, "sample " << k << " backward");
  REQUIRE((it == s.begin()) == (k == 0), "at begin");
}

/// Steps which are not representable: the number of samples is exact and the values approximate.
template <typename T>
void decimal(pbt::Gen& g) {
  const long front = g.z(-50, 50);
  const long n = g.count(0, 120);
  const long step = g.size(1, 30);
  const double unit = g.pick<double>({.1, .3, 1. / 7, 1e-3, 3.3});
  // The back is away from any sample
  const AxisSampling<T> s {
      static_cast<T>(front * unit),
      static_cast<T>((front + step * (n - 1 + .25 * g.i(1, 3))) * unit),
      static_cast<T>(step * unit)};
  NOTE("front=" << front << " step=" << step << " n=" << n << " unit=" << unit << ": " << s.front << " to " << s.back << " by " << s.step);
  g.nontrivial(n > 1);
  REQUIRE_EQ(s.size(), static_cast<std::size_t>(n), "size()");
  const double tolerance = 10 * n * std::numeric_limits<T>::epsilon() * unit * (std::abs(front) + step * (n + 1)) + 1e-12;
  const auto same = [&](const std::vector<T>& got, const char* what) {
    REQUIRE_EQ(got.size(), static_cast<std::size_t>(n), what << ": number of samples");
    for (long i = 0; i < n; ++i) {
      REQUIRE(std::abs(got[i] - (front + step * i) * unit) <= tolerance, what << ": sample " << i << " is " << got[i]);
    }
  };
  std::vector<T> got;
  for (auto it = s.begin(); it != s.end() && static_cast<long>(got.size()) <= n; ++it) {
    got.push_back(*it);
  }
  same(got, "iteration");
  same(s.vector(), "vector()");
}

template <typename T>
void data(pbt::Gen& g) {
  const long size = g.count(1, 60);
  const long stride = g.size(1, 5);
  const auto s = sampling(g, size);
  NOTE("size=" << size << " stride=" << stride << " sampling=" << str(s));
  g.nontrivial(s.indices.size() > 1);
  g.label(s.step > 1 ? "sparse" : "dense");
  std::vector<T> values((size - 1) * stride + 1);
  for (std::size_t i = 0; i < values.size(); ++i) {
    values[i] = static_cast<T>(i % 120);
  }
  DataSamples<T> samples(values.data(), size, make(s), stride);
  REQUIRE_EQ(samples.size(), static_cast<std::size_t>(size), "size()");
  REQUIRE_EQ(samples.count(), s.indices.size(), "count()");
  REQUIRE_EQ(samples.front(), s.front, "front()");
  REQUIRE_EQ(samples.back(), s.back, "back()");
  REQUIRE_EQ(samples.step(), s.step, "step()");
  REQUIRE_EQ(samples.stride(), stride, "stride()");
  REQUIRE(samples.data() == values.data(), "data()");
  REQUIRE_EQ(samples.sampling().size(), s.indices.size(), "sampling().size()");
  std::vector<T> expected;
  for (auto i : s.indices) {
    expected.push_back(values[i * stride]);
  }
  std::vector<T> got;
  for (auto it = samples.begin(); it != samples.end() && got.size() <= expected.size(); ++it) {
    got.push_back(*it);
  }
  REQUIRE(got == expected, "samples: " << pbt::showAll(got) << ", expected " << pbt::showAll(expected));
  got.clear();
  const auto& c = samples;
  for (auto it = c.begin(); it != c.end() && got.size() <= expected.size();) {
    auto was = it++;
    got.push_back(*was);
  }
  REQUIRE(got == expected, "read-only samples: " << pbt::showAll(got) << ", expected " << pbt::showAll(expected));
  REQUIRE(samples.vector() == expected, "vector()");
  const DataSamples<const T> constSamples(values.data(), size, make(s), stride);
  got.clear();
  for (const auto& e : constSamples) {
    got.push_back(e);
    if (got.size() > expected.size()) {
      break;
    }
  }
  REQUIRE(got == expected, "samples of read-only data: " << pbt::showAll(got));
  // Move iterators
  {
    const long n = g.i(0, expected.size());
    const long m = g.i(0, n);
    auto it = samples.begin();
    it += n;
    REQUIRE((it == samples.end()) == (n == static_cast<long>(expected.size())), "begin() + " << n << " compared to end()");
    it -= m;
    auto other = c.begin();
    other += n - m;
    if (n - m < static_cast<long>(expected.size())) {
      REQUIRE_EQ(*it, expected[n - m], "begin() + " << n << " - " << m);
      REQUIRE(it.operator->() == &*it && &*it == &*other, "address of the sample");
      auto step = c.begin();
      for (long k = 0; k < n - m; ++k) {
        REQUIRE(step != other, "iterators at " << k << " and " << n - m << " are equal");
        ++step;
      }
      REQUIRE(step == other, "iterators at " << n - m << " differ");
    }
  }
  // Write
  auto model = values;
  long n = 0;
  for (auto& e : samples) {
    e = static_cast<T>(n % 100);
    REQUIRE(n < static_cast<long>(expected.size()), "too many samples");
    model[s.indices[n] * stride] = static_cast<T>(n % 100);
    ++n;
  }
  REQUIRE(values == model, "written samples: " << pbt::showAll(values));
}

/// Move the data pointer.
template <typename T>
void shift(pbt::Gen& g) {
  const long size = g.count(1, 400);
  std::vector<T> values(size);
  DataSamples<T> samples(values.data(), 1);
  long at = 0;
  const int steps = g.i(1, 6);
  for (int k = 0; k < steps; ++k) {
    switch (g.draw(3)) {
      case 0: {
        const long n = g.i(0, size - 1 - at);
        NOTE("+= " << n);
        samples += n;
        at += n;
        g.nontrivial(n != 0);
        break;
      }
      case 1: {
        const long n = g.i(0, at);
        NOTE("-= " << n);
        samples -= n;
        at -= n;
        g.nontrivial(n != 0);
        break;
      }
      case 2:
        if (at + 1 < size) {
          NOTE("++");
          ++samples;
          ++at;
        }
        break;
      default:
        if (at + 1 < size) {
          NOTE("post ++");
          auto before = samples++;
          REQUIRE(before.data() == values.data() + at, "returned by post ++");
          ++at;
        }
    }
    REQUIRE(samples.data() == values.data() + at, "pointer is at " << (samples.data() - values.data()) << ", expected " << at);
    REQUIRE(&*samples.begin() == values.data() + at, "first sample is at " << (&*samples.begin() - values.data()) << ", expected " << at);
  }
}

template <Index N>
void position(pbt::Gen& g) {
  const auto n = nd::dim(g, N);
  nd::Pos front(n), back(n), step(n), shape(n);
  for (std::size_t i = 0; i < n; ++i) {
    front[i] = g.z(-20, 20);
    back[i] = front[i] + g.size(0, 30);
    step[i] = g.size(1, 10);
    shape[i] = (back[i] - front[i]) / step[i] + 1;
  }
  NOTE("front=" << nd::str(front) << " back=" << nd::str(back) << " step=" << nd::str(step));
  g.nontrivial(nd::size(shape) > 1);
  const PositionSampling<N> s({nd::to<N>(front), nd::to<N>(back)}, nd::to<N>(step));
  REQUIRE(nd::from(s.shape()) == shape, "shape is " << nd::str(nd::from(s.shape())) << ", expected " << nd::str(shape));
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE_EQ(s.along(i).front, front[i], "front along " << i);
    REQUIRE_EQ(s.along(i).back, back[i], "back along " << i);
    REQUIRE_EQ(s.along(i).step, step[i], "step along " << i);
  }
  REQUIRE(&s.along(0) == &s.template along<0>(), "along(0) and along<0>() differ");
  if (N != -1) {
    const PositionSampling<N> dense({nd::to<N>(front), nd::to<N>(back)});
    for (std::size_t i = 0; i < n; ++i) {
      REQUIRE_EQ(dense.along(i).size(), static_cast<std::size_t>(back[i] - front[i] + 1), "dense sampling along " << i);
    }
  }
}

template <typename TK>
std::vector<TK> kernelValues(pbt::Gen& g, long maxSize, bool mayBeLarge = false) {
  std::vector<TK> out(mayBeLarge ? g.count(1, maxSize) : g.size(1, maxSize));
  for (auto& e : out) {
    e = static_cast<TK>(g.z(-4, 4));
    if (std::is_floating_point<TK>::value && g.coin()) {
      e += .25 * g.draw(3);
    }
  }
  return out;
}

/// Correlation at index i, values being null out of bounds.
template <typename TK, typename F>
auto correlation(const std::vector<TK>& kernel, long origin, long size, long i, F&& at) {
  nd::Product<TK, std::decay_t<decltype(at(0))>> out {};
  for (long j = 0; j < static_cast<long>(kernel.size()); ++j) {
    const long q = i + j - origin;
    if (q >= 0 && q < size) {
      out = out + kernel[j] * at(q);
    }
  }
  return out;
}

template <typename TIn, typename TK, typename TOut>
void sparse1d(pbt::Gen& g) {
  const long size = g.count(1, 40);
  const long stride = g.size(1, 4);
  const auto kernel = kernelValues<TK>(g, 9, true);
  const long origin = g.i(0, kernel.size() - 1);
  const auto s = sampling(g, size);
  // The output has at least as many samples as the input
  const long outFront = g.i(0, 3), outStep = g.i(1, 3), outStride = g.i(1, 3), outCount = s.indices.size() + g.i(0, 2);
  const long outSize = outFront + (outCount - 1) * outStep + 1 + g.i(0, 2);
  NOTE("size=" << size << " stride=" << stride << " kernel=" << pbt::showAll(kernel) << " origin=" << origin << " sampling=" << str(s) << " out: front=" << outFront << " step=" << outStep << " stride=" << outStride << " size=" << outSize);
  g.nontrivial(kernel.size() > 1 && s.indices.size() > 1);
  g.label(static_cast<long>(kernel.size()) > size ? "kernel longer than the input" : s.step > 1 ? "sparse" : "dense");
  std::vector<TIn> in((size - 1) * stride + 1);
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = nd::pixel<TIn>(g, -4, 9);
  }
  std::vector<TOut> out((outSize - 1) * outStride + 1);
  for (std::size_t i = 0; i < out.size(); ++i) {
    out[i] = static_cast<TOut>(50 + i % 50);
  }
  auto expected = out;
  for (std::size_t k = 0; k < s.indices.size(); ++k) {
    expected[(outFront + k * outStep) * outStride] = static_cast<TOut>(correlation(kernel, origin, size, s.indices[k], [&](long q) {
      return in[q * stride];
    }));
  }
  const auto inBackup = in;
  const Kernel1d<TK> k(kernel, origin);
  REQUIRE_EQ(k.backward(), origin, "backward()");
  REQUIRE_EQ(k.forward(), static_cast<long>(kernel.size()) - 1 - origin, "forward()");
  REQUIRE(k.originData() == k.data() + origin, "originData()");
  DataSamples<const TIn> inSamples(in.data(), size, make(s), stride);
  DataSamples<TOut> outSamples(out.data(), outSize, {outFront, Limits<Index>::inf(), outStep}, outStride);
  k.sparseCorrelate1dTo(inSamples, outSamples);
  REQUIRE(out == expected, "got " << pbt::showAll(out) << ", expected " << pbt::showAll(expected));
  REQUIRE(in == inBackup, "the input is modified");
  REQUIRE(std::equal(kernel.begin(), kernel.end(), k.begin()), "the kernel is modified");
}

template <typename TIn, typename TK, typename TOut, Index Axis, Index N>
void along(pbt::Gen& g) {
  const auto shape = g.chance(1, 4000) ? nd::longShape(g, N) : nd::shape(g, N, 120);
  const auto kernel = kernelValues<TK>(g, 7);
  const long origin = g.i(0, kernel.size() - 1);
  NOTE("shape=" << nd::str(shape) << " axis=" << Axis << " kernel=" << pbt::showAll(kernel) << " origin=" << origin);
  g.nontrivial(kernel.size() > 1 && shape[Axis] > 1);
  Raster<TIn, N> in(nd::to<N>(shape));
  nd::fillPixels<TIn>(g, in, -4, 9);
  const Kernel1d<TK> k(kernel, origin);
  const auto out = k.template correlateAlong<Axis, TOut>(in);
  REQUIRE(nd::from(out.shape()) == shape, "shape of the output");
  for (const auto& p : nd::domain(shape)) {
    const auto expected = static_cast<TOut>(correlation(kernel, origin, shape[Axis], p[Axis], [&](long q) {
      auto r = p;
      r[Axis] = q;
      return in[nd::to<N>(r)];
    }));
    REQUIRE_EQ(out[nd::to<N>(p)], expected, "at " << nd::str(p));
  }
}

template <typename TIn, typename TK, typename TOut>
void sparse2d(pbt::Gen& g) {
  const auto shape = nd::shape(g, 2, 150);
  const auto kernel = kernelValues<TK>(g, 6);
  const long origin = g.i(0, kernel.size() - 1);
  const bool dense = g.chance(1, 4);
  nd::Pos front(2, 0), back(2), step(2, 1), outShape(2);
  for (int i = 0; i < 2; ++i) {
    back[i] = shape[i] - 1;
    if (!dense) {
      front[i] = g.i(0, shape[i] - 1);
      back[i] = g.i(front[i], shape[i] - 1);
      step[i] = g.size(1, 5);
    }
    outShape[i] = (back[i] - front[i]) / step[i] + 1;
  }
  NOTE("shape=" << nd::str(shape) << " kernel=" << pbt::showAll(kernel) << " origin=" << origin << " front=" << nd::str(front) << " back=" << nd::str(back) << " step=" << nd::str(step));
  g.nontrivial(kernel.size() > 1 && nd::size(outShape) > 1);
  g.label(dense ? "dense" : "sparse");
  Raster<TIn, 2> in({shape[0], shape[1]});
  for (auto& e : in) {
    e = nd::pixel<TIn>(g, -3, 5);
  }
  Kernel1d<TK> k(kernel, origin);
  Raster<TOut, 2> out({outShape[0], outShape[1]});
  if (dense) {
    k.correlate2dTo(in, out);
  } else {
    k.sparseCorrelate2dTo(in, {{{front[0], front[1]}, {back[0], back[1]}}, {step[0], step[1]}}, out);
  }
  for (const auto& p : nd::domain(outShape)) {
    const long x = front[0] + p[0] * step[0], y = front[1] + p[1] * step[1];
    const auto expected = correlation(kernel, origin, shape[1], y, [&](long v) {
      return static_cast<TOut>(correlation(kernel, origin, shape[0], x, [&](long u) {
        return in[{u, v}];
      }));
    });
    REQUIRE_EQ(out[nd::to<2>(p)], static_cast<TOut>(expected), "at " << nd::str(p));
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C20, axis, 1) {
  switch (g.draw(2)) {
    case 0:
      return axis<long>(g, 1);
    case 1:
      return axis<int>(g, 3);
    default:
      return axis<double>(g, .25);
  }
}
PBT_LAW(C20, far, .3) {
  far(g);
}
PBT_LAW(C20, decimal, .4) {
  g.coin() ? decimal<double>(g) : decimal<float>(g);
}
PBT_LAW(C20, data, 1) {
  switch (g.draw(2)) {
    case 0:
      return data<int>(g);
    case 1:
      return data<char>(g);
    default:
      return data<double>(g);
  }
}
PBT_LAW(C20, shift, .5) {
  switch (g.draw(2)) {
    case 0:
      return shift<int>(g);
    case 1:
      return shift<unsigned char>(g);
    default:
      return shift<float>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C20, position, .5) {
  switch (g.draw(3)) {
    case 0:
      return position<1>(g);
    case 1:
      return position<2>(g);
    case 2:
      return position<3>(g);
    default:
      return position<-1>(g);
  }
}
PBT_LAW(C20, sparse1d, 2) {
  switch (g.draw(4)) {
    case 0:
      return sparse1d<int, int, int>(g);
    case 1:
      return sparse1d<int, float, double>(g);
    case 2:
      return sparse1d<double, int, double>(g);
    case 3:
      return sparse1d<int, signed char, int>(g);
    default:
      return sparse1d<unsigned char, int, long>(g);
  }
}
#else
PBT_LAW(C20, along, 1) {
  switch (g.draw(5)) {
    case 0:
      return along<int, int, int, 0, 1>(g);
    case 1:
      return along<int, int, int, 1, 2>(g);
    case 2:
      return along<char, double, float, 0, 2>(g);
    case 3:
      return along<int, int, long, 1, 3>(g);
    case 4:
      return along<float, short, double, 1, 2>(g);
    default:
      return along<int, int, int, 2, 3>(g);
  }
}
PBT_LAW(C20, sparse2d, 1) {
  switch (g.draw(3)) {
    case 0:
      return sparse2d<int, int, int>(g);
    case 1:
      return sparse2d<unsigned char, float, double>(g);
    case 2:
      return sparse2d<float, int, double>(g);
    default:
      return sparse2d<int, int, short>(g);
  }
}
#endif
