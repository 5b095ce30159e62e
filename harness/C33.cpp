// C33: concurrent use. Reading shared objects, and writing to distinct ones, gives what it gives sequentially, without
// data race (built with the thread sanitizer).
#include "nd.h"

#include "LitlContainer/Sequence.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"
#include "LitlContainer/AlignedBuffer.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/StepperPipeline.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTypes/SeqUtils.h"

#include <atomic>
#include <thread>

using namespace Litl;

namespace {

struct Digest {
  std::vector<double> values;
  template <typename T>
  std::enable_if_t<std::is_arithmetic<T>::value> add(T v) {
    values.push_back(v != v ? 1.2345e67 : static_cast<double>(v)); // To be compared
  }
  template <typename T>
  void add(std::complex<T> v) {
    add(v.real());
    add(v.imag());
  }
  template <typename C>
  auto add(const C& c) -> decltype(c.begin(), void()) {
    for (auto it = c.begin(); it != c.end(); ++it) {
      add(*it);
    }
  }
};

/// A pipeline, of which each thread has its own.
class Pipeline : public StepperPipeline<Pipeline> {
public:
  explicit Pipeline(double in) : m_in(in), m_square(), m_half(), m_sum() {}
  struct Square : PipelineStep<void, double> {};
  struct Half : PipelineStep<Square, double> {};
  struct Sum : PipelineStep<std::tuple<Square, Half>, double> {};
  void restart(double in) {
    m_in = in;
    reset();
  }

protected:
  template <typename S>
  void doEvaluate();
  template <typename S>
  typename S::Return doGet();

private:
  double m_in, m_square, m_half, m_sum;
};

template <>
void Pipeline::doEvaluate<Pipeline::Square>() {
  m_square = m_in * m_in;
}
template <>
double Pipeline::doGet<Pipeline::Square>() {
  return m_square;
}
template <>
void Pipeline::doEvaluate<Pipeline::Half>() {
  m_half = m_square / 2;
}
template <>
double Pipeline::doGet<Pipeline::Half>() {
  return m_half;
}
template <>
void Pipeline::doEvaluate<Pipeline::Sum>() {
  m_sum = m_square + m_half;
}
template <>
double Pipeline::doGet<Pipeline::Sum>() {
  return m_sum;
}

/// Objects which are shared by the threads.
struct World {
  explicit World(pbt::Gen& g) :
      shape(nd::shape(g, 2, 60)), shape3(nd::shape(g, 3, 40)), kernelShape(nd::shape(g, 2, 12, 1, false)),
      kernelOrigin(nd::inShape(g, kernelShape)), a(nd::to<2>(shape)), b(nd::to<3>(shape3)), z(nd::to<2>(shape)),
      kernelValues(nd::to<2>(kernelShape)), values(g.size(1, 20)), box(nd::to<2>(kernelOrigin) - nd::to<2>(kernelShape) + 1, nd::to<2>(kernelOrigin)),
      ball(g.i(0, 24) / 8., Position<2> {g.z(-5, 5), g.z(-5, 5)}) {
    fill(g, a);
    fill(g, b);
    fill(g, kernelValues);
    fill(g, values);
    for (auto& e : z) {
      e = std::complex<double>(nd::pixel<double>(g, -5, 5), nd::pixel<double>(g, -5, 5));
    }
    std::vector<double> l(g.size(1, 5));
    for (auto& e : l) {
      e = nd::pixel<double>(g, -5, 5);
    }
    line.reset(new LineKernel<double>(l, g.i(0, l.size() - 1)));
    separable.reset(new SeparableKernel<double, 0, 1>(line->along<0, 1>()));
    kernel1d.reset(new Kernel1d<double>(l, g.i(0, l.size() - 1)));
    kernel.reset(new Kernel<double, 2>(kernelize(kernelValues, nd::to<2>(kernelOrigin))));
  }
  template <typename C>
  static void fill(pbt::Gen& g, C& c) {
    for (auto& e : c) {
      e = nd::pixel<std::decay_t<decltype(e)>>(g, -9, 9);
    }
  }
  nd::Pos shape, shape3, kernelShape, kernelOrigin;
  Raster<double, 2> a;
  AlignedRaster<float, 3> b;
  Raster<std::complex<double>, 2> z;
  Raster<double, 2> kernelValues;
  Sequence<int> values;
  Box<2> box;
  Ball<2, 2> ball;
  std::unique_ptr<LineKernel<double>> line;
  std::unique_ptr<SeparableKernel<double, 0, 1>> separable;
  std::unique_ptr<Kernel1d<double>> kernel1d;
  std::unique_ptr<Kernel<double, 2>> kernel;
};

/// Views and methods which refer to the shared objects, and may be shared as well.
struct Views {
  explicit Views(const World& w) :
      ptr(w.a.shape(), w.a.data()), nearest(w.a), periodic(w.a), periodic3(w.b), constant(extrapolate(w.a, 3.)), linear(periodic),
      cubic(nearest), linear3(periodic3), sub(w.a.subraster(w.a.domain())) {}
  PtrRaster<const double, 2> ptr;
  Extrapolator<Raster<double, 2>, NearestNeighbor> nearest;
  Extrapolator<Raster<double, 2>, Periodic> periodic;
  Extrapolator<AlignedRaster<float, 3>, Periodic> periodic3;
  Extrapolator<Raster<double, 2>, OutOfBoundsConstant<double>> constant;
  Interpolator<Extrapolator<Raster<double, 2>, Periodic>, Linear> linear;
  Interpolator<Extrapolator<Raster<double, 2>, NearestNeighbor>, Cubic> cubic;
  Interpolator<Extrapolator<AlignedRaster<float, 3>, Periodic>, Linear> linear3;
  Subraster<const Raster<double, 2>, const double> sub;
};

struct Task {
  int op;
  long i, j, k;
};

constexpr int operations = 43;

void run(const Task& t, const World& w, const Views& v, Digest& out) {
  const Position<2> p {t.i, t.j};
  const Position<3> q {t.i, t.j, t.k};
  switch (t.op) {
    case 0:
      out.add(v.nearest[p]);
      out.add(v.periodic[p]);
      out.add(v.constant[p]);
      out.add(v.periodic3[q]);
      return;
    case 1:
      out.add(v.linear(Vector<double, 2> {t.i / 4., t.j / 4.}));
      out.add(v.linear3(Vector<double, 3> {t.i / 4., t.j / 4., t.k / 8.}));
      return;
    case 2:
      out.add(v.cubic(Vector<double, 2> {t.i / 4., t.j / 4.}));
      return;
    case 3:
      out.add(*w.kernel * v.nearest);
      return;
    case 4:
      out.add(*w.kernel * v.periodic);
      return;
    case 5:
      out.add(*w.kernel * v.constant);
      return;
    case 6:
      out.add(*w.separable * w.a);
      out.add(w.line->window().size());
      return;
    case 7:
      out.add(w.kernel1d->correlateAlong<0>(w.a));
      out.add(w.kernel1d->correlateAlong<1>(w.a));
      return;
    case 8: {
      MedianFilter<double, 2> filter(w.box);
      out.add(filter.apply(v.nearest));
      return;
    }
    case 9: {
      auto d = w.a.distribution();
      out.add(d.median());
      out.add(d.mean());
      out.add(d.variance());
      out.add(d.mad());
      out.add(d.histogram(std::vector<double> {-4, 0, 5}));
      return;
    }
    case 10:
      out.add(w.a.min());
      out.add(w.a.minmax().second);
      out.add(w.b.max());
      out.add(w.values);
      return;
    case 11: {
      const auto e = end(v.sub);
      for (auto it = begin(v.sub); it != e; ++it) {
        out.add(*it);
      }
      return;
    }
    case 12:
      for (const auto& r : w.ball) {
        out.add(r);
      }
      for (const auto& r : w.box) {
        out.add(r);
      }
      return;
    case 13:
      try {
        out.add(w.a.at(p));
        out.add(w.b.at(q));
        out.add(w.values.at(t.i));
      } catch (const OutOfBoundsError& e) {
        out.add(std::string(e.what()).size());
      }
      return;
    case 14:
      out.add(w.a + w.a * 2.);
      out.add(sqrt(abs(w.a)));
      return;
    case 15:
      out.add(real(w.z));
      out.add(abs(w.z));
      return;
    case 16: {
      std::ostringstream text;
      text << w.a << w.values;
      for (auto c : text.str()) {
        out.add(int(c));
      }
      out.add(w.a == v.ptr);
      return;
    }
    case 17:
      for (long k = 0; k < w.shape3[2]; ++k) {
        out.add(w.b.section(k));
      }
      return;
    case 18: // Private objects from here on
    {
      Sequence<double> s(8);
      s.generate(GaussianNoise<double>(t.i, 2., t.j & 255));
      out.add(s);
      out.add(random<double>({2, 3}).size());
      return;
    }
    case 19: {
      Sequence<int> s(w.values);
      s.apply(ImpulseNoise<int>::saltAndPepper(0, 9, .3, .3, t.k & 255));
      out.add(s);
      s.generate(UniformNoise<int>(0, 9, t.i & 255));
      out.add(s);
      return;
    }
    case 20: {
      auto copy = w.b;
      copy *= 2.F;
      copy.section(0).fill(1.F);
      out.add(copy);
      return;
    }
    case 21: {
      Chronometer<std::chrono::milliseconds> chrono;
      chrono.start();
      chrono.stop();
      out.add(chrono.count());
      out.add(chrono.isRunning());
      return;
    }
    case 22: {
      Sequence<double> s(5);
      s.linspace(t.i, t.j);
      out.add(s);
      out.add(s.range(t.k, 2));
      return;
    }
    case 23: {
      Raster<double, 2> x(w.a);
      auto sub = x.subraster(x.domain());
      const auto e = end(sub);
      for (auto it = begin(sub); it != e; ++it) {
        *it += t.k;
      }
      out.add(x);
      return;
    }
    case 24: {
      const auto surrounding = w.box.surround(Box<2>({-2, -1}, {1, 2}));
      for (const auto& b : surrounding) {
        out.add(b.front());
        out.add(b.size());
      }
      return;
    }
    case 25:
      out.add(w.separable->window().front());
      out.add(w.separable->window().back());
      out.add((*w.separable)[1]);
      out.add(w.separable->compose() * v.constant);
      return;
    case 26:
      out.add(SeparableKernel<double, 0, 1>::sobel(t.i) * w.a);
      out.add(SeparableKernel<double, 1, 0>::prewitt(t.j) * w.a);
      return;
    case 27:
      out.add(SeparableKernel<double, 0, 1>::scharr(t.i) * w.a);
      out.add(SeparableKernel<double, 1>::laplacian(t.j) * w.a);
      return;
    case 28: {
      const auto k = w.line->along<1>() * kernelize(std::vector<double> {1., double(t.i)}.data(), Segment {0, 1}).along<0>();
      out.add(k.compose() * v.nearest);
      return;
    }
    case 29: {
      Sequence<double> s(6);
      s.generate(PoissonNoise<double>(t.k % 11, t.i & 255)); // From 12, std::poisson_distribution calls lgamma(), which sets a global
      s.apply([](double x) {
        return std::min(x, 11.);
      });
      s.apply(StablePoissonNoise<double>(t.k % 11, t.j & 255));
      out.add(s);
      Sequence<std::complex<double>> c(3);
      c.generate(GaussianNoise<std::complex<double>>({1, 2}, {3, 4}, t.i & 255));
      out.add(c);
      return;
    }
    case 30: {
      auto b = w.box;
      const auto shift = Position<2> {t.i, t.j};
      b += shift;
      out.add((b + 1).shape());
      out.add(project(b, 1).back());
      out.add(clamp(p, w.box));
      out.add(clamp(p, w.a.shape()));
      out.add(Box<2>::fromCenter(t.k, p).front());
      return;
    }
    case 31: {
      auto x = w.b;
      std::vector<float> back;
      Raster<double, 2> y(w.a);
      std::vector<double> values;
      y.moveTo(values);
      out.add(values);
      out.add(x.slice<1>(Box<3>({0, 0, 0}, {x.length<0>() - 1, 0, 0})));
      out.add(w.b.slice<2>(Box<3>({0, 0, 0}, {x.length<0>() - 1, x.length<1>() - 1, 0})));
      return;
    }
    case 32: {
      Pipeline pipeline(t.i);
      out.add(pipeline.get<Pipeline::Sum>());
      pipeline.restart(t.j);
      out.add(pipeline.evaluated<Pipeline::Half>());
      out.add(pipeline.get<Pipeline::Half>());
      out.add(pipeline.evaluated<Pipeline::Sum>());
      return;
    }
    case 33: {
      const std::array<double, 3> values {t.i / 4., t.j / 4., t.k / 4.};
      out.add(seqTransform<std::array<long, 3>>(values, [](double x) {
        return Litl::floor<long>(x);
      }));
      out.add(Litl::clamp(t.i, 0L, t.k));
      out.add(tupleAs<std::array<double, 3>>(values));
      return;
    }
    case 34: {
      AlignedBuffer<int> buffer(w.values.size());
      std::copy(w.values.begin(), w.values.end(), const_cast<int*>(buffer.data()));
      AlignedBuffer<int> copy(buffer), moved(std::move(copy));
      out.add(std::vector<int>(moved.data(), moved.data() + w.values.size()));
      out.add(moved.alignment() >= 16);
      return;
    }
    case 35: {
      const auto i = t.k % static_cast<long>(w.values.size());
      out.add(w.values[i]);
      out.add(w.a[Position<2> {t.k % w.shape[0], t.k % w.shape[1]}]);
      out.add(w.b.index(q));
      out.add(w.a.domain().back());
      out.add(shapeStride<2>(w.b.shape()));
      return;
    }
    case 36: {
      std::ostringstream text;
      text << p << w.box.front() << Segment {t.i, t.j}.size();
      for (auto c : text.str()) {
        out.add(int(c));
      }
      return;
    }
    case 37: {
      Position<2> x(p);
      x += w.box.front();
      x *= 2;
      out.add(x);
      out.add(x - p);
      out.add(x == p);
      out.add((Position<3>(q).slice<2>()));
      out.add(p.extend<4>());
      return;
    }
    case 38: {
      const auto k = kernelize(Raster<float, 2>({2, 2}, {1, 2, 3, 4}));
      out.add(k * v.nearest);
      out.add(w.kernel->window().front());
      return;
    }
    case 39: {
      Kernel1d<double> k(*w.kernel1d);
      Raster<double, 2> x(w.a.shape());
      k.correlate2dTo(w.a, x);
      out.add(x);
      return;
    }
    case 40: {
      MedianFilter<float, 3> filter(Box<3>({-1, 0, -1}, {0, 1, 1}));
      out.add(filter.apply(v.periodic3));
      return;
    }
    case 41: {
      Chronometer<std::chrono::microseconds> chrono(std::chrono::microseconds(t.k));
      chrono.start();
      chrono.stop();
      out.add(chrono.last().count() >= 0);
      out.add(chrono.elapsed().count() >= t.k);
      return;
    }
    default:
      out.add(pi<double>());
      out.add(pi<float>());
      out.add(Position<3>::inf().isInf());
      out.add(shapeSize(w.a.shape()));
      return;
  }
}

/// Start the threads together.
template <typename TFunc>
void concurrently(std::size_t n, TFunc&& f) {
  std::atomic<std::size_t> ready {0};
  std::vector<std::thread> threads;
  std::vector<std::string> errors(n);
  for (std::size_t i = 0; i < n; ++i) {
    threads.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed); // No synchronization but the start
      while (ready.load(std::memory_order_relaxed) < n) {
        std::this_thread::yield();
      }
      try {
        f(i);
      } catch (const std::exception& e) {
        errors[i] = e.what();
      }
    });
  }
  for (auto& t : threads) {
    t.join();
  }
  for (const auto& e : errors) {
    REQUIRE(e.empty(), "exception in a thread: " << e);
  }
}

void reading(pbt::Gen& g) {
  const World w(g);
  const Views v(w);
  const std::size_t n = g.i(2, 4);
  std::vector<std::vector<Task>> tasks(n);
  const bool same = g.coin();
  for (auto& l : tasks) {
    const auto count = g.i(1, 5);
    for (int k = 0; k < count; ++k) {
      l.push_back({same && !tasks[0].empty() ? tasks[0][0].op : static_cast<int>(g.draw(operations - 1)), g.z(-20, 40), g.z(-20, 40), g.z(0, 40)});
    }
  }
  if (g.verbose) {
    std::ostringstream text;
    for (const auto& l : tasks) {
      text << " [";
      for (const auto& t : l) {
        text << " " << t.op << "(" << t.i << "," << t.j << "," << t.k << ")";
      }
      text << " ]";
    }
    NOTE("shapes " << nd::str(w.shape) << " " << nd::str(w.shape3) << " kernel " << nd::str(w.kernelShape) << " with origin "
                   << nd::str(w.kernelOrigin) << " threads" << text.str());
  }
  g.nontrivial(w.a.size() > 1);
  g.label(same ? "same operation" : "several operations");
  std::vector<Digest> expected(n), got(n);
  const auto backup = w.a;
  const auto all = [&](std::size_t i, Digest& out) {
    for (const auto& t : tasks[i]) {
      run(t, w, v, out);
    }
  };
  const bool concurrentFirst = g.coin(); // Lazy initialization, if any, would be concurrent
  if (!concurrentFirst) {
    for (std::size_t i = 0; i < n; ++i) {
      all(i, expected[i]);
    }
  }
  concurrently(n, [&](std::size_t i) {
    all(i, got[i]);
  });
  if (concurrentFirst) {
    for (std::size_t i = 0; i < n; ++i) {
      all(i, expected[i]);
    }
  }
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE(
        got[i].values == expected[i].values,
        "thread " << i << " gets " << pbt::showAll(got[i].values) << " instead of " << pbt::showAll(expected[i].values));
  }
  REQUIRE(w.a == backup, "the input is modified");
}

/// The threads write to distinct parts of the same raster.
void writing(pbt::Gen& g) {
  const World w(g);
  const Views v(w);
  const std::size_t n = g.i(2, 4);
  const int op = g.draw(4);
  const auto last = w.shape[1];
  std::vector<long> cuts {0, last};
  for (std::size_t i = 1; i < n; ++i) {
    cuts.push_back(g.i(0, last));
  }
  std::sort(cuts.begin(), cuts.end());
  NOTE("shape " << nd::str(w.shape) << " kernel " << nd::str(w.kernelShape) << " with origin " << nd::str(w.kernelOrigin) << " operation " << op
                << " cuts " << pbt::showAll(cuts));
  g.nontrivial(cuts[1] > 0 && cuts[n - 1] < last);
  const auto part = [&](std::size_t i, Raster<double, 2>& out) {
    const auto front = cuts[i], back = cuts[i + 1] - 1;
    if (front > back) {
      return;
    }
    const Box<2> region({0, front}, {w.shape[0] - 1, back});
    switch (op) {
      case 0: {
        MedianFilter<double, 2> filter(w.box);
        filter.applyTo(v.nearest, out, region);
        return;
      }
      case 1:
        out.section(front, back).fill(front);
        return;
      case 2: {
        auto sub = out.subraster(region);
        const auto e = end(sub);
        for (auto it = begin(sub); it != e; ++it) {
          *it += front;
        }
        return;
      }
      case 3:
        for (const auto& p : region) {
          out[p] = v.constant[p - 1];
        }
        return;
      default: {
        auto s = out.section(front, back);
        s.generate(GaussianNoise<double>(0, 1, front));
        s *= 2.;
        s.linspace(s[0], s[s.size() - 1]);
        return;
      }
    }
  };
  auto expected = w.a, got = w.a;
  for (std::size_t i = 0; i < n; ++i) {
    part(i, expected);
  }
  concurrently(n, [&](std::size_t i) {
    part(i, got);
  });
  REQUIRE(got == expected, "got " << pbt::showAll(got) << " instead of " << pbt::showAll(expected));
}

/// Plans are created sequentially and executed concurrently.
void fourier(pbt::Gen& g) {
  const World w(g);
  const std::size_t n = g.i(2, 4);
  NOTE("shape " << nd::str(w.shape) << " threads " << n);
  g.nontrivial(w.a.size() > 1);
  std::vector<std::unique_ptr<RealDft<2>>> real;
  std::vector<std::unique_ptr<RealDft<2>::Inverse>> inverse;
  for (std::size_t i = 0; i < n; ++i) {
    real.emplace_back(new RealDft<2>(w.a.shape()));
    inverse.emplace_back(new RealDft<2>::Inverse(real[i]->inverse()));
  }
  concurrently(n, [&](std::size_t i) {
    std::copy(w.a.begin(), w.a.end(), real[i]->in().begin());
    real[i]->in() *= static_cast<double>(i + 1);
    real[i]->transform();
    real[i]->out() *= std::complex<double>(2);
    inverse[i]->transform().normalize();
  });
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t k = 0; k < w.a.size(); ++k) {
      REQUIRE(std::abs(inverse[i]->out()[k] - 2. * (i + 1) * w.a[k]) < 1e-9, "value " << k << " of thread " << i);
    }
  }
}

} // namespace

PBT_LAW(C33, reading, 2) {
  reading(g);
}
PBT_LAW(C33, writing, 1) {
  writing(g);
}
PBT_LAW(C33, fourier, .3) {
  fourier(g);
}
