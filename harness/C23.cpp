// C23: histories of DFT plans: buffer sharing and ownership, isolation, no leak, no double free, moves.
#include "dftref.h"

#include "LitlTransforms/Dft.h"

#include <memory>

using namespace Litl;
using namespace dftref;

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));

namespace {

// Live allocations made by the library itself (FFTW excluded)
constexpr int capacity = 4096;
const volatile void* live[capacity];
int liveCount = 0;
bool tracking = false;
// Live FFTW plans
std::vector<fftw_plan> plans;
std::string planError;

void onMalloc(const volatile void* p, size_t) {
  if (tracking && p && liveCount < capacity) {
    live[liveCount++] = p;
  }
}

void onFree(const volatile void* p) {
  for (int i = liveCount - 1; i >= 0; --i) {
    if (live[i] == p) {
      live[i] = live[--liveCount];
      return;
    }
  }
}

struct Pause {
  bool was = tracking;
  Pause() {
    tracking = false;
  }
  ~Pause() {
    tracking = was;
  }
};

struct Track {
  Track() {
    tracking = true;
  }
  ~Track() {
    tracking = false;
  }
};

fftw_plan made(fftw_plan p) {
  plans.push_back(p);
  return p;
}

} // namespace

// FFTW calls go through these (linked with --wrap)
extern "C" {
void __real_fftw_destroy_plan(fftw_plan);
void __real_fftw_execute(const fftw_plan);

#define PLAN(name, params, args) \
  fftw_plan __real_##name params; \
  fftw_plan __wrap_##name params { \
    Pause pause; \
    return made(__real_##name args); \
  }
PLAN(fftw_plan_dft_1d, (int a0, fftw_complex* a1, fftw_complex* a2, int a3, unsigned a4), (a0, a1, a2, a3, a4))
PLAN(fftw_plan_dft_r2c_1d, (int a0, double* a1, fftw_complex* a2, unsigned a3), (a0, a1, a2, a3))
PLAN(fftw_plan_dft_c2r_1d, (int a0, fftw_complex* a1, double* a2, unsigned a3), (a0, a1, a2, a3))
PLAN(fftw_plan_dft_2d, (int a0, int a1, fftw_complex* a2, fftw_complex* a3, int a4, unsigned a5), (a0, a1, a2, a3, a4, a5))
PLAN(fftw_plan_dft_r2c_2d, (int a0, int a1, double* a2, fftw_complex* a3, unsigned a4), (a0, a1, a2, a3, a4))
PLAN(fftw_plan_dft_c2r_2d, (int a0, int a1, fftw_complex* a2, double* a3, unsigned a4), (a0, a1, a2, a3, a4))
PLAN(fftw_plan_dft_3d, (int a0, int a1, int a2, fftw_complex* a3, fftw_complex* a4, int a5, unsigned a6), (a0, a1, a2, a3, a4, a5, a6))
PLAN(fftw_plan_dft_r2c_3d, (int a0, int a1, int a2, double* a3, fftw_complex* a4, unsigned a5), (a0, a1, a2, a3, a4, a5))
PLAN(fftw_plan_dft_c2r_3d, (int a0, int a1, int a2, fftw_complex* a3, double* a4, unsigned a5), (a0, a1, a2, a3, a4, a5))
PLAN(fftw_plan_many_dft, (int a0, const int* a1, int a2, fftw_complex* a3, const int* a4, int a5, int a6, fftw_complex* a7, const int* a8, int a9, int a10, int a11, unsigned a12), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12))
PLAN(fftw_plan_many_dft_r2c, (int a0, const int* a1, int a2, double* a3, const int* a4, int a5, int a6, fftw_complex* a7, const int* a8, int a9, int a10, unsigned a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11))
PLAN(fftw_plan_many_dft_c2r, (int a0, const int* a1, int a2, fftw_complex* a3, const int* a4, int a5, int a6, double* a7, const int* a8, int a9, int a10, unsigned a11), (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11))
PLAN(fftw_plan_dft, (int a0, const int* a1, fftw_complex* a2, fftw_complex* a3, int a4, unsigned a5), (a0, a1, a2, a3, a4, a5))
PLAN(fftw_plan_dft_r2c, (int a0, const int* a1, double* a2, fftw_complex* a3, unsigned a4), (a0, a1, a2, a3, a4))
PLAN(fftw_plan_dft_c2r, (int a0, const int* a1, fftw_complex* a2, double* a3, unsigned a4), (a0, a1, a2, a3, a4))
#undef PLAN
void __wrap_fftw_destroy_plan(fftw_plan p) {
  Pause pause;
  const auto it = std::find(plans.begin(), plans.end(), p);
  if (it == plans.end()) {
    planError = "an FFTW plan is destroyed twice, or is not a plan";
    return;
  }
  plans.erase(it);
  __real_fftw_destroy_plan(p);
}
void __wrap_fftw_execute(const fftw_plan p) {
  Pause pause;
  if (std::find(plans.begin(), plans.end(), p) == plans.end()) {
    planError = "an FFTW plan is executed after it is destroyed";
    return;
  }
  __real_fftw_execute(p);
}
}

namespace {

/// A buffer: owned by a plan, or external.
struct Block {
  nd::Pos shape;
  bool known = false; ///< Otherwise contains garbage
  Values values;
  const void* data = nullptr;
  bool real = false;
};

enum Kind { RealDirect, RealInverse, ComplexDirect, ComplexInverse };

struct Node {
  Kind kind;
  nd::Pos shape; ///< Logical shape
  int in = -1, out = -1; ///< Blocks
  bool ownsIn = false, ownsOut = false;
  bool moved = false;

  virtual ~Node() {}
  virtual const void* inData() = 0;
  virtual const void* outData() = 0;
  virtual bool inOwns() = 0;
  virtual bool outOwns() = 0;
  virtual void fill(const Values&) = 0;
  virtual void transform() = 0;
  virtual void normalize() = 0;
  virtual nd::Pos inShape() = 0;
  virtual nd::Pos outShape() = 0;
  virtual nd::Pos logicalShape() = 0;
  virtual std::unique_ptr<Node> inverse() = 0;
  virtual std::unique_ptr<Node> compose(const nd::Pos&, Kind) = 0;
  virtual std::unique_ptr<Node> move() = 0;
  virtual void assign(Node& other) = 0;
  virtual void functionalMove() = 0;
};

void put(double& to, const Complex& v) {
  to = static_cast<double>(v.real());
}
void put(std::complex<double>& to, const Complex& v) {
  to = std::complex<double>(v.real(), v.imag());
}

template <typename TPlan, Index N>
constexpr Kind kindOf() {
  return std::is_same<TPlan, RealDft<N>>::value ? RealDirect :
      std::is_same<TPlan, typename RealDft<N>::Inverse>::value ? RealInverse :
      std::is_same<TPlan, ComplexDft<N>>::value ? ComplexDirect : ComplexInverse;
}

template <typename TPlan, Index N>
struct PlanNode : Node {
  std::unique_ptr<TPlan> plan;
  explicit PlanNode(std::unique_ptr<TPlan> p) : plan(std::move(p)) {
    kind = kindOf<TPlan, N>();
  }
  ~PlanNode() override {
    Track track;
    plan.reset();
  }
  const void* inData() override {
    return plan->in().data();
  }
  const void* outData() override {
    return plan->out().data();
  }
  bool inOwns() override {
    return plan->in().owns();
  }
  bool outOwns() override {
    return plan->out().owns();
  }
  void fill(const Values& v) override {
    auto* p = plan->in().data();
    for (const auto& e : v) {
      put(*p++, e);
    }
  }
  void transform() override {
    Track track;
    plan->transform();
  }
  void normalize() override {
    Track track;
    plan->normalize();
  }
  nd::Pos inShape() override {
    return nd::from(plan->inShape());
  }
  nd::Pos outShape() override {
    return nd::from(plan->outShape());
  }
  nd::Pos logicalShape() override {
    return nd::from(plan->logicalShape());
  }
  std::unique_ptr<Node> inverse() override {
    using Inv = typename TPlan::Inverse;
    std::unique_ptr<Inv> p;
    {
      Track track;
      p.reset(new Inv(plan->inverse()));
    }
    return std::unique_ptr<Node>(new PlanNode<Inv, N>(std::move(p)));
  }
  template <typename UPlan>
  std::unique_ptr<Node> composeAs(const nd::Pos& s) {
    std::unique_ptr<UPlan> p;
    {
      Track track;
      p.reset(new UPlan(plan->template compose<UPlan>(nd::to<N>(s))));
    }
    return std::unique_ptr<Node>(new PlanNode<UPlan, N>(std::move(p)));
  }
  std::unique_ptr<Node> composeOf(const nd::Pos& s, Kind k, std::complex<double>) {
    switch (k) {
      case ComplexDirect:
        return composeAs<ComplexDft<N>>(s);
      case ComplexInverse:
        return composeAs<typename ComplexDft<N>::Inverse>(s);
      default:
        return composeAs<typename RealDft<N>::Inverse>(s);
    }
  }
  std::unique_ptr<Node> composeOf(const nd::Pos& s, Kind, double) {
    return composeAs<RealDft<N>>(s);
  }
  std::unique_ptr<Node> compose(const nd::Pos& s, Kind k) override {
    return composeOf(s, k, typename TPlan::OutValue());
  }
  std::unique_ptr<Node> move() override {
    std::unique_ptr<TPlan> p;
    {
      Track track;
      p.reset(new TPlan(std::move(*plan)));
    }
    return std::unique_ptr<Node>(new PlanNode(std::move(p)));
  }
  void assign(Node& other) override {
    Track track;
    *plan = std::move(*static_cast<PlanNode&>(other).plan);
  }
  void functionalMove() override {
    // Through a temporary
    Track track;
    TPlan tmp(std::move(*plan));
    *plan = std::move(tmp);
  }
};

template <Index N>
struct Machine {
  pbt::Gen& g;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Block> blocks;
  std::vector<std::unique_ptr<AlignedRaster<std::complex<double>, N>>> externalComplex;
  std::vector<std::unique_ptr<AlignedRaster<double, N>>> externalReal;

  explicit Machine(pbt::Gen& gen) : g(gen) {}

  int newBlock(const nd::Pos& shape, bool real, const void* data) {
    Block b;
    b.shape = shape;
    b.real = real;
    b.data = data;
    blocks.push_back(b);
    return blocks.size() - 1;
  }

  nd::Pos randomShape() {
    return nd::shape(g, nd::dim(g, N, 4), 20);
  }

  static nd::Pos inShape(Kind k, const nd::Pos& s) {
    return k == RealInverse ? halfShape(s) : s;
  }

  static nd::Pos outShape(Kind k, const nd::Pos& s) {
    return k == RealDirect ? halfShape(s) : s;
  }

  int external(const nd::Pos& shape, bool real) {
    if (real) {
      externalReal.emplace_back(new AlignedRaster<double, N>(nd::to<N>(shape)));
      return newBlock(shape, real, externalReal.back()->data());
    }
    externalComplex.emplace_back(new AlignedRaster<std::complex<double>, N>(nd::to<N>(shape)));
    return newBlock(shape, real, externalComplex.back()->data());
  }

  template <typename TPlan>
  std::unique_ptr<Node> make(const nd::Pos& s, void* in, void* out) {
    std::unique_ptr<TPlan> p;
    {
      Track track;
      p.reset(new TPlan(nd::to<N>(s), static_cast<typename TPlan::InValue*>(in), static_cast<typename TPlan::OutValue*>(out)));
    }
    return std::unique_ptr<Node>(new PlanNode<TPlan, N>(std::move(p)));
  }

  void construct() {
    const auto k = static_cast<Kind>(g.draw(3));
    const auto s = randomShape();
    const bool extIn = g.chance(1, 4), extOut = g.chance(1, 4);
    NOTE("#" << nodes.size() << " = plan of kind " << k << " and shape " << nd::str(s) << (extIn ? " with input buffer" : "") << (extOut ? " with output buffer" : ""));
    const int in = extIn ? external(inShape(k, s), k == RealDirect) : -1;
    const int out = extOut ? external(outShape(k, s), k == RealInverse) : -1;
    void* inData = in >= 0 ? const_cast<void*>(blocks[in].data) : nullptr;
    void* outData = out >= 0 ? const_cast<void*>(blocks[out].data) : nullptr;
    std::unique_ptr<Node> n;
    switch (k) {
      case RealDirect:
        n = make<RealDft<N>>(s, inData, outData);
        break;
      case RealInverse:
        n = make<typename RealDft<N>::Inverse>(s, inData, outData);
        break;
      case ComplexDirect:
        n = make<ComplexDft<N>>(s, inData, outData);
        break;
      default:
        n = make<typename ComplexDft<N>::Inverse>(s, inData, outData);
    }
    add(std::move(n), s, in, out);
  }

  void add(std::unique_ptr<Node> n, const nd::Pos& s, int in, int out) {
    n->shape = s;
    n->ownsIn = in < 0;
    n->ownsOut = out < 0;
    n->in = in >= 0 ? in : newBlock(inShape(n->kind, s), n->kind == RealDirect, n->inData());
    n->out = out >= 0 ? out : newBlock(outShape(n->kind, s), n->kind == RealInverse, n->outData());
    // Planning fills the buffers with garbage
    blocks[n->in].known = false;
    blocks[n->out].known = false;
    nodes.push_back(std::move(n));
  }

  /// Index of a usable node.
  int any() {
    std::vector<int> out;
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i] && !nodes[i]->moved) {
        out.push_back(i);
      }
    }
    return out.empty() ? -1 : out[g.i(0, out.size() - 1)];
  }

  /// Destroy the nodes which use a block owned by a node, then (optionally) the node.
  void destroyUsers(int b, int except) {
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i] && !nodes[i]->moved && static_cast<int>(i) != except && (nodes[i]->in == b || nodes[i]->out == b)) {
        destroy(i);
      }
    }
  }

  void destroyDependents(int i) {
    const auto in = nodes[i]->in, out = nodes[i]->out;
    if (nodes[i]->ownsIn) {
      destroyUsers(in, i);
    }
    if (nodes[i]->ownsOut) {
      destroyUsers(out, i);
    }
  }

  void destroy(int i) {
    if (!nodes[i]->moved) {
      destroyDependents(i);
    }
    if (nodes[i]) {
      NOTE("destroy #" << i);
      nodes[i].reset();
    }
  }

  Values randomInput(const Node& n) {
    const auto size = nd::size(n.shape);
    Values v;
    for (long i = 0; i < size; ++i) {
      v.push_back(Complex(g.z(-4, 4), n.kind == ComplexDirect || n.kind == ComplexInverse ? g.z(-4, 4) : 0));
    }
    if (n.kind == RealInverse) {
      return half(dftref::transform(v, n.shape, -1), n.shape);
    }
    return v;
  }

  void run(int i) {
    auto& n = *nodes[i];
    const auto v = randomInput(n);
    const bool normalized = g.coin();
    NOTE("transform #" << i << (normalized ? " and normalize" : ""));
    n.fill(v);
    n.transform();
    if (normalized) {
      n.normalize();
    }
    blocks[n.in].known = false; // As documented
    auto& out = blocks[n.out];
    out.known = true;
    switch (n.kind) {
      case RealDirect:
        out.values = half(dftref::transform(v, n.shape, -1), n.shape);
        break;
      case ComplexDirect:
        out.values = dftref::transform(v, n.shape, -1);
        break;
      case ComplexInverse:
        out.values = dftref::transform(v, n.shape, 1);
        break;
      default: {
        // Inverse of the half spectrum of a real signal: rebuild the whole spectrum by symmetry
        Values whole(nd::size(n.shape));
        const auto h = halfShape(n.shape);
        for (const auto& p : nd::domain(n.shape)) {
          auto q = p;
          for (std::size_t j = 0; j < q.size(); ++j) {
            q[j] = (n.shape[j] - p[j]) % n.shape[j];
          }
          whole[nd::offset(n.shape, p)] = p[0] < h[0] ? v[nd::offset(h, p)] : std::conj(v[nd::offset(h, q)]);
        }
        out.values = dftref::transform(whole, n.shape, 1);
      }
    }
    if (normalized) {
      for (auto& e : out.values) {
        e /= nd::size(n.shape);
      }
    }
  }

  void check() {
    REQUIRE(planError.empty(), planError);
    std::size_t expectedPlans = 0, expectedBuffers = 0;
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      if (!nodes[i]) {
        continue;
      }
      auto& n = *nodes[i];
      if (n.moved) {
        REQUIRE(!n.inOwns() && !n.outOwns(), "#" << i << " owns data although it was moved");
        continue;
      }
      ++expectedPlans;
      expectedBuffers += n.ownsIn + n.ownsOut;
      REQUIRE(n.logicalShape() == n.shape, "#" << i << ": logical shape");
      REQUIRE(n.inShape() == inShape(n.kind, n.shape), "#" << i << ": input shape");
      REQUIRE(n.outShape() == outShape(n.kind, n.shape), "#" << i << ": output shape");
      REQUIRE(n.inData() == blocks[n.in].data, "#" << i << ": input buffer is not that expected");
      REQUIRE(n.outData() == blocks[n.out].data, "#" << i << ": output buffer is not that expected");
      REQUIRE_EQ(n.inOwns(), n.ownsIn, "#" << i << ": ownership of the input buffer");
      REQUIRE_EQ(n.outOwns(), n.ownsOut, "#" << i << ": ownership of the output buffer");
      verify(n.in);
      verify(n.out);
    }
    REQUIRE_EQ(plans.size(), expectedPlans, "number of live FFTW plans");
  }

  void verify(int b) {
    const auto& block = blocks[b];
    if (!block.known) {
      return;
    }
    const auto s = scale(block.values);
    for (std::size_t i = 0; i < block.values.size(); ++i) {
      const auto got = block.real ? std::complex<double>(static_cast<const double*>(block.data)[i]) : static_cast<const std::complex<double>*>(block.data)[i];
      REQUIRE(close(got, block.values[i], 20 * (s + 100)), "value at index " << i << " of a buffer of shape " << nd::str(block.shape) << ": got " << got << ", expected " << block.values[i]);
    }
  }

  void step() {
    const int op = g.draw(8);
    const int i = any();
    if (op == 0 || i < 0) {
      return construct();
    }
    switch (op) {
      case 1:
      case 2:
        return run(i);
      case 3: {
        NOTE("#" << nodes.size() << " = inverse of #" << i);
        const auto in = nodes[i]->out, out = nodes[i]->in;
        const auto s = nodes[i]->shape;
        return add(nodes[i]->inverse(), s, in, out);
      }
      case 4: {
        const auto k = nodes[i]->kind == RealInverse ? RealDirect : g.coin() ? ComplexDirect : ComplexInverse;
        const auto s = outShape(nodes[i]->kind, nodes[i]->shape);
        NOTE("#" << nodes.size() << " = #" << i << " composed with kind " << k);
        const auto in = nodes[i]->out;
        return add(nodes[i]->compose(s, k), s, in, -1);
      }
      case 5: {
        NOTE("#" << nodes.size() << " = move #" << i);
        auto n = nodes[i]->move();
        transfer(*nodes[i], *n);
        nodes.push_back(std::move(n));
        return;
      }
      case 6: {
        // Move-assign to a plan of same type, possibly moved-from
        std::vector<int> targets;
        for (std::size_t j = 0; j < nodes.size(); ++j) {
          if (nodes[j] && static_cast<int>(j) != i && nodes[j]->kind == nodes[i]->kind) {
            targets.push_back(j);
          }
        }
        if (targets.empty()) {
          NOTE("move #" << i << " back and forth");
          return nodes[i]->functionalMove();
        }
        if (g.chance(1, 8)) {
          NOTE("move #" << i << " to itself");
          return nodes[i]->assign(*nodes[i]);
        }
        const auto j = targets[g.i(0, targets.size() - 1)];
        if (!nodes[j]->moved) {
          destroyDependents(j);
        }
        if (!nodes[i] || !nodes[j]) {
          return;
        }
        NOTE("#" << j << " = move #" << i);
        nodes[j]->assign(*nodes[i]);
        nodes[j]->moved = false;
        transfer(*nodes[i], *nodes[j]);
        return;
      }
      case 7:
        return destroy(i);
      default: {
        // Destroy any, even if moved
        std::vector<int> all;
        for (std::size_t j = 0; j < nodes.size(); ++j) {
          if (nodes[j]) {
            all.push_back(j);
          }
        }
        return destroy(all[g.i(0, all.size() - 1)]);
      }
    }
  }

  static void transfer(Node& from, Node& to) {
    to.shape = from.shape;
    to.in = from.in;
    to.out = from.out;
    to.ownsIn = from.ownsIn;
    to.ownsOut = from.ownsOut;
    from.moved = true;
  }
};

} // namespace

namespace {
template <Index N>
void history(pbt::Gen& g) {
  static const int ok = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
  (void)ok;
  liveCount = 0;
  plans.clear();
  planError.clear();
  {
    Machine<N> m(g);
    const int steps = g.i(1, 12);
    for (int s = 0; s < steps; ++s) {
      m.step();
      m.check();
    }
    g.nontrivial(steps > 2);
    for (std::size_t i = 0; i < m.nodes.size(); ++i) {
      if (m.nodes[i]) {
        m.destroy(i);
      }
    }
    REQUIRE(planError.empty(), planError);
    for (auto& b : m.externalReal) {
      REQUIRE(b->owns(), "an external buffer is freed");
    }
    REQUIRE(plans.empty(), plans.size() << " FFTW plans are leaked");
    REQUIRE_EQ(liveCount, 0, "number of leaked allocations");
  }
}
} // namespace

PBT_LAW(C23, history, 1) {
  history<2>(g);
}
PBT_LAW(C23, history_1, .6) {
  history<1>(g);
}
PBT_LAW(C23, history_3, .6) {
  history<3>(g);
}
PBT_LAW(C23, history_variable, .6) {
  history<-1>(g);
}
