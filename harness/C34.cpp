// C34: rasters and views over any history of constructions, copies, moves, assignments and modifications.
#include "nd.h"

#include <array>
#include <memory>
#include <valarray>

using namespace Litl;

namespace {

constexpr std::size_t capacity = 12;

/// The memory of a raster, as the model knows it.
template <typename T>
struct Block {
  std::vector<T> values;
  const T* base = nullptr;
};

enum Kind { vec, val, aligned, arr, ptr };

template <typename T, Index N>
struct Slot {
  Kind kind;
  bool owner = true;
  bool moved = false; // Only good for destruction and assignment
  std::unique_ptr<VecRaster<T, N>> asVec;
  std::unique_ptr<ValRaster<T, N>> asVal;
  std::unique_ptr<AlignedRaster<T, N>> asAligned;
  std::unique_ptr<ArrRaster<T, capacity, N>> asArr;
  std::unique_ptr<PtrRaster<T, N>> asPtr;
  std::shared_ptr<Block<T>> block;
  long offset = 0;
  nd::Pos shape;

  T& model(long i) const {
    return block->values[offset + i];
  }
  long size() const {
    return nd::size(shape);
  }

  template <typename F>
  void visit(F&& f) const {
    switch (kind) {
      case vec:
        return f(*asVec);
      case val:
        return f(*asVal);
      case aligned:
        return f(*asAligned);
      case arr:
        return f(*asArr);
      default:
        return f(*asPtr);
    }
  }

  /// Pointer of each kind.
  std::unique_ptr<VecRaster<T, N>>& pointer(const VecRaster<T, N>*) {
    return asVec;
  }
  std::unique_ptr<ValRaster<T, N>>& pointer(const ValRaster<T, N>*) {
    return asVal;
  }
  std::unique_ptr<AlignedRaster<T, N>>& pointer(const AlignedRaster<T, N>*) {
    return asAligned;
  }
  std::unique_ptr<ArrRaster<T, capacity, N>>& pointer(const ArrRaster<T, capacity, N>*) {
    return asArr;
  }
  std::unique_ptr<PtrRaster<T, N>>& pointer(const PtrRaster<T, N>*) {
    return asPtr;
  }
};

template <typename T>
bool same(const T& a, const T& b) {
  return a == b || (a != a && b != b);
}

template <typename T>
T value(pbt::Gen& g) {
  if (std::is_floating_point<T>::value) {
    return static_cast<T>(g.z(-40, 40) / 4.);
  }
  return static_cast<T>(g.chance(1, 4) ? g.draw(~0u) : g.draw(9));
}

template <typename T>
T arithmetic(int op, T a, T b) {
  switch (op) {
    case 0:
      return static_cast<T>(a + b);
    case 1:
      return static_cast<T>(a - b);
    case 2:
      return static_cast<T>(a * b);
    default:
      return static_cast<T>(a / b);
  }
}

template <typename A, typename B>
A& inPlace(int op, A& a, const B& b) {
  switch (op) {
    case 0:
      return a += b;
    case 1:
      return a -= b;
    case 2:
      return a *= b;
    default:
      return a /= b;
  }
}

template <typename A, typename B>
A outOfPlace(int op, const A& a, const B& b) {
  switch (op) {
    case 0:
      return a + b;
    case 1:
      return a - b;
    case 2:
      return a * b;
    default:
      return a / b;
  }
}

template <typename T>
T mixed(T a, T b) {
  return static_cast<T>(a + 3 * b);
}

template <typename T, Index N>
class World {
public:
  using S = Slot<T, N>;

  World(pbt::Gen& gen) : g(gen), n(nd::dim(gen, N, 4)) {}

  void run() {
    const long steps = g.count(1, 25);
    create();
    for (long k = 0; k < steps; ++k) {
      step();
      check();
    }
    g.nontrivial(m_slots.size() > 1 && m_writes > 1);
    while (!m_slots.empty()) { // In any order
      destroy(g.i(0, m_slots.size() - 1));
      check();
    }
  }

private:
  pbt::Gen& g;
  std::size_t n;
  std::vector<std::unique_ptr<S>> m_slots;
  long m_writes = 0;

  // Model --------------------------------------------------------------------------------------------------------------

  void check() {
    for (std::size_t k = 0; k < m_slots.size(); ++k) {
      const auto& s = *m_slots[k];
      if (s.moved) {
        continue;
      }
      s.visit([&](const auto& r) {
        REQUIRE(nd::from(r.shape()) == s.shape, "shape of " << k << ": " << pbt::showAll(r.shape()));
        REQUIRE_EQ(static_cast<long>(r.size()), s.size(), "size of " << k);
        REQUIRE_EQ(static_cast<long>(r.end() - r.begin()), s.size(), "range of " << k);
        REQUIRE_EQ(r.data() - s.block->base, s.offset, "location of " << k);
        for (long i = 0; i < s.size(); ++i) {
          REQUIRE(same(r[i], s.model(i)), "value " << i << " of " << k << ": got " << pbt::show(r[i]) << ", expected " << pbt::show(s.model(i)));
        }
      });
      for (std::size_t l = 0; l < k; ++l) {
        const auto& t = *m_slots[l];
        if (!t.moved && t.block != s.block && s.size() && t.size()) {
          const auto sb = s.block->base, tb = t.block->base;
          REQUIRE(
              sb + s.block->values.size() <= tb || tb + t.block->values.size() <= sb,
              "rasters " << l << " and " << k << " unexpectedly share memory");
        }
      }
    }
  }

  std::shared_ptr<Block<T>> newBlock(const std::vector<T>& values) {
    auto out = std::make_shared<Block<T>>();
    out->values = values;
    return out;
  }

  std::vector<T> content(const S& s) {
    return std::vector<T>(s.block->values.begin() + s.offset, s.block->values.begin() + s.offset + s.size());
  }

  /// Address of a new owner.
  void located(S& s) {
    s.visit([&](const auto& r) {
      s.block->base = r.data();
    });
  }

  /// The memory of the block is (about to be) lost: so are the views.
  void forget(const std::shared_ptr<Block<T>>& block, const S* except = nullptr) {
    for (std::size_t k = m_slots.size(); k-- > 0;) {
      if (m_slots[k]->block == block && !m_slots[k]->owner && m_slots[k].get() != except) {
        m_slots.erase(m_slots.begin() + k);
      }
    }
  }

  /// Index of a usable slot, or -1.
  long any() {
    std::vector<long> usable;
    for (std::size_t k = 0; k < m_slots.size(); ++k) {
      if (!m_slots[k]->moved) {
        usable.push_back(k);
      }
    }
    return usable.empty() ? -1 : g.pick(usable);
  }

  /// Reference to a value which may be an element of some raster.
  const T& scalar(T& storage, bool nonZero = false) {
    if (g.chance(1, 3)) {
      const auto k = any();
      if (k >= 0 && m_slots[k]->size()) {
        const auto i = g.i(0, m_slots[k]->size() - 1);
        if (!nonZero || m_slots[k]->model(i) != T(0)) {
          const T* p = nullptr;
          m_slots[k]->visit([&](auto& r) {
            p = &r[i];
          });
          NOTE("[element " << i << " of " << k << "] ");
          return *p;
        }
      }
    }
    storage = value<T>(g);
    if (nonZero && storage == T(0)) {
      storage = T(1);
    }
    return storage;
  }

  nd::Pos newShape(Kind kind) {
    if (kind == arr) {
      nd::Pos out(n, 1);
      for (long f : {2, 2, 3}) {
        out[g.i(0, n - 1)] *= f;
      }
      return out;
    }
    return kind == val ? nd::shape(g, n, 40) : nd::shapeOrEmpty(g, n, 40);
  }

  // Operations -----------------------------------------------------------------------------------------------------------

  void create() {
    auto s = std::make_unique<S>();
    s->kind = static_cast<Kind>(g.draw(3));
    s->shape = newShape(s->kind);
    std::vector<T> values(s->size());
    for (auto& v : values) {
      v = value<T>(g);
    }
    const auto way = g.draw(4);
    NOTE("create " << s->kind << " " << nd::str(s->shape) << " way " << way);
    switch (s->kind) {
      case vec:
        s->asVec = construct<VecRaster<T, N>>(s->shape, values, way);
        break;
      case val:
        s->asVal = construct<ValRaster<T, N>>(s->shape, values, way);
        break;
      case aligned:
        s->asAligned = construct<AlignedRaster<T, N>>(s->shape, values, way == 1 ? 0 : way);
        break;
      default:
        s->asArr = construct<ArrRaster<T, capacity, N>>(s->shape, values, way);
    }
    s->block = newBlock(values);
    located(*s);
    if (s->kind == aligned && way == 1) {
      s->visit([&](auto& r) {
        std::copy(values.begin(), values.end(), r.begin());
      });
    }
    m_slots.push_back(std::move(s));
  }

  template <typename R>
  std::unique_ptr<R> construct(const nd::Pos& shape, std::vector<T>& values, std::uint64_t way) {
    const auto s = nd::to<N>(shape);
    switch (way) {
      case 0:
        return std::make_unique<R>(s, values);
      case 1:
        return fromPointer<R>(s, values, 0);
      case 2: {
        auto r = std::make_unique<R>(s);
        std::copy(values.begin(), values.end(), r->begin());
        return r;
      }
      case 3: {
        // From another raster
        const VecRaster<T, N> other(s, values);
        auto r = std::make_unique<R>(s, other);
        return r;
      }
      default:
        if (values.size() == 2) {
          return std::make_unique<R>(s, std::initializer_list<T> {values[0], values[1]});
        }
        auto r = std::make_unique<R>(s);
        long i = 0;
        for (const auto& p : r->domain()) {
          (*r)[p] = values[i++];
        }
        return r;
    }
  }

  /// Copy the values.
  template <typename R>
  auto fromPointer(const Position<N>& s, std::vector<T>& values, int)
      -> std::enable_if_t<!std::is_same<R, AlignedRaster<T, N>>::value, std::unique_ptr<R>> {
    return std::make_unique<R>(s, values.data());
  }
  template <typename R>
  std::unique_ptr<R> fromPointer(const Position<N>& s, std::vector<T>&, long) {
    return std::make_unique<R>(s);
  }

  void step() {
    if (m_slots.size() > 10) {
      NOTE("\n  ");
      return destroy(g.i(0, m_slots.size() - 1));
    }
    NOTE("\n  ");
    const auto op = g.draw(19);
    const auto k = op == 0 ? -1 : any();
    if (k < 0) {
      return create();
    }
    auto& s = *m_slots[k];
    switch (op) {
      case 0:
        return;
      case 1:
        return view(k);
      case 2:
        return section(s, k);
      case 3:
        return copyConstruct(s, k);
      case 4:
        return moveConstruct(s, k);
      case 5:
      case 6:
        return assign(s, k);
      case 7:
        return moveAssign(s, k);
      case 8:
        return swap(s, k);
      case 9:
        return g.chance(1, 3) ? destroy(k) : hyperplane(s, k, std::integral_constant<bool, N != 1 && N != 0> {});
      default:
        ++m_writes;
        return write(s, k, op);
    }
  }

  void view(long k) {
    auto& s = *m_slots[k];
    auto v = std::make_unique<S>();
    v->owner = false;
    v->kind = g.coin() ? ptr : aligned;
    v->block = s.block;
    v->shape = nd::shapeOrEmpty(g, n, std::max(1L, s.size()));
    if (v->size() > s.size()) {
      v->shape = s.shape;
    }
    const auto start = g.i(0, s.size() - v->size());
    v->offset = s.offset + start;
    NOTE("view " << v->kind << " of " << k << " from " << start << " " << nd::str(v->shape));
    T* data = nullptr;
    s.visit([&](auto& r) {
      data = r.data() + start;
    });
    if (v->kind == ptr || !data) {
      v->kind = ptr;
      v->asPtr = std::make_unique<PtrRaster<T, N>>(nd::to<N>(v->shape), data);
    } else {
      v->asAligned = std::make_unique<AlignedRaster<T, N>>(nd::to<N>(v->shape), data);
      REQUIRE(!v->asAligned->owns(), "a view does not own its data");
    }
    m_slots.push_back(std::move(v));
  }

  void section(S& s, long k) {
    if (s.size() == 0) {
      return;
    }
    auto v = std::make_unique<S>();
    v->owner = false;
    v->kind = ptr;
    v->block = s.block;
    v->shape = s.shape;
    const auto front = g.i(0, s.shape.back() - 1);
    const auto back = g.i(front, s.shape.back() - 1);
    v->shape.back() = back - front + 1;
    long stride = 1;
    for (std::size_t i = 0; i + 1 < n; ++i) {
      stride *= s.shape[i];
    }
    v->offset = s.offset + front * stride;
    NOTE("section of " << k << " from " << front << " to " << back);
    s.visit([&](auto& r) {
      const auto& c = r;
      const auto constant = c.section(front, back);
      REQUIRE(constant.data() == s.block->base + v->offset, "read-only section");
      if (N > 0 && g.coin()) {
        nd::Pos f(n, 0), b = s.shape;
        for (auto& e : b) {
          --e;
        }
        f.back() = front;
        b.back() = back;
        v->asPtr = sliced(r, f, b, std::integral_constant<bool, (N > 0)> {});
      } else {
        v->asPtr = std::make_unique<PtrRaster<T, N>>(r.section(front, back));
      }
    });
    m_slots.push_back(std::move(v));
  }

  template <typename R>
  std::unique_ptr<PtrRaster<T, N>> sliced(R& r, const nd::Pos& f, const nd::Pos& b, std::true_type) {
    return std::make_unique<PtrRaster<T, N>>(r.template slice<N>(Box<N>(nd::to<N>(f), nd::to<N>(b))));
  }
  template <typename R>
  std::unique_ptr<PtrRaster<T, N>> sliced(R&, const nd::Pos&, const nd::Pos&, std::false_type) {
    return nullptr;
  }

  void hyperplane(S&, long, std::false_type) {}
  void hyperplane(S& s, long k, std::true_type) {
    if (n < 2 || s.size() == 0) {
      return;
    }
    const auto index = g.i(0, s.shape.back() - 1);
    NOTE("section " << index << " of " << k << " += 1");
    const auto area = s.size() / s.shape.back();
    s.visit([&](auto& r) {
      auto plane = r.section(index);
      REQUIRE_EQ(static_cast<long>(plane.size()), area, "size of the section");
      ++plane;
      const auto& c = r;
      REQUIRE(c.section(index).data() == plane.data(), "read-only section");
      REQUIRE(c.section(index).shape() == plane.shape(), "shape of the read-only section");
    });
    for (long i = 0; i < area; ++i) {
      s.model(index * area + i) = static_cast<T>(s.model(index * area + i) + 1);
    }
    ++m_writes;
  }

  template <typename R, typename V>
  void constructFrom(S& out, V&& v) {
    out.pointer(static_cast<const R*>(nullptr)) = std::make_unique<R>(std::forward<V>(v));
  }

  void copyConstruct(S& s, long k) {
    NOTE("copy " << k);
    auto c = std::make_unique<S>();
    c->kind = s.kind;
    c->owner = s.owner;
    c->shape = s.shape;
    s.visit([&](const auto& r) {
      constructFrom<std::decay_t<decltype(r)>>(*c, r);
    });
    if (s.owner) {
      c->block = newBlock(content(s));
      located(*c);
    } else {
      c->block = s.block;
      c->offset = s.offset;
    }
    m_slots.push_back(std::move(c));
  }

  void moveConstruct(S& s, long k) {
    NOTE("move " << k);
    auto c = std::make_unique<S>();
    c->kind = s.kind;
    c->owner = s.owner;
    c->shape = s.shape;
    c->block = s.block;
    c->offset = s.offset;
    s.visit([&](auto& r) {
      constructFrom<std::decay_t<decltype(r)>>(*c, std::move(r));
    });
    moved(*c, s);
    m_slots.push_back(std::move(c));
  }

  /// The memory of s went to c.
  void moved(S& c, S& s) {
    s.moved = true;
    if (s.kind == arr) { // The values are stored in the raster
      const auto old = s.block;
      c.block = newBlock(content(s));
      c.offset = 0;
      located(c);
      s.moved = N == -1; // Moving values copies them, but not the variable shape
      return;
    }
    if (s.kind == ptr) {
      s.moved = N == -1;
      return;
    }
    if (s.moved) {
      s.block = nullptr;
      s.offset = 0;
    }
    if (c.owner && c.size() == 0) { // Whatever the address
      located(c);
    }
  }

  /// Another slot of same type, possibly the same, preferably.
  long sibling(const S& s, bool mayBeMoved = false) {
    std::vector<long> out;
    for (std::size_t k = 0; k < m_slots.size(); ++k) {
      const auto& t = *m_slots[k];
      if (t.kind == s.kind && (mayBeMoved || !t.moved)) {
        out.push_back(k);
      }
    }
    return g.pick(out);
  }

  /// Views of the memory of a raster to be assigned; a view of the memory which is about to be freed is no valid source.
  bool assignable(const S& to, const S& from) {
    return &to == &from || !(to.owner && !from.owner && to.block && from.block == to.block);
  }

  void assign(S& s, long k) {
    const auto j = sibling(s, true);
    auto& t = *m_slots[j];
    if (!assignable(t, s)) {
      return;
    }
    NOTE("assign " << k << " to " << j);
    s.visit([&](const auto& r) {
      using R = std::decay_t<decltype(r)>;
      auto& to = *t.pointer(static_cast<const R*>(nullptr));
      auto& result = (to = r);
      REQUIRE(&result == &to, "assignment returns another raster");
    });
    if (&s == &t) {
      return;
    }
    const bool inside = s.kind == arr; // Assigning std::array keeps the address, hence the views
    if (inside) {
      for (long i = 0; i < static_cast<long>(capacity); ++i) {
        t.model(i) = s.model(i);
      }
      t.shape = s.shape;
      t.moved = false;
      return;
    }
    if (t.owner && t.block) {
      const auto lost = t.block;
      t.block = nullptr;
      t.shape = s.shape;
      if (s.owner) {
        t.block = newBlock(content(s));
      } else {
        t.block = s.block;
      }
      t.offset = s.owner ? 0 : s.offset;
      t.owner = s.owner;
      t.moved = false;
      if (s.owner) {
        located(t);
      }
      forget(lost, &t);
      return;
    }
    t.shape = s.shape;
    t.owner = s.owner;
    t.block = s.owner ? newBlock(content(s)) : s.block;
    t.offset = s.owner ? 0 : s.offset;
    t.moved = false;
    if (s.owner) {
      located(t);
    }
  }

  void moveAssign(S& s, long k) {
    const auto j = sibling(s, true);
    auto& t = *m_slots[j];
    if (&t == &s || !assignable(t, s)) { // Self move assignment leaves an unspecified value
      return;
    }
    NOTE("move " << k << " to " << j);
    s.visit([&](auto& r) {
      using R = std::decay_t<decltype(r)>;
      auto& to = *t.pointer(static_cast<const R*>(nullptr));
      auto& result = (to = std::move(r));
      REQUIRE(&result == &to, "assignment returns another raster");
    });
    if (s.kind == arr) {
      for (long i = 0; i < static_cast<long>(capacity); ++i) {
        t.model(i) = s.model(i);
      }
      t.shape = s.shape;
      t.moved = false;
      s.moved = N == -1;
      return;
    }
    const auto lost = t.owner ? t.block : nullptr;
    t.shape = s.shape;
    t.block = s.block;
    t.offset = s.offset;
    t.owner = s.owner;
    t.moved = false;
    if (s.kind == ptr) {
      s.moved = N == -1;
    } else {
      s.moved = true;
      s.block = nullptr;
      s.offset = 0;
      if (t.owner && t.size() == 0) {
        located(t);
      }
    }
    if (lost) {
      forget(lost, &t);
    }
  }

  void swap(S& s, long k) {
    const auto j = sibling(s);
    auto& t = *m_slots[j];
    if (&t == &s || s.kind == arr || s.size() == 0 || t.size() == 0) {
      return;
    }
    NOTE("swap " << k << " and " << j);
    s.visit([&](auto& r) {
      using R = std::decay_t<decltype(r)>;
      std::swap(r, *t.pointer(static_cast<const R*>(nullptr)));
    });
    std::swap(s.block, t.block);
    std::swap(s.offset, t.offset);
    std::swap(s.shape, t.shape);
    std::swap(s.owner, t.owner);
  }

  void destroy(long k) {
    NOTE("destroy " << k);
    const auto block = m_slots[k]->block;
    const bool owner = m_slots[k]->owner;
    m_slots.erase(m_slots.begin() + k);
    if (owner && block) {
      forget(block);
    }
  }

  /// Another raster of same size, whose memory is the same or disjoint.
  long operand(const S& s, bool sameKind) {
    std::vector<long> out;
    for (std::size_t k = 0; k < m_slots.size(); ++k) {
      const auto& t = *m_slots[k];
      if (!t.moved && t.size() == s.size() && (!sameKind || t.kind == s.kind) &&
          (t.block != s.block || t.offset == s.offset || t.offset >= s.offset + s.size() ||
           s.offset >= t.offset + t.size())) {
        out.push_back(k);
      }
    }
    return g.pick(out);
  }

  static bool hasZero(const std::vector<T>& v) {
    return std::find(v.begin(), v.end(), T(0)) != v.end();
  }

  void write(S& s, long k, std::uint64_t op) {
    T storage;
    const long size = s.size();
    switch (op) {
      case 10: {
        const auto& v = scalar(storage);
        const auto copy = v;
        NOTE("fill " << k << " with " << pbt::show(v));
        s.visit([&](auto& r) {
          REQUIRE(&r.fill(v) == &r, "fill returns another raster");
        });
        for (long i = 0; i < size; ++i) {
          s.model(i) = copy;
        }
        return;
      }
      case 11: {
        T storage2;
        const auto& v = scalar(storage);
        const auto& w = scalar(storage2);
        T e = v;
        const T d = w;
        NOTE("range " << k << " from " << pbt::show(v) << " by " << pbt::show(w));
        s.visit([&](auto& r) {
          REQUIRE(&r.range(v, w) == &r, "range returns another raster");
        });
        for (long i = 0; i < size; ++i) {
          s.model(i) = e;
          e += d;
        }
        return;
      }
      case 12: {
        const auto j = operand(s, false);
        const auto way = g.draw(2);
        NOTE((way ? "apply to " : "generate ") << k << " with " << j);
        const auto other = content(*m_slots[j]);
        s.visit([&](auto& r) {
          m_slots[j]->visit([&](const auto& o) {
            switch (way) {
              case 0:
                r.generate([](auto a) {
                  return mixed<T>(a, a);
                }, o);
                break;
              case 1:
                r.apply([](auto a, auto b) {
                  return mixed<T>(a, b);
                }, o);
                break;
              default:
                r.apply([](auto a) {
                  return mixed<T>(1, a);
                });
            }
          });
        });
        for (long i = 0; i < size; ++i) {
          s.model(i) = way == 0 ? mixed<T>(other[i], other[i]) : way == 1 ? mixed<T>(s.model(i), other[i]) : mixed<T>(1, s.model(i));
        }
        return;
      }
      case 13: {
        const int a = g.draw(3);
        const auto& v = scalar(storage, true);
        const auto copy = v;
        NOTE("operator " << a << " on " << k << " with " << pbt::show(v));
        s.visit([&](auto& r) {
          REQUIRE(&inPlace(a, r, v) == &r, "the operator returns another raster");
        });
        for (long i = 0; i < size; ++i) {
          s.model(i) = arithmetic(a, s.model(i), copy);
        }
        return;
      }
      case 14: {
        const auto j = operand(s, true);
        const auto& t = *m_slots[j];
        const auto other = content(t);
        const int a = g.draw(!std::is_floating_point<T>::value && hasZero(other) ? 2 : 3);
        NOTE("operator " << a << " on " << k << " with " << j);
        s.visit([&](auto& r) {
          using R = std::decay_t<decltype(r)>;
          REQUIRE(&inPlace(a, r, *m_slots[j]->pointer(static_cast<const R*>(nullptr))) == &r, "the operator returns another raster");
        });
        for (long i = 0; i < size; ++i) {
          s.model(i) = arithmetic(a, s.model(i), other[i]);
        }
        return;
      }
      case 15: {
        if (size == 0) {
          return;
        }
        const auto i = g.i(0, size - 1);
        nd::Pos p;
        long q = i;
        for (auto l : s.shape) {
          p.push_back(q % l);
          q /= l;
        }
        const auto way = g.draw(4);
        const auto v = value<T>(g);
        NOTE("set " << k << " at " << nd::str(p) << " to " << pbt::show(v));
        s.visit([&](auto& r) {
          switch (way) {
            case 0:
              r[i] = v;
              break;
            case 1:
              r[nd::to<N>(p)] = v;
              break;
            case 2: {
              auto m = p;
              const auto axis = g.i(0, n - 1);
              m[axis] -= s.shape[axis];
              r.at(nd::to<N>(m)) = v;
              break;
            }
            case 3:
              r.at(i - size) = v;
              break;
            default:
              *(r.begin() + i) = v;
          }
        });
        s.model(i) = v;
        return;
      }
      case 16: {
        if (size == 0) {
          return;
        }
        const auto box = nd::region(g, s.shape);
        const auto v = value<T>(g);
        NOTE("region " << nd::str(box.first) << "-" << nd::str(box.second) << " of " << k << " = " << pbt::show(v) << "...");
        s.visit([&](auto& r) {
          auto sub = r.subraster(Box<N>(nd::to<N>(box.first), nd::to<N>(box.second)));
          T w = v;
          for (auto& e : sub) {
            e = w;
            w = static_cast<T>(w + 1);
          }
        });
        T w = v;
        for (const auto& p : nd::positions(box.first, box.second)) {
          s.model(nd::offset(s.shape, p)) = w;
          w = static_cast<T>(w + 1);
        }
        return;
      }
      case 17: {
        // New raster as the result of an operator
        if (!s.owner) {
          return;
        }
        const auto j = operand(s, true);
        if (!m_slots[j]->owner) {
          return;
        }
        const auto other = content(*m_slots[j]);
        const int a = g.draw(!std::is_floating_point<T>::value && hasZero(other) ? 2 : 3);
        NOTE("new: operator " << a << " between " << k << " and " << j);
        auto c = std::make_unique<S>();
        c->kind = s.kind;
        c->shape = s.shape;
        auto values = content(s);
        s.visit([&](const auto& r) {
          using R = std::decay_t<decltype(r)>;
          constructFrom<R>(*c, outOfPlace(a, r, *m_slots[j]->pointer(static_cast<const R*>(nullptr))));
        });
        for (long i = 0; i < size; ++i) {
          values[i] = arithmetic(a, values[i], other[i]);
        }
        c->block = newBlock(values);
        located(*c);
        m_slots.push_back(std::move(c));
        return;
      }
      case 18: {
        const auto j = any();
        NOTE("compare " << k << " and " << j);
        const auto& t = *m_slots[j];
        const bool expected = s.shape == t.shape && content(s) == content(t);
        s.visit([&](const auto& r) {
          t.visit([&](const auto& o) {
            REQUIRE_EQ(r == o, expected, "equality of " << k << " and " << j);
            REQUIRE_EQ(r != o, !expected, "inequality of " << k << " and " << j);
          });
          if (size) {
            const auto values = content(s);
            if (std::none_of(values.begin(), values.end(), [](T v) { return v != v; })) {
              REQUIRE(r.min() == *std::min_element(values.begin(), values.end()), "min of " << k);
              REQUIRE(r.max() == *std::max_element(values.begin(), values.end()), "max of " << k);
            }
          }
        });
        return;
      }
      default: {
        NOTE("increment and copy " << k);
        s.visit([&](auto& r) {
          REQUIRE(&++r == &r, "increment returns another raster");
          std::rotate(r.begin(), r.begin() + size / 2, r.end());
        });
        auto values = content(s);
        for (auto& v : values) {
          v = static_cast<T>(v + 1);
        }
        std::rotate(values.begin(), values.begin() + size / 2, values.end());
        for (long i = 0; i < size; ++i) {
          s.model(i) = values[i];
        }
        return;
      }
    }
  }
};

template <typename T, Index N>
void law(pbt::Gen& g) {
  World<T, N>(g).run();
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C34, bytes_1d, 1) {
  law<std::uint8_t, 1>(g);
}
#elif PBT_PART == 1
PBT_LAW(C34, reals_2d, 1) {
  law<double, 2>(g);
}
#elif PBT_PART == 2
PBT_LAW(C34, words_3d, 1) {
  law<std::uint32_t, 3>(g);
}
#elif PBT_PART == 3
PBT_LAW(C34, bytes_variable, 1) {
  law<std::uint8_t, -1>(g);
}
#else
PBT_LAW(C34, reals_variable, 1) {
  law<float, -1>(g);
}
#endif
