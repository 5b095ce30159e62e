// C07: AlignedBuffer histories: alignment, exclusive ownership, no leak, no double free, deep copies, moves.
#include "pbt.h"

#include "LitlContainer/AlignedBuffer.h"

#include <memory>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));

using namespace Litl;

namespace {

// Live allocations made while tracking is enabled
constexpr int capacity = 4096;
const volatile void* live[capacity];
int liveCount = 0;
bool tracking = false;

void onMalloc(const volatile void* p, size_t) {
  if (tracking && p && liveCount < capacity) {
    live[liveCount++] = p;
  }
}

void onFree(const volatile void* p) {
  for (int i = liveCount - 1; i >= 0; --i) {
    if (live[i] == p) {
      live[i] = live[--liveCount];
      return;
    }
  }
}

void install() {
  static const int ok = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
  (void)ok;
  liveCount = 0;
}

struct Track {
  Track() {
    tracking = true;
  }
  ~Track() {
    tracking = false;
  }
};

/// Some memory: owned by a buffer, released, or external.
struct Block {
  bool alive;
  std::vector<int> values;
};

struct Model {
  int block = -1; ///< -1 if empty
  long size = 0;
  std::size_t as = 1;
  bool owns = false;
  bool empty = true; ///< Moved from or reset; or copy of it
  bool strict = true; ///< If false, ownership is unspecified (copy of an empty buffer)
};

template <typename T>
struct Machine {
  using Buffer = AlignedBuffer<T>;
  pbt::Gen& g;
  std::vector<std::unique_ptr<Buffer>> buffers;
  std::vector<Model> models;
  std::vector<Block> blocks;
  std::vector<T*> pointers; ///< Of the blocks
  std::vector<std::vector<T>> external;
  std::vector<std::pair<int, void*>> released;

  explicit Machine(pbt::Gen& gen) : g(gen) {}

  int newBlock(long size) {
    blocks.push_back({true, std::vector<int>(size)});
    pointers.push_back(nullptr);
    return blocks.size() - 1;
  }

  void fill(int k) {
    auto& b = blocks[models[k].block];
    auto* p = const_cast<T*>(buffers[k]->data());
    for (long i = 0; i < models[k].size; ++i) {
      b.values[i] = g.i(0, 99);
      p[i] = static_cast<T>(b.values[i]);
    }
  }

  void add(std::unique_ptr<Buffer> b, Model m) {
    buffers.push_back(std::move(b));
    models.push_back(m);
  }

  /// The owned block, if any, dies
  void kill(int k) {
    if (models[k].owns && models[k].block >= 0) {
      blocks[models[k].block].alive = false;
    }
  }

  int newOwned(long size, std::size_t align, std::size_t as) {
    Track t;
    std::unique_ptr<Buffer> b(align == 0 && g.coin() ? new Buffer(size) : new Buffer(size, nullptr, align));
    tracking = false;
    Model m;
    m.block = newBlock(size);
    m.size = size;
    m.as = as;
    m.owns = true;
    m.empty = false;
    pointers[m.block] = const_cast<T*>(b->data());
    add(std::move(b), m);
    fill(buffers.size() - 1);
    return buffers.size() - 1;
  }

  /// The model of a copy made to a (possibly new) buffer
  Model copied(int from, const Buffer& b) {
    Model m = models[from];
    if (m.empty) {
      m.strict = false;
      return m;
    }
    if (m.owns) {
      m.block = newBlock(m.size);
      blocks[m.block].values = blocks[models[from].block].values;
      pointers[m.block] = const_cast<T*>(b.data());
      REQUIRE(
          b.data() != buffers[from]->data() || m.size == 0,
          "the copy of an owning buffer shares its memory");
    }
    return m;
  }

  void check(const char* op) {
    for (std::size_t k = 0; k < buffers.size(); ++k) {
      if (!buffers[k]) {
        continue;
      }
      const auto& b = *buffers[k];
      const auto& m = models[k];
      REQUIRE_EQ(static_cast<long>(b.size()), m.size, op << ": size of buffer " << k);
      if (m.empty) {
        if (m.strict) {
          REQUIRE(!b.data(), op << ": empty buffer " << k << " has data");
          REQUIRE(!b.owns(), op << ": empty buffer " << k << " owns data");
          REQUIRE_EQ(b.alignmentReq(), 1UL, op << ": alignment requirement of empty buffer " << k);
        }
        continue;
      }
      REQUIRE_EQ(b.owns(), m.owns, op << ": ownership of buffer " << k);
      REQUIRE_EQ(b.alignmentReq(), m.as, op << ": alignment requirement of buffer " << k);
      REQUIRE(b.data() == pointers[m.block], op << ": data pointer of buffer " << k);
      REQUIRE(reinterpret_cast<std::uintptr_t>(b.data()) % m.as == 0, op << ": alignment of buffer " << k);
      REQUIRE(b.alignment() % m.as == 0, op << ": alignment() of buffer " << k);
      REQUIRE(
          reinterpret_cast<std::uintptr_t>(b.data()) % b.alignment() == 0 &&
              reinterpret_cast<std::uintptr_t>(b.data()) % (2 * b.alignment()) != 0,
          op << ": alignment() is not the highest one for buffer " << k);
      const auto& block = blocks[m.block];
      if (block.alive) {
        for (long i = 0; i < m.size; ++i) {
          REQUIRE(b.data()[i] == static_cast<T>(block.values[i]), op << ": value " << i << " of buffer " << k);
        }
      }
    }
  }

  int pickBuffer() {
    return buffers.empty() ? -1 : static_cast<int>(g.i(0, buffers.size() - 1));
  }

  void step() {
    const int op = g.draw(13);
    const int k = pickBuffer();
    if (op <= 1 || k < 0) {
      const long size = g.count(0, 40);
      const std::size_t align = g.pick<std::size_t>({0, std::size_t(-1), 1, 16, 32, 64, 128, 256, 1024, 4096, 8, 2, 8192, 65536, 1 << 20});
      NOTE("own(" << size << ", " << long(align) << ")");
      newOwned(size, align, align == 0 || align == std::size_t(-1) ? 64 : align);
      return check("owning constructor");
    }
    auto& b = *buffers[k];
    auto& m = models[k];
    switch (op) {
      case 2: { // view of external memory, possibly misaligned
        const long size = g.i(1, 20);
        const long shift = g.i(0, 16);
        external.emplace_back(size + 64);
        T* p = external.back().data() + shift;
        const std::size_t align = g.pick<std::size_t>({0, 1, sizeof(T), 16, 64, std::size_t(-1)});
        const std::size_t as = align == 0 ? 1 : align == std::size_t(-1) ? 64 : align;
        NOTE("view(" << size << ", " << long(align) << ")");
        const bool ok = reinterpret_cast<std::uintptr_t>(p) % as == 0;
        g.label(ok ? "aligned view" : "misaligned view");
        std::unique_ptr<Buffer> v;
        bool thrown = false;
        try {
          Track t;
          v.reset(new Buffer(size, p, align));
        } catch (const AlignmentError&) {
          thrown = true;
        }
        REQUIRE_EQ(thrown, !ok, "alignment error for a view with required alignment " << as);
        if (ok) {
          Model n;
          n.block = newBlock(size);
          n.size = size;
          n.as = as;
          n.empty = false;
          pointers[n.block] = p;
          add(std::move(v), n);
          fill(buffers.size() - 1);
        }
        return check("view constructor");
      }
      case 3: { // view of another buffer
        if (m.empty || !blocks[m.block].alive) {
          return;
        }
        NOTE("viewOf(" << k << ")");
        std::unique_ptr<Buffer> v;
        {
          Track t;
          v.reset(new Buffer(m.size, const_cast<T*>(b.data())));
        }
        Model n = m;
        n.as = 1;
        n.owns = false;
        add(std::move(v), n);
        return check("view of buffer");
      }
      case 4: {
        NOTE("copy(" << k << ")");
        std::unique_ptr<Buffer> c;
        {
          Track t;
          c.reset(new Buffer(b));
        }
        const auto n = copied(k, *c);
        add(std::move(c), n);
        g.label("copy");
        return check("copy constructor");
      }
      case 5: {
        NOTE("move(" << k << ")");
        std::unique_ptr<Buffer> c;
        {
          Track t;
          c.reset(new Buffer(std::move(b)));
        }
        const Model n = m;
        m = Model();
        add(std::move(c), n);
        g.label("move");
        return check("move constructor");
      }
      case 6:
      case 7: {
        const int j = pickBuffer();
        NOTE("assign(" << j << "<-" << k << ")");
        if (j == k) {
          Track t;
          const auto& self = b;
          b = self;
          tracking = false;
          g.label("self assignment");
          return check("self copy assignment");
        }
        if (aliases(j, k)) {
          return; // would leave a dangling view
        }
        {
          Track t;
          *buffers[j] = static_cast<const Buffer&>(b);
        }
        kill(j);
        models[j] = copied(k, *buffers[j]);
        g.label("copy assignment");
        return check("copy assignment");
      }
      case 8:
      case 9: {
        const int j = pickBuffer();
        NOTE("moveAssign(" << j << "<-" << k << ")");
        if (j == k) {
          auto& self = b;
          {
            Track t;
            self = std::move(b);
          }
          g.label("self assignment");
          return check("self move assignment");
        }
        if (aliases(j, k)) {
          return;
        }
        {
          Track t;
          *buffers[j] = std::move(b);
        }
        kill(j);
        models[j] = models[k];
        models[k] = Model();
        g.label("move assignment");
        return check("move assignment");
      }
      case 10: {
        NOTE("release(" << k << ")");
        void* p = b.release();
        REQUIRE((p != nullptr) == m.owns || !m.strict, "release() of buffer " << k << " returns " << p);
        if (p) {
          released.push_back({m.block, p});
        }
        m.owns = false;
        if (m.empty) {
          m.strict = false;
        }
        g.label("release");
        return check("release");
      }
      case 11: {
        NOTE("reset(" << k << ")");
        {
          Track t;
          b.reset();
        }
        kill(k);
        m = Model();
        return check("reset");
      }
      case 12: {
        NOTE("destroy(" << k << ")");
        {
          Track t;
          buffers[k].reset();
        }
        kill(k);
        buffers.erase(buffers.begin() + k);
        models.erase(models.begin() + k);
        return check("destructor");
      }
      default:
        if (!m.empty && blocks[m.block].alive) {
          NOTE("write(" << k << ")");
          fill(k);
        }
        return check("write");
    }
  }

  /// Whether k is a view on memory owned by j, or the converse
  bool aliases(int j, int k) {
    return models[j].block >= 0 && models[j].block == models[k].block;
  }

  void finish() {
    {
      Track t;
      buffers.clear();
    }
    for (auto& r : released) {
      if (r.first >= 0) {
        for (std::size_t i = 0; i < blocks[r.first].values.size(); ++i) {
          REQUIRE(
              pointers[r.first][i] == static_cast<T>(blocks[r.first].values[i]),
              "released memory was changed or freed");
        }
      }
      std::free(r.second);
    }
    REQUIRE_EQ(liveCount, 0, "number of leaked allocations");
  }
};

template <typename T>
void history(pbt::Gen& g) {
  install();
  Machine<T> machine(g);
  const int steps = g.i(1, 14);
  for (int s = 0; s < steps; ++s) {
    machine.step();
  }
  g.nontrivial(steps > 2);
  machine.finish();
}

} // namespace

PBT_LAW(C07, history, 3) {
  switch (g.draw(3)) {
    case 0:
      return history<int>(g);
    case 1:
      return history<double>(g);
    case 2:
      return history<char>(g);
    default:
      return history<float>(g);
  }
}

PBT_LAW(C07, alignment_functions, 0.5) {
  static const std::vector<char> memory(1 << 17);
  const std::uintptr_t base = (reinterpret_cast<std::uintptr_t>(memory.data()) + 65535) & ~std::uintptr_t(65535);
  const long offset = g.coin() ? g.i(1, 60000) : (1L << g.i(0, 14)) * g.i(1, 3);
  const auto* p = reinterpret_cast<const char*>(base + offset);
  std::size_t highest = 1;
  while ((base + offset) % (2 * highest) == 0) {
    highest *= 2;
  }
  NOTE("offset=" << offset);
  g.nontrivial(highest > 1);
  REQUIRE_EQ(Litl::alignment(p), highest, "alignment()");
  for (std::size_t as = 1; as <= 65536; as *= 2) {
    REQUIRE_EQ(isAligned(p, as), as <= highest, "isAligned(" << as << ")");
  }
  // Addresses are never dereferenced
  const int power = g.i(0, 46);
  const auto odd = static_cast<std::uintptr_t>(2 * g.i(0, 200) + 1);
  NOTE("address " << odd << " << " << power);
  const auto* q = reinterpret_cast<const char*>(odd << power);
  REQUIRE_EQ(static_cast<std::uintptr_t>(Litl::alignment(q)), std::uintptr_t(1) << power, "alignment() of a high power");
  for (int k = 0; k < 48; ++k) {
    REQUIRE_EQ(isAligned(q, std::size_t(1) << k), k <= power, "isAligned(2^" << k << ")");
  }
  int thrown = 0;
  try {
    Litl::alignment<int>(nullptr);
  } catch (const NullPtrError&) {
    ++thrown;
  }
  try {
    isAligned<int>(nullptr, 16);
  } catch (const NullPtrError&) {
    ++thrown;
  }
  REQUIRE_EQ(thrown, 2, "null pointers rejected");
}
