// C38: damaged FITS files and failing writes are reported, without leak, and do not prevent later operations.
#include "nd.h"

#include "LitlIo/Fits.h"

#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#if PBT_PART == 0
/// Huge allocations fail (the sanitizer would stop the program instead).
void* operator new(std::size_t n) {
  void* out = n > (1ul << 28) ? nullptr : std::malloc(n ? n : 1);
  if (!out) {
    throw std::bad_alloc();
  }
  return out;
}
void* operator new[](std::size_t n) {
  return operator new(n);
}
void operator delete(void* p) noexcept {
  std::free(p);
}
void operator delete[](void* p) noexcept {
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  std::free(p);
}
#endif

using namespace Litl;

namespace {

std::string path(const char* name) {
  const char* dir = std::getenv("VERIF_SCRATCH");
  return std::string(dir ? dir : ".") + "/c38_" + std::to_string(getpid()) + "_" + name + ".fits";
}

/// File which is removed in the end.
struct File {
  std::string name;
  explicit File(const char* n) : name(path(n)) {
    std::remove(name.c_str());
  }
  ~File() {
    std::remove(name.c_str());
  }
  void set(const std::string& content) const {
    std::ofstream(name, std::ios::binary | std::ios::trunc) << content;
  }
};

std::string contentOf(const std::string& name) {
  std::ifstream f(name, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

int descriptors() {
  int out = 0;
  if (auto* dir = opendir("/proc/self/fd")) {
    while (readdir(dir)) {
      ++out;
    }
    closedir(dir);
  }
  return out;
}

/// Independent encoding: big-endian two's complement (or unsigned bytes) and IEEE 754.
template <typename T>
using Bits = std::conditional_t<
    sizeof(T) == 1,
    std::uint8_t,
    std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;

template <typename T>
std::string bytesOf(T v) {
  Bits<T> bits;
  std::memcpy(&bits, &v, sizeof(T));
  std::string out;
  for (int i = sizeof(T) - 1; i >= 0; --i) {
    out.push_back(static_cast<char>((static_cast<std::uint64_t>(bits) >> (8 * i)) & 0xff));
  }
  return out;
}

std::string card(const std::string& key, const std::string& value) {
  std::string out = key;
  out.resize(8, ' ');
  out += "= " + std::string(value.size() < 20 ? 20 - value.size() : 0, ' ') + value;
  out.resize(80, ' ');
  return out;
}

std::string header(const std::string& simple, long bitpix, const nd::Pos& shape, long naxis) {
  std::string out = card("SIMPLE", simple) + card("BITPIX", std::to_string(bitpix)) + card("NAXIS", std::to_string(naxis));
  for (std::size_t i = 0; i < shape.size(); ++i) {
    out += card("NAXIS" + std::to_string(i + 1), std::to_string(shape[i]));
  }
  out += "END";
  out.resize((out.size() + 2879) / 2880 * 2880, ' ');
  return out;
}

template <typename T>
constexpr long bitpixOf() {
  return (std::is_floating_point<T>::value ? -8 : 8) * static_cast<long>(sizeof(T));
}

template <typename T>
std::string dataOf(const std::vector<T>& values) {
  std::string out;
  for (const auto& v : values) {
    out += bytesOf(v);
  }
  out.resize((out.size() + 2879) / 2880 * 2880, 0);
  return out;
}

template <typename T>
bool same(T a, T b) {
  return a == b || (a != a && b != b);
}

template <typename T>
std::vector<T> randomValues(pbt::Gen& g, long size) {
  std::vector<T> out(size);
  auto state = g.draw(~0ull);
  for (auto& v : out) {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    v = std::is_floating_point<T>::value ? static_cast<T>(static_cast<long>(state >> 40) / 8. - 1000) : static_cast<T>(state >> 33);
  }
  return out;
}

template <typename T, Index N>
void damaged(pbt::Gen& g) {
  using R = VecRaster<T, N>;
  const auto n = nd::dim(g, N, 4);
  auto shape = nd::shape(g, n, g.coin() ? 30 : 4000);
  const auto values = randomValues<T>(g, nd::size(shape));
  const auto head = header("T", bitpixOf<T>(), shape, n);
  const auto data = dataOf(values);
  const auto bytes = static_cast<long>(values.size() * sizeof(T));
  auto content = head + data;
  const auto kind = g.draw(8);
  NOTE("type=" << typeid(T).name() << " shape=" << nd::str(shape) << " kind=" << kind);
  // What is expected
  auto expectedShape = shape;
  auto expected = values;
  bool mustThrow = false, mayThrow = false, checkValues = true;
  switch (kind) {
    case 0: { // Truncated data
      const long left = g.coin() ? g.i(0, bytes) : g.i(0, data.size());
      NOTE("truncate after " << left << " bytes of data out of " << bytes);
      content.resize(head.size() + left);
      mustThrow = left < bytes;
      mayThrow = left < static_cast<long>(data.size());
      break;
    }
    case 1: { // Truncated header
      const long left = g.i(0, head.size() - 1);
      NOTE("truncate after " << left << " bytes of header");
      content.resize(left);
      mustThrow = true;
      break;
    }
    case 2: { // Other data
      const auto count = g.i(1, 8);
      for (long k = 0; k < count; ++k) {
        const auto at = g.i(0, bytes - 1);
        content[head.size() + at] = static_cast<char>(g.i(0, 255));
      }
      for (std::size_t i = 0; i < values.size(); ++i) {
        std::uint64_t bits = 0;
        for (std::size_t b = 0; b < sizeof(T); ++b) {
          bits = (bits << 8) | static_cast<unsigned char>(content[head.size() + i * sizeof(T) + b]);
        }
        const auto narrow = static_cast<Bits<T>>(bits);
        std::memcpy(&expected[i], &narrow, sizeof(T));
      }
      break;
    }
    case 3: { // Other length
      const auto axis = g.i(0, n - 1);
      const auto length = g.pick<long>({g.i(1, 40), shape[axis] + 1, shape[axis] * 2, 1L << 12, 1L << 20, 1L << 31, 1L << 40, 0, -1, -5});
      NOTE("length along " << axis << " is " << length);
      expectedShape[axis] = length;
      content = header("T", bitpixOf<T>(), expectedShape, n) + data;
      checkValues = false;
      long double pixels = 1;
      for (auto l : expectedShape) {
        pixels *= l;
      }
      mustThrow = length < 0 || pixels * sizeof(T) > data.size();
      mayThrow = mustThrow || length == 0;
      if (!mustThrow && length > 0) {
        expected.resize(static_cast<std::size_t>(pixels));
        for (std::size_t i = values.size(); i < expected.size(); ++i) {
          expected[i] = T(0); // Padding
        }
        checkValues = true;
      }
      break;
    }
    case 4: { // Other dimension
      const long naxis = g.pick<long>({0, 1, 2, 3, 4, 5, 6, 999, 1000, -1});
      NOTE("dimension is " << naxis);
      content = header("T", bitpixOf<T>(), shape, naxis) + data;
      if (naxis == static_cast<long>(n)) {
        break;
      }
      checkValues = false;
      mustThrow = N != -1 || naxis > static_cast<long>(n) || naxis < 0;
      mayThrow = mustThrow || naxis <= 0;
      expectedShape.resize(std::max(0L, std::min<long>(naxis, n)));
      break;
    }
    case 5: { // Other type
      const long bitpix = g.pick<long>({0, 1, 7, 12, -16, 128, -8, 24});
      NOTE("bitpix is " << bitpix);
      content = header("T", bitpix, shape, n) + data;
      mustThrow = true;
      break;
    }
    case 6: { // Something else
      const auto size = g.pick<long>({0, 1, 30, 80, 2879, 2880, 2881, 5760, 10000});
      content.resize(size);
      auto state = g.draw(~0ull);
      const bool text = g.coin();
      NOTE(size << " bytes of " << (text ? "text" : "noise"));
      for (auto& c : content) {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        c = static_cast<char>(text ? 32 + (state >> 33) % 95 : (state >> 33) % 256);
      }
      if (content.size() > 0 && content[0] == 'S') {
        content[0] = 'X';
      }
      mustThrow = true;
      break;
    }
    case 7: { // Something after the data
      const auto size = g.i(1, 6000);
      NOTE(size << " more bytes");
      content += std::string(size, static_cast<char>(g.i(0, 255)));
      break;
    }
    default: { // Some characters of the header
      const auto count = g.i(1, 4);
      for (long k = 0; k < count; ++k) {
        const auto at = g.i(0, 80 * (4 + n) - 1);
        const auto c = static_cast<char>(g.i(32, 126));
        NOTE("'" << c << "' at " << at);
        content[at] = c;
      }
      mayThrow = true;
      checkValues = false;
      expectedShape.clear();
      break;
    }
  }
  g.nontrivial(mustThrow || mayThrow || kind == 2);
  File file("damaged");
  file.set(content);
  const auto before = descriptors();
  Fits io(file.name);
  const auto times = g.i(1, 3);
  for (long k = 0; k < times; ++k) {
    bool thrown = false;
    try {
      const auto out = io.read<R>();
      REQUIRE(N == -1 || static_cast<Index>(out.shape().size()) == N, "dimension");
      REQUIRE_EQ(static_cast<long>(out.size()), static_cast<long>(shapeSize(out.shape())), "size of the raster");
      if (kind != 8) {
        REQUIRE(nd::from(out.shape()) == expectedShape, "shape is " << nd::str(nd::from(out.shape())));
      }
      if (checkValues && !mustThrow) {
        REQUIRE_EQ(out.size(), expected.size(), "size");
        REQUIRE(std::equal(expected.begin(), expected.end(), out.begin(), same<T>), "values");
      }
    } catch (const Exception&) {
      thrown = true;
    } catch (const std::bad_alloc&) {
      REQUIRE(kind == 3 || kind == 8, "bad_alloc");
      thrown = true;
    } catch (const std::length_error&) {
      REQUIRE(kind == 3 || kind == 8, "length_error");
      thrown = true;
    }
    REQUIRE(thrown || !mustThrow, "the file is read without error");
    REQUIRE(!thrown || mustThrow || mayThrow, "the file is not read");
    REQUIRE_EQ(descriptors(), before, "number of open files");
  }
  // The same handler is able to read the same file, once repaired
  file.set(head + data);
  const auto out = io.read<R>();
  REQUIRE(nd::from(out.shape()) == shape, "shape of the repaired file");
  REQUIRE(std::equal(values.begin(), values.end(), out.begin(), same<T>), "values of the repaired file");
  REQUIRE_EQ(descriptors(), before, "number of open files in the end");
}

/// Limit the size of the files, as if the disk were full.
struct Quota {
  rlimit old;
  explicit Quota(long bytes) {
    std::signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit now = old;
    now.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &now);
  }
  ~Quota() {
    setrlimit(RLIMIT_FSIZE, &old);
  }
};

template <typename T>
void full(pbt::Gen& g) {
  const auto n = g.i(1, 3);
  const auto shape = nd::shape(g, n, g.chance(1, 3) ? 20000 : 2000);
  const auto values = randomValues<T>(g, nd::size(shape));
  const VecRaster<T, -1> raster(nd::to<-1>(shape), values);
  File reference("reference"), file("full");
  Fits(reference.name).write(raster);
  const auto content = contentOf(reference.name);
  const auto size = static_cast<long>(content.size());
  const auto limit = g.coin() ? g.i(0, size + 100) : std::max(0L, std::min(size, g.i(0, size / 2880) * 2880 + g.z(-1, 1)));
  NOTE("type=" << typeid(T).name() << " shape=" << nd::str(shape) << " size=" << size << " limit=" << limit);
  g.nontrivial(limit < size);
  const auto before = descriptors();
  Fits io(file.name);
  const auto times = g.i(1, 2);
  for (long k = 0; k < times; ++k) {
    bool thrown = false;
    {
      Quota quota(limit);
      try {
        io.write(raster);
      } catch (const Exception&) {
        thrown = true;
      }
    }
    REQUIRE_EQ(descriptors(), before, "number of open files");
    // CFITSIO does not report the loss of what is left in the last buffer of the stream (assumed)
    REQUIRE(thrown || limit >= size / 4096 * 4096, "no error while writing");
    REQUIRE(!thrown || limit < size, "error while writing");
    if (!thrown && limit >= size) {
      REQUIRE(contentOf(file.name) == content, "content of the file");
    }
    std::remove(file.name.c_str());
  }
  // There is room again
  io.write(raster);
  REQUIRE(contentOf(file.name) == content, "content of the file in the end");
  const auto out = io.read<VecRaster<T, -1>>();
  REQUIRE(nd::from(out.shape()) == shape && std::equal(values.begin(), values.end(), out.begin(), same<T>), "read after write");
  REQUIRE_EQ(descriptors(), before, "number of open files in the end");
}

/// Names where there cannot be any file.
void nowhere(pbt::Gen& g) {
  const auto kind = g.draw(3);
  File file("nowhere");
  const auto shape = nd::shape(g, 2, 20);
  const auto values = randomValues<int>(g, nd::size(shape));
  const VecRaster<int, 2> raster(nd::to<2>(shape), values);
  auto name = file.name;
  NOTE("kind=" << kind << " shape=" << nd::str(shape));
  switch (kind) {
    case 0:
      name += "/file.fits";
      break;
    case 1:
      mkdir(name.c_str(), 0700);
      break;
    case 2:
      name += std::string(300, 'n'); // Too long
      break;
    default:
      break; // Only reading is impossible
  }
  g.nontrivial();
  const auto before = descriptors();
  Fits io(name);
  for (int k = 0; k < 3; ++k) {
    const bool write = kind < 3 && g.coin();
    bool thrown = false;
    try {
      if (write) {
        io.write(raster);
      } else {
        io.read<VecRaster<int, 2>>();
      }
    } catch (const Exception&) {
      thrown = true;
    }
    REQUIRE(thrown, (write ? "writing" : "reading") << " is possible");
    REQUIRE_EQ(descriptors(), before, "number of open files");
  }
  if (kind == 1) {
    rmdir(name.c_str());
  }
  if (kind != 0 && kind != 2) {
    io.write(raster);
    REQUIRE((io.read<VecRaster<int, 2>>() == raster), "read after write");
  }
  REQUIRE_EQ(descriptors(), before, "number of open files in the end");
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C38, damaged_fixed, 1) {
  switch (g.draw(3)) {
    case 0:
      return damaged<int, 2>(g);
    case 1:
      return damaged<unsigned char, 1>(g);
    case 2:
      return damaged<short, 3>(g);
    default:
      return damaged<double, 2>(g);
  }
}
#elif PBT_PART == 1
PBT_LAW(C38, damaged_variable, 1) {
  switch (g.draw(2)) {
    case 0:
      return damaged<int, -1>(g);
    case 1:
      return damaged<float, -1>(g);
    default:
      return damaged<unsigned char, -1>(g);
  }
}
#else
PBT_LAW(C38, full, 1) {
  g.coin() ? full<int>(g) : full<double>(g);
}
PBT_LAW(C38, nowhere, .3) {
  nowhere(g);
}
#endif
