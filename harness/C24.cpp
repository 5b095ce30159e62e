// C24: FITS files: what is written is what is read.
#include "nd.h"

#include "LitlIo/Fits.h"

#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <unistd.h>

using namespace Litl;

namespace {

std::string path(const char* name) {
  const char* dir = std::getenv("VERIF_SCRATCH");
  return std::string(dir ? dir : ".") + "/c24_" + std::to_string(getpid()) + "_" + name + ".fits";
}

bool exists(const std::string& name) {
  return static_cast<bool>(std::ifstream(name));
}

/// File which is removed in the end.
struct File {
  std::string name;
  explicit File(const char* n) : name(path(n)) {
    std::remove(name.c_str());
  }
  ~File() {
    std::remove(name.c_str());
  }
};

template <typename T>
T value(pbt::Gen& g) {
  if (g.chance(1, 6)) {
    return g.pick<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0), T(1)});
  }
  if (std::is_floating_point<T>::value) {
    if (g.chance(1, 12)) {
      const T inf = std::numeric_limits<T>::infinity();
      return g.pick<T>({std::numeric_limits<T>::quiet_NaN(), inf, -inf, std::numeric_limits<T>::denorm_min(), T(-0.)});
    }
    return static_cast<T>(g.z(-100000, 100000) / 7.);
  }
  return static_cast<T>(g.draw(~0ull) >> g.i(0, 63));
}

/// Same values, NaN included.
template <typename T>
bool same(T a, T b) {
  return a == b || (a != a && b != b);
}

/// Independent encoding: big-endian values, unsigned ones (or signed bytes) being stored with an offset.
template <typename T>
struct Code {
  static constexpr bool Floating = std::is_floating_point<T>::value;
  static constexpr bool Offset = !Floating && sizeof(T) > 1 && std::is_unsigned<T>::value;
  static constexpr int Bitpix = (Floating ? -8 : 8) * static_cast<int>(sizeof(T));
  using Bits = std::conditional_t<
      sizeof(T) == 1,
      std::uint8_t,
      std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;

  static std::string encode(T v) {
    Bits bits;
    std::memcpy(&bits, &v, sizeof(T));
    if (Offset) {
      bits ^= Bits(1) << (8 * sizeof(T) - 1);
    }
    std::string out;
    for (int i = sizeof(T) - 1; i >= 0; --i) {
      out.push_back(static_cast<char>((static_cast<std::uint64_t>(bits) >> (8 * i)) & 0xff));
    }
    return out;
  }
};

std::string card(const std::string& key, const std::string& value) {
  std::string out = key;
  out.resize(8, ' ');
  out += "= " + std::string(value.size() < 20 ? 20 - value.size() : 0, ' ') + value;
  out.resize(80, ' ');
  return out;
}

/// Content of a FITS file.
template <typename T>
std::string encode(const nd::Pos& shape, const std::vector<T>& values) {
  std::string out = card("SIMPLE", "T") + card("BITPIX", std::to_string(Code<T>::Bitpix)) + card("NAXIS", std::to_string(shape.size()));
  for (std::size_t i = 0; i < shape.size(); ++i) {
    out += card("NAXIS" + std::to_string(i + 1), std::to_string(shape[i]));
  }
  if (Code<T>::Offset) {
    out += card("BZERO", sizeof(T) == 2 ? "32768" : sizeof(T) == 4 ? "2147483648" : "9223372036854775808") + card("BSCALE", "1");
  }
  out += "END";
  out.resize((out.size() + 2879) / 2880 * 2880, ' ');
  for (const auto& v : values) {
    out += Code<T>::encode(v);
  }
  out.resize((out.size() + 2879) / 2880 * 2880, 0);
  return out;
}

/// Compare the content of a file to expected content: mandatory keywords and data, other keywords being ignored.
template <typename T>
void decode(const std::string& name, const nd::Pos& shape, const std::vector<T>& values) {
  std::ifstream f(name, std::ios::binary);
  const std::string content((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  REQUIRE_EQ(content.size() % 2880, 0u, "size of the file is not a multiple of the size of blocks");
  std::map<std::string, std::string> header;
  std::size_t at = 0;
  bool end = false;
  for (; !end; at += 80) {
    REQUIRE(at + 80 <= content.size(), "header has no end");
    const auto line = content.substr(at, 80);
    auto key = line.substr(0, 8);
    key = key.substr(0, key.find(' '));
    end = key == "END";
    if (line.substr(8, 2) == "= ") {
      auto v = line.substr(10, 20);
      header[key] = v.substr(std::min(v.find_first_not_of(' '), v.size()));
    }
  }
  REQUIRE_EQ(header["SIMPLE"], "T", "SIMPLE");
  REQUIRE_EQ(std::stol("0" + header["NAXIS"]), static_cast<long>(shape.size()), "NAXIS");
  for (std::size_t i = 0; i < shape.size(); ++i) {
    REQUIRE_EQ(std::stol("0" + header["NAXIS" + std::to_string(i + 1)]), shape[i], "NAXIS" << i + 1);
  }
  REQUIRE_EQ(header["BITPIX"], std::to_string(Code<T>::Bitpix), "BITPIX");
  REQUIRE_EQ(header.count("BZERO") && std::stod(header["BZERO"]) != 0, Code<T>::Offset, "BZERO");
  at = (at + 2879) / 2880 * 2880;
  REQUIRE(at + values.size() * sizeof(T) <= content.size(), "the file is too short");
  for (std::size_t i = 0; i < values.size(); ++i) {
    const bool nan = values[i] != values[i];
    REQUIRE(nan || content.substr(at + i * sizeof(T), sizeof(T)) == Code<T>::encode(values[i]), "bytes of the value at index " << i);
  }
}

template <typename T, Index N, typename TRaster, typename TBack>
void roundTrip(pbt::Gen& g, TRaster raster, const nd::Pos& shape) {
  File file("round");
  const std::vector<T> values(raster.begin(), raster.end());
  NOTE("type=" << typeid(T).name() << " shape=" << nd::str(shape) << " values=" << pbt::showAll(values));
  g.nontrivial(values.size() > 1);
  Fits io(file.name);
  io.write(raster);
  REQUIRE(std::equal(values.begin(), values.end(), raster.begin(), same<T>), "the written raster is modified");
  REQUIRE(exists(file.name), "no file is written");
  auto check = [&](const TBack& out, const char* what) {
    REQUIRE(nd::from(out.shape()) == shape, what << ": shape is " << nd::str(nd::from(out.shape())));
    REQUIRE(std::equal(values.begin(), values.end(), out.begin(), same<T>), what << ": values are " << pbt::showAll(out));
  };
  check(io.read<TBack>(), "read with the writer");
  if (g.coin()) {
    check(io.read<TBack>(), "read twice");
  }
  if (g.coin()) {
    Fits other(file.name);
    check(other.read<TBack>(), "read with another reader");
  }
  if (g.coin()) {
    decode(file.name, shape, values);
  }
  if (g.coin()) {
    File foreign("foreign");
    std::ofstream(foreign.name, std::ios::binary) << encode(shape, values);
    check(Fits(foreign.name).read<TBack>(), "read a file from another encoder");
  }
}

template <typename T, Index N>
void types(pbt::Gen& g) {
  const auto shape = nd::shape(g, nd::dim(g, N, 6), 300);
  std::vector<T> values(nd::size(shape));
  for (auto& v : values) {
    v = value<T>(g);
  }
  switch (g.draw(2)) {
    case 0:
      return roundTrip<T, N, VecRaster<T, N>, VecRaster<T, N>>(g, VecRaster<T, N>(nd::to<N>(shape), values), shape);
    case 1:
      return roundTrip<T, N, PtrRaster<T, N>, Raster<T, N>>(g, PtrRaster<T, N>(nd::to<N>(shape), values.data()), shape);
    default: {
      AlignedRaster<T, N> raster(nd::to<N>(shape));
      std::copy(values.begin(), values.end(), raster.begin());
      return roundTrip<T, N, AlignedRaster<T, N>, AlignedRaster<T, N>>(g, raster, shape);
    }
  }
}

/// Integers are read as such in larger types.
template <typename T, typename U>
void convert(pbt::Gen& g) {
  const auto shape = nd::shape(g, 2, 100);
  File file("convert");
  Raster<T, 2> raster(nd::to<2>(shape));
  for (auto& v : raster) {
    v = std::is_floating_point<T>::value ? static_cast<T>(g.z(-1000, 1000) / 8.) : value<T>(g);
  }
  NOTE("types=" << typeid(T).name() << "," << typeid(U).name() << " values=" << pbt::showAll(raster));
  g.nontrivial(raster.size() > 1);
  Fits io(file.name);
  io.write(raster);
  const auto out = io.read<Raster<U, 2>>();
  REQUIRE(nd::from(out.shape()) == shape, "shape");
  for (std::size_t i = 0; i < raster.size(); ++i) {
    REQUIRE_EQ(out[i], static_cast<U>(raster[i]), "value at index " << i);
  }
}

/// Rasters whose size exceeds the range of small integers and the buffers of the FITS library.
template <typename T>
void large(pbt::Gen& g) {
  const long n = g.i(1, 3);
  nd::Pos shape(n, 1);
  shape[g.draw(n - 1)] = g.pick<long>({1, 2880, 32767, 32768, 65535, 65536, 65537, 131072}) + g.i(0, 2);
  for (auto& e : shape) {
    if (e == 1) {
      e = g.i(1, 3);
    }
  }
  File file("large");
  Raster<T, -1> raster(nd::to<-1>(shape));
  auto state = static_cast<std::uint32_t>(g.draw(1000));
  const auto seed = state;
  auto next = [&] {
    state = state * 1664525u + 1013904223u;
    return static_cast<T>(std::is_floating_point<T>::value ? (state >> 8) / 16. : state >> 5);
  };
  for (auto& v : raster) {
    v = next();
  }
  NOTE("type=" << typeid(T).name() << " shape=" << nd::str(shape) << " seed=" << seed);
  g.nontrivial();
  Fits(file.name).write(raster);
  const auto out = Fits(file.name).read<Raster<T, -1>>();
  REQUIRE(nd::from(out.shape()) == shape, "shape is " << nd::str(nd::from(out.shape())));
  state = seed;
  for (std::size_t i = 0; i < raster.size(); ++i) {
    const T v = next();
    if (!(raster[i] == v)) {
      REQUIRE_EQ(raster[i], v, "the written raster is modified at index " << i);
    }
    if (!(out[i] == v)) {
      REQUIRE_EQ(out[i], v, "value at index " << i);
    }
  }
}

/// Sequences of operations with a few files and several handlers.
void history(pbt::Gen& g) {
  struct Model {
    bool present = false;
    nd::Pos shape;
    std::vector<int> values;
  };
  File f0("a"), f1("b");
  const std::string names[] = {f0.name, f1.name};
  Model models[2];
  std::vector<Fits> handlers {Fits(names[0]), Fits(names[1]), Fits(names[0])};
  const int of[] = {0, 1, 0};
  const int steps = g.i(1, 8);
  int written = 0;
  for (int s = 0; s < steps; ++s) {
    const int h = g.draw(2);
    const int f = of[h];
    auto& m = models[f];
    switch (g.draw(4)) {
      case 0:
      case 1: {
        const auto shape = nd::shape(g, g.i(1, 3), 20);
        std::vector<int> values(nd::size(shape));
        for (auto& v : values) {
          v = value<int>(g);
        }
        NOTE("write " << nd::str(shape) << " to file " << f << " with handler " << h);
        bool thrown = false;
        try {
          handlers[h].write(VecRaster<int, -1>(nd::to<-1>(shape), values));
        } catch (const Exception&) {
          thrown = true;
        }
        REQUIRE_EQ(thrown, m.present, "error while writing");
        if (!thrown) {
          m.present = true;
          m.shape = shape;
          m.values = values;
        } // Else, the file is left intact
        ++written;
        break;
      }
      case 2: {
        NOTE("read file " << f << " with handler " << h);
        bool thrown = false;
        try {
          const auto out = handlers[h].read<Raster<int, -1>>();
          REQUIRE(m.present, "no error while reading a missing file");
          REQUIRE(nd::from(out.shape()) == m.shape, "shape is " << nd::str(nd::from(out.shape())) << ", expected " << nd::str(m.shape));
          REQUIRE(std::equal(m.values.begin(), m.values.end(), out.begin()), "values are " << pbt::showAll(out));
        } catch (const Exception&) {
          thrown = true;
        }
        REQUIRE_EQ(thrown, !m.present, "error while reading");
        break;
      }
      case 3: {
        NOTE("read file " << f << " as 2D with handler " << h);
        bool thrown = false;
        try {
          const auto out = handlers[h].read<Raster<int, 2>>();
          REQUIRE(m.present && m.shape.size() == 2, "no error");
          REQUIRE(nd::from(out.shape()) == m.shape, "shape");
          REQUIRE(std::equal(m.values.begin(), m.values.end(), out.begin()), "values are " << pbt::showAll(out));
        } catch (const Exception&) {
          thrown = true;
        }
        REQUIRE_EQ(thrown, !m.present || m.shape.size() != 2, "error while reading as 2D");
        break;
      }
      default: {
        NOTE("remove file " << f);
        std::remove(names[f].c_str());
        m.present = false;
      }
    }
    for (int k = 0; k < 2; ++k) {
      REQUIRE_EQ(exists(names[k]), models[k].present, "existence of file " << k);
    }
  }
  g.nontrivial(written > 0 && steps > 1);
}

template <typename T>
void anyDimension(pbt::Gen& g) {
  switch (g.draw(4)) {
    case 0:
      return types<T, 1>(g);
    case 1:
      return types<T, 2>(g);
    case 2:
      return types<T, 3>(g);
    case 3:
      return types<T, 4>(g);
    default:
      return types<T, -1>(g);
  }
}

} // namespace

#if PBT_PART == 0
PBT_LAW(C24, bytes, 1) {
  g.coin() ? anyDimension<char>(g) : anyDimension<unsigned char>(g);
}
PBT_LAW(C24, convert, 1) {
  switch (g.draw(4)) {
    case 0:
      return convert<short, int>(g);
    case 1:
      return convert<unsigned char, double>(g);
    case 2:
      return convert<int, double>(g);
    case 3:
      return convert<unsigned short, long>(g);
    default:
      return convert<float, double>(g);
  }
}
PBT_LAW(C24, history, 1.5) {
  history(g);
}
#elif PBT_PART == 1
PBT_LAW(C24, large, .05) {
  switch (g.draw(2)) {
    case 0:
      return large<unsigned char>(g);
    case 1:
      return large<short>(g);
    default:
      return large<double>(g);
  }
}
PBT_LAW(C24, integers_16_32, 1) {
  switch (g.draw(3)) {
    case 0:
      return anyDimension<short>(g);
    case 1:
      return anyDimension<unsigned short>(g);
    case 2:
      return anyDimension<int>(g);
    default:
      return anyDimension<unsigned int>(g);
  }
}
#else
PBT_LAW(C24, integers_64, 1) {
  g.coin() ? anyDimension<long>(g) : anyDimension<unsigned long>(g);
}
PBT_LAW(C24, floats, 1) {
  g.coin() ? anyDimension<float>(g) : anyDimension<double>(g);
}
#endif
