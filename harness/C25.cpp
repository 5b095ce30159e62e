// C25: program options: what is declared is what is parsed, whatever the command line and the way it is provided.
#include "nd.h"

#include "LitlRun/ProgramOptions.h"

#include <memory>

using namespace Litl;

namespace {

enum Kind { Positional, Named, Flag, PositionalMany };
enum Type { Int, Double, String };

struct Option {
  std::string name;
  char shortName = 0;
  Kind kind;
  Type type;
  bool hasDefault;
  std::string defaultValue;
  std::string description;

  std::string declared() const {
    return shortName ? name + "," + shortName : name;
  }
};

std::string value(pbt::Gen& g, Type t, bool spaces) {
  switch (t) {
    case Int:
      return std::to_string(g.i(0, g.coin() ? 9 : 2147483647));
    case Double:
      return std::to_string(g.i(0, 999)) + "." + std::to_string(g.i(0, 9)) + "5";
    default: {
      static const char* words[] = {"a", "image.fits", "x=1", "7", "name-2", "/tmp/a_b", "a,b", "t", "true", "0"};
      std::string out = words[g.draw(9)];
      if (spaces) { // Any argument which does not look like an option
        switch (g.draw(11)) {
          case 0:
          case 1:
          case 2:
            out += " and more";
            break;
          case 3:
            out = "\xc3\xa9t\xc3\xa9\n\"quoted\" 'text' \\";
            break;
          case 4:
            out = std::string(g.count(100, 3000), 'z');
            break;
          case 5:
            out = " padded\t";
            break;
          default:
            break;
        }
      }
      return out;
    }
  }
}

void declare(ProgramOptions& po, const Option& o, bool custom) {
  const auto name = o.declared();
  const auto n = name.c_str();
  const auto d = o.description.c_str();
  namespace bpo = boost::program_options;
  switch (o.kind) {
    case Flag:
      po.flag(n, d);
      break;
    case PositionalMany:
      po.positional(n, bpo::value<std::vector<std::string>>()->multitoken(), d);
      break;
    case Positional:
      switch (o.type) {
        case Int:
          o.hasDefault ? po.positional(n, d, std::stoi(o.defaultValue)) :
              custom   ? po.positional(n, bpo::value<int>(), d) :
                         po.positional<int>(n, d);
          break;
        case Double:
          o.hasDefault ? po.positional<double>(n, d, std::stod(o.defaultValue)) : po.positional<double>(n, d);
          break;
        default:
          o.hasDefault ? po.positional(n, d, o.defaultValue) : po.positional<std::string>(n, d);
      }
      break;
    default:
      switch (o.type) {
        case Int:
          o.hasDefault ? po.named(n, d, std::stoi(o.defaultValue)) :
              custom   ? po.named(n, bpo::value<int>(), d) :
                         po.named<int>(n, d);
          break;
        case Double:
          o.hasDefault ? po.named<double>(n, d, std::stod(o.defaultValue)) : po.named<double>(n, d);
          break;
        default:
          o.hasDefault ? po.named(n, d, o.defaultValue) : po.named<std::string>(n, d);
      }
  }
}

/// Option name -> values as strings; absent if not set
using Values = std::map<std::string, std::vector<std::string>>;

template <typename F>
bool throws(F&& f) {
  try {
    f();
    return false;
  } catch (const std::exception&) {
    return true;
  }
}

void verify(const ProgramOptions& po, const std::vector<Option>& options, const Values& values) {
  for (const auto& o : options) {
    const auto it = values.find(o.name);
    const bool set = it != values.end() || o.hasDefault || o.kind == Flag;
    const auto n = o.name.c_str();
    REQUIRE_EQ(po.has(n), set, "has(" << o.name << ")");
    if (o.kind == Flag) {
      REQUIRE_EQ(po.as<bool>(n), it != values.end(), "value of flag " << o.name);
      continue;
    }
    if (!set) {
      REQUIRE(throws([&] { po.as<int>(n); }) && throws([&] { po.as<std::string>(n); }), "as() returns a value for unset option " << o.name);
      continue;
    }
    if (o.kind == PositionalMany) {
      REQUIRE(po.as<std::vector<std::string>>(n) == it->second, "value of " << o.name);
      continue;
    }
    const auto expected = it == values.end() ? o.defaultValue : it->second[0];
    switch (o.type) {
      case Int:
        REQUIRE_EQ(po.as<int>(n), std::stoi(expected), "value of " << o.name);
        REQUIRE(throws([&] { po.as<std::string>(n); }), "value of " << o.name << " is returned with the wrong type");
        break;
      case Double:
        REQUIRE_EQ(po.as<double>(n), std::stod(expected), "value of " << o.name);
        break;
      default:
        REQUIRE_EQ(po.as<std::string>(n), expected, "value of " << o.name);
        REQUIRE(throws([&] { po.as<int>(n); }), "value of " << o.name << " is returned with the wrong type");
    }
  }
  REQUIRE(!po.has("undeclared"), "undeclared option is set");
}

void parse(ProgramOptions& po, const std::vector<std::string>& args, int way, int blank = 0) {
  std::vector<const char*> c;
  for (const auto& a : args) {
    c.push_back(a.c_str());
  }
  switch (way) {
    case 0:
      po.parse(args);
      break;
    case 1:
      po.parse(c);
      break;
    case 2: {
      c.push_back(nullptr); // As for main()
      po.parse(static_cast<int>(args.size()), c.data());
      break;
    }
    default: {
      static const char* blanks[] = {" ", "\t", "  ", "\n", " \n", "\r\n", "\v", "\n\n"};
      std::string s = blank % 3 == 2 ? " " : "";
      for (std::size_t i = 0; i < args.size(); ++i) {
        s += (i ? blanks[(i + blank) % 8] : "") + args[i];
      }
      if (blank % 2) {
        s += blanks[blank % 8];
      }
      po.parse(s);
    }
  }
}

/// Make a random set of options.
std::vector<Option> genOptions(pbt::Gen& g) {
  static const char* names[] = {"input", "output", "named", "named-short", "named-default", "size", "sigma", "flag", "verbose", "kernel", "k-index", "x2"};
  static const char shorts[] = {'i', 'o', 'n', 's', 'd', 'S', 'g', 'f', 'v', 'k', '2', 'x'};
  const auto count = g.size(1, 8);
  const auto first = g.draw(11);
  std::vector<Option> out;
  bool many = false;
  for (long k = 0; k < count; ++k) {
    Option o;
    const auto id = (first + 5 * k) % 12;
    o.name = names[id];
    o.kind = static_cast<Kind>(g.draw(g.chance(1, 3) ? 3 : 2));
    if ((o.kind == Positional || o.kind == PositionalMany) && many) {
      o.kind = Named;
    }
    many |= o.kind == PositionalMany;
    o.type = static_cast<Type>(g.draw(2));
    o.hasDefault = (o.kind == Positional || o.kind == Named) && g.coin();
    o.defaultValue = o.hasDefault ? value(g, o.type, false) : "";
    o.description = "Description of " + o.name + ".";
    o.shortName = o.kind == PositionalMany || o.kind == Positional || g.coin() ? 0 : shorts[id];
    out.push_back(o);
  }
  return out;
}

/// A valid command line (without program name), and the corresponding values.
std::vector<std::string> genLine(pbt::Gen& g, const std::vector<Option>& options, bool spaces, Values& values, bool once) {
  std::vector<std::vector<std::string>> named;
  std::vector<std::string> positional;
  bool open = true;
  for (const auto& o : options) {
    const auto v = value(g, o.type, spaces);
    switch (o.kind) {
      case Flag:
        if (g.coin() && !(once && values.count(o.name))) {
          values[o.name] = {"1"};
          named.push_back({o.shortName && g.coin() ? std::string("-") + o.shortName : "--" + o.name});
        }
        break;
      case Named:
        if (g.coin() && !(once && values.count(o.name))) {
          if (g.chance(1, 6)) { // Values which look like options
            values[o.name] = {o.type == Int ? "-" + v : o.type == Double ? "-" + v : "--" + v};
            named.push_back({"--" + o.name + "=" + values[o.name][0]});
            break;
          }
          if (spaces && o.type == String && g.chance(1, 8)) {
            values[o.name] = {""};
            named.push_back({"--" + o.name, ""});
            break;
          }
          values[o.name] = {v};
          switch (g.draw(o.shortName ? 3 : 1)) {
            case 0:
              named.push_back({"--" + o.name, v});
              break;
            case 1:
              named.push_back({"--" + o.name + "=" + v});
              break;
            case 2:
              named.push_back({std::string("-") + o.shortName, v});
              break;
            default:
              named.push_back({std::string("-") + o.shortName + v});
          }
        }
        break;
      case Positional:
        open &= g.chance(3, 4) && !(once && !values.empty());
        if (open) {
          values[o.name] = {v};
          positional.push_back(v);
        }
        break;
      default:
        if (open && !(once && !values.empty())) {
          const auto n = g.count(0, 4);
          for (long i = 0; i < n; ++i) {
            const auto w = value(g, String, spaces);
            values[o.name].push_back(w);
            positional.push_back(w);
          }
        }
    }
  }
  // Shuffle the named options, and insert the positional ones anywhere in the right order
  std::vector<std::string> out;
  std::size_t p = 0;
  while (!named.empty() || p < positional.size()) {
    if (p < positional.size() && (named.empty() || g.coin())) {
      out.push_back(positional[p++]);
    } else {
      const auto i = g.draw(named.size() - 1);
      out.insert(out.end(), named[i].begin(), named[i].end());
      named.erase(named.begin() + i);
    }
  }
  return out;
}

std::string join(const std::vector<std::string>& args) {
  std::string out;
  for (const auto& a : args) {
    out += " [" + a + "]";
  }
  return out;
}

void note(pbt::Gen& g, const std::vector<Option>& options) {
  for (const auto& o : options) {
    NOTE((o.kind == Positional ? "positional " : o.kind == Named ? "named " : o.kind == Flag ? "flag " : "positionals ")
         << o.declared() << ":" << (o.kind == Flag ? "bool" : o.type == Int ? "int" : o.type == Double ? "double" : "string")
         << (o.hasDefault ? "=" + o.defaultValue : "") << "; ");
  }
}

} // namespace

/// Valid command lines.
PBT_LAW(C25, valid, 3) {
  const auto options = genOptions(g);
  const bool spaces = g.coin();
  note(g, options);
  auto po = std::make_unique<ProgramOptions>(g.coin() ? "Description." : "");
  // The object may be copied before or after the declarations, its copies being independent.
  const auto copyAt = g.chance(1, 3) ? g.draw(options.size()) : 1000;
  std::unique_ptr<ProgramOptions> other;
  for (std::size_t i = 0; i <= options.size(); ++i) {
    if (i == copyAt) {
      NOTE("copy at " << i << "; ");
      auto copy = std::make_unique<ProgramOptions>(*po);
      if (g.coin()) {
        other = std::move(po);
        other->flag("undeclared", "Option of another object");
      }
      po = std::move(copy);
    }
    if (i < options.size()) {
      declare(*po, options[i], g.coin());
    }
  }
  Values values;
  auto line = genLine(g, options, spaces, values, false);
  line.insert(line.begin(), g.coin() ? "exe" : "--program"); // Whatever its name, the program is skipped
  const int way = g.draw(spaces ? 2 : 3);
  NOTE("line:" << join(line) << " way=" << way);
  g.nontrivial(values.size() > 1);
  g.label(values.size() > 2 ? "several options" : values.empty() ? "no option" : "few options");
  parse(*po, line, way, g.draw(30));
  verify(*po, options, values);
  if (g.chance(1, 4)) { // Later lines may bring the missing options
    auto more = genLine(g, options, false, values, true);
    more.insert(more.begin(), "exe");
    NOTE(" then" << join(more));
    parse(*po, more, g.draw(3));
    verify(*po, options, values);
  }
}

/// Descriptions.
PBT_LAW(C25, description, .5) {
  const auto options = genOptions(g);
  note(g, options);
  const std::string description = g.coin() ? "Some description of the program." : "";
  ProgramOptions po(description);
  for (const auto& o : options) {
    declare(po, o, false);
  }
  const auto pair = po.asPair();
  std::ostringstream oss;
  oss << pair.first;
  const auto text = oss.str();
  REQUIRE(text.find(description) == 0 && text.find("Options:") != std::string::npos, "description of the program");
  REQUIRE_EQ(text.find("Options:") == 0, description.empty(), "the description starts with that of the options");
  REQUIRE_EQ(pair.first.options().size(), options.size(), "number of options");
  std::size_t p = 0;
  bool many = false;
  for (const auto& o : options) {
    REQUIRE(text.find("--" + o.name) != std::string::npos, "name of " << o.name << " in " << text);
    REQUIRE(text.find(o.description) != std::string::npos, "description of " << o.name << " in " << text);
    REQUIRE(!o.shortName || text.find(std::string("-") + o.shortName + " [ --" + o.name + " ]") != std::string::npos, "short form of " << o.name << " in " << text);
    const auto* d = pair.first.find_nothrow(o.name, false);
    REQUIRE(d && d->description() == o.description, "option " << o.name << " is not described");
    if (o.kind == Positional || o.kind == PositionalMany) {
      REQUIRE_EQ(pair.second.name_for_position(p), o.name, "positional option " << p);
      ++p;
      many |= o.kind == PositionalMany;
    }
  }
  REQUIRE_EQ(pair.second.max_total_count(), many ? ~0u : static_cast<unsigned>(p), "number of positional options");
  g.nontrivial(options.size() > 1);
}

/// Invalid command lines are refused.
PBT_LAW(C25, invalid, 1) {
  const auto options = genOptions(g);
  note(g, options);
  ProgramOptions po;
  bool many = false;
  std::size_t positionals = 0;
  for (const auto& o : options) {
    declare(po, o, false);
    many |= o.kind == PositionalMany;
    positionals += o.kind == Positional;
  }
  Values values;
  std::vector<std::string> line {"exe"};
  const auto& o = options[g.draw(options.size() - 1)];
  switch (g.draw(4)) {
    case 0:
      line.push_back(g.coin() ? "--zzz" : "-z");
      if (g.coin()) {
        line.push_back("1");
      }
      break;
    case 1: // Too many positional arguments
      if (many) {
        line.push_back("--zzz=1");
      }
      for (std::size_t i = 0; i <= positionals; ++i) {
        line.push_back("1");
      }
      break;
    case 2: // Missing value
      line.push_back(o.kind == Flag ? "--zzz" : "--" + o.name);
      break;
    case 3: // Bad value
      line.push_back(o.kind == Flag || o.kind == PositionalMany || o.type == String ? "--zzz" : "--" + o.name + "=" + (g.coin() ? "abc" : "1x"));
      break;
    default: // Repeated
      line.push_back(o.kind == PositionalMany ? "--zzz" : "--" + o.name + "=1");
      line.push_back(o.kind == PositionalMany ? "--zzz" : "--" + o.name + "=1");
  }
  const int way = g.draw(3);
  NOTE("line:" << join(line) << " way=" << way);
  g.nontrivial();
  REQUIRE(throws([&] { parse(po, line, way); }), "an invalid command line is accepted");
}

/// The number of tokens of positional options is that of their value.
PBT_LAW(C25, tokens, .3) {
  namespace bpo = boost::program_options;
  const bool first = g.coin(), many = g.coin();
  const auto count = g.count(0, 12);
  std::vector<std::string> values;
  for (long i = 0; i < count; ++i) {
    values.push_back(value(g, String, false));
  }
  NOTE((first ? "one, then " : "") << (many ? "many" : "vector of one") << " values" << join(values));
  g.nontrivial(count > 1);
  ProgramOptions po;
  if (first) {
    po.positional<std::string>("first", "First");
  }
  auto* semantics = bpo::value<std::vector<std::string>>();
  po.positional("values", many ? semantics->multitoken() : semantics, "Values");
  auto line = values;
  line.insert(line.begin(), "exe");
  const int way = g.draw(3);
  const long max = first + (many ? 1000000 : 1);
  if (count > max) {
    REQUIRE(throws([&] { parse(po, line, way); }), "too many positional arguments are accepted");
    return;
  }
  parse(po, line, way);
  if (first) {
    REQUIRE_EQ(po.has("first"), count > 0, "has(first)");
    if (count > 0) {
      REQUIRE_EQ(po.as<std::string>("first"), values[0], "first");
      values.erase(values.begin());
    }
  }
  REQUIRE_EQ(po.has("values"), not values.empty(), "has(values)");
  if (not values.empty()) {
    REQUIRE(po.as<std::vector<std::string>>("values") == values, "values");
  }
}

/// Whatever the line, the semantics of the values are applied: required options, implicit values, notifications...
PBT_LAW(C25, semantics, .5) {
  namespace bpo = boost::program_options;
  const bool positional = g.coin(), given = g.coin(), other = g.coin();
  const int way = g.draw(3);
  std::vector<std::string> line {"exe"};
  const auto v = static_cast<int>(g.i(0, 1000));
  long notified = 0;
  int stored = -1, last = -1;
  const auto kind = g.draw(4);
  NOTE("kind=" << kind << " positional=" << positional << " given=" << given << " other=" << other << " way=" << way << " v=" << v);
  auto* semantics = bpo::value<int>(&stored);
  semantics->notifier([&](int n) {
    ++notified;
    last = n;
  });
  switch (kind) {
    case 0:
      semantics->required();
      break;
    case 1:
      semantics->default_value(42);
      break;
    case 2:
      semantics->implicit_value(43);
      break;
    case 3:
      semantics->value_name("number");
      break;
    default:
      break;
  }
  g.nontrivial(kind < 3);
  ProgramOptions po;
  po.flag("other", "Other");
  positional ? po.positional("value", semantics, "Value") : po.named("value,v", semantics, "Value");
  if (other) {
    line.push_back("--other");
  }
  int expected = v;
  bool has = given || kind == 1;
  if (given) {
    if (kind == 2 && g.coin()) {
      line.push_back("--value");
      expected = 43;
    } else {
      line.push_back((positional && kind != 2 && g.coin() ? "" : "--value=") + std::to_string(v));
    }
  } else {
    expected = 42;
  }
  NOTE("line:" << join(line));
  if (kind == 0 && !given) {
    REQUIRE(throws([&] { parse(po, line, way); }), "the line without a required option is accepted");
    return;
  }
  parse(po, line, way);
  REQUIRE_EQ(po.has("value"), has, "has(value)");
  REQUIRE_EQ(po.as<bool>("other"), other, "other");
  REQUIRE_EQ(notified, has ? 1 : 0, "number of notifications");
  if (has) {
    REQUIRE_EQ(po.as<int>("value"), expected, "value");
    REQUIRE_EQ(stored, expected, "stored value");
    REQUIRE_EQ(last, expected, "notified value");
  }
}
