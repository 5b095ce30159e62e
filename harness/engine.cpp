// Driver of the property-based tests: scheduling, forked workers, confirmation, shrinking, replay, reporting.
#include "pbt.h"

#include <cstdlib>
#include <chrono>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __tsan_default_options() {
  return "exitcode=86:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0";
}
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=1024:"
         "hard_rss_limit_mb=3000:handle_segv=1:detect_stack_use_after_return=0:print_legend=0:print_summary=1:"
         "quarantine_size_mb=16:malloc_context_size=6";
}
extern "C" const char* __ubsan_default_options() {
  return "exitcode=86:print_stacktrace=1:halt_on_error=1";
}

namespace pbt {

std::vector<Law>& laws() {
  static std::vector<Law> instance;
  return instance;
}

std::ostringstream& failBuffer() {
  static std::ostringstream instance;
  return instance;
}

std::ostream& failStream() {
  auto& o = failBuffer();
  o.str("");
  o.clear();
  o.precision(17);
  return o;
}

void raise(const char* cond) {
  auto s = failBuffer().str();
  if (cond) {
    s += std::string(" [") + cond + "]";
  }
  throw Failure {s};
}

using Tape = std::vector<std::uint64_t>;

namespace {

struct Slot {
  volatile std::uint64_t cases;
  volatile std::uint64_t law;
  volatile std::uint64_t count;
  volatile int failed;
  volatile int nontrivial;
  char message[8192];
  char text[16384];
  std::uint64_t tape[maxTape];
};

constexpr int exitFailure = 77;
double cpuLimit = 25;

Slot* newSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Slot*>(p);
}

void store(char* dst, std::size_t n, const std::string& s) {
  std::strncpy(dst, s.c_str(), n - 1);
  dst[n - 1] = 0;
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

double cpuOf(pid_t pid) {
  clockid_t id;
  if (clock_getcpuclockid(pid, &id) != 0) {
    return 0;
  }
  timespec t;
  if (clock_gettime(id, &t) != 0) {
    return 0;
  }
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

/// Run one case; returns false and fills the slot if the oracle fails.
bool runCase(const Law& law, Gen& g, Slot* slot) {
  try {
    law.run(g);
  } catch (const Failure& f) {
    store(slot->message, sizeof(slot->message), "oracle: " + f.what);
    slot->failed = 1;
  } catch (const Overflow&) {
    return true;
  } catch (const std::exception& e) {
    store(slot->message, sizeof(slot->message), std::string("unexpected exception: ") + e.what());
    slot->failed = 1;
  } catch (...) {
    store(slot->message, sizeof(slot->message), "unexpected exception of unknown type");
    slot->failed = 1;
  }
  slot->nontrivial = g.isNontrivial();
  if (g.verbose) {
    store(slot->text, sizeof(slot->text), g.text.str());
  }
  return !slot->failed;
}

void redirect(int fd, const std::string& path) {
  const int f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (f >= 0) {
    dup2(f, fd);
    close(f);
  }
}

struct Outcome {
  bool failed;
  bool hang;
  bool nontrivial;
  std::string message;
  std::string text;
  Tape tape;
};

std::string scratch;

/// Replay a tape in a child.
Outcome replay(const Law& law, const Tape& tape, Slot* slot, double cpu, bool verbose, const std::string& err) {
  slot->failed = 0;
  slot->nontrivial = 0;
  slot->count = 0;
  slot->message[0] = 0;
  slot->text[0] = 0;
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    redirect(1, "/dev/null");
    redirect(2, err);
    rlimit rl {static_cast<rlim_t>(cpu), static_cast<rlim_t>(cpu) + 2};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    Gen g(tape, slot->tape, &slot->count);
    g.verbose = verbose;
    if (verbose) {
      g.live = slot->text;
      g.liveSize = sizeof(slot->text);
    }
    const bool ok = runCase(law, g, slot);
    _exit(ok ? 0 : exitFailure);
  }
  int status = 0;
  const double start = now();
  bool wallHang = false;
  for (unsigned n = 0;; ++n) {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (now() - start > 10 * cpu + 60) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      wallHang = true;
      break;
    }
    usleep(n < 100 ? 200 : 5000);
  }
  Outcome out {};
  out.hang = wallHang || (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU));
  out.failed = out.hang || !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
  out.nontrivial = slot->nontrivial;
  out.text = slot->text;
  out.tape.assign(slot->tape, slot->tape + slot->count);
  if (out.failed) {
    std::ostringstream m;
    if (slot->failed) {
      m << slot->message;
    } else if (out.hang) {
      m << "does not terminate: the case used more than " << cpu << " s of CPU time";
    } else if (WIFSIGNALED(status)) {
      m << "crash: killed by signal " << WTERMSIG(status);
    } else {
      m << "crash: exit status " << WEXITSTATUS(status);
    }
    if (!slot->failed && err != "/dev/null") {
      std::ifstream f(err);
      std::string line;
      for (int n = 0; n < 30 && std::getline(f, line); ++n) {
        m << "\n  " << line;
      }
    }
    out.message = m.str();
  }
  return out;
}

bool smaller(const Tape& a, const Tape& b) {
  return a.size() != b.size() ? a.size() < b.size() : a < b;
}

Tape shrink(const Law& law, Tape best, Slot* slot, bool hang, double seconds, std::uint64_t& tries) {
  const double end = now() + seconds;
  const double cpu = hang ? 4 : cpuLimit;
  std::uint64_t maxTries = hang ? 25 : 4000;
  auto attempt = [&](const Tape& candidate) {
    if (now() > end || tries >= maxTries) {
      return false;
    }
    ++tries;
    const auto o = replay(law, candidate, slot, cpu, false, "/dev/null");
    if (o.failed && smaller(o.tape, best)) {
      best = o.tape;
      return true;
    }
    if (o.failed && smaller(candidate, best)) {
      best = candidate;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end && tries < maxTries) {
    progress = false;
    for (std::size_t chunk = std::max<std::size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
      for (std::size_t i = best.size(); i-- > 0;) {
        if (i + chunk > best.size()) {
          continue;
        }
        Tape c = best;
        c.erase(c.begin() + i, c.begin() + i + chunk);
        progress |= attempt(c);
        if (now() > end || tries >= maxTries) {
          return best;
        }
      }
      if (chunk == 1) {
        break;
      }
    }
    for (std::size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) {
        continue;
      }
      Tape c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      std::uint64_t lo = 0;
      while (i < best.size() && best[i] - lo > 1 && now() < end && tries < maxTries) {
        const std::uint64_t mid = lo + (best[i] - lo) / 2;
        c = best;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
        } else {
          lo = mid;
        }
      }
      // deletion combined with a decrement (list lengths)
      if (i < best.size() && best[i] > 0) {
        for (std::size_t j = i + 1; j < best.size() && j < i + 12; ++j) {
          c = best;
          --c[i];
          c.erase(c.begin() + j);
          if (attempt(c)) {
            progress = true;
            break;
          }
        }
      }
    }
  }
  return best;
}

std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      std::snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

struct WorkerArgs {
  std::uint64_t seed;
  int index;
  double budget;
  std::uint64_t minCases;
  std::vector<const Law*> active;
};

void worker(const WorkerArgs& args, Slot* slot, const std::string& path) {
  const std::size_t n = args.active.size();
  std::vector<double> spent(n, 0);
  std::vector<std::uint64_t> count(n, 0), nontrivial(n, 0);
  std::vector<std::uint64_t> hashes;
  std::vector<std::map<std::string, std::uint64_t>> labels(n);
  std::vector<std::vector<std::string>> samples(n);
  const double start = now();
  const double slow = std::getenv("VERIF_SLOW") ? std::atof(std::getenv("VERIF_SLOW")) : 0; // Development only
  while (true) {
    std::size_t l = 0;
    double lowest = std::numeric_limits<double>::infinity();
    for (std::size_t i = 0; i < n; ++i) {
      const double w = spent[i] / args.active[i]->weight;
      if (w < lowest) {
        lowest = w;
        l = i;
      }
    }
    const double t = now();
    if (t - start > args.budget) {
      const bool enough =
          std::all_of(count.begin(), count.end(), [&](std::uint64_t c) {
            return c >= args.minCases;
          });
      if (enough || t - start > 6 * args.budget) {
        break;
      }
      // serve the laws which did not reach their minimum yet
      for (std::size_t i = 0; i < n; ++i) {
        if (count[i] < args.minCases) {
          l = i;
        }
      }
    }
    const auto& law = *args.active[l];
    int batch = 0;
    do {
      std::uint64_t s = mix(args.seed);
      for (char c : law.name) {
        s = mix(s ^ static_cast<unsigned char>(c));
      }
      s = mix(s ^ static_cast<std::uint64_t>(args.index));
      s = mix(s ^ count[l]);
      slot->law = &law - laws().data();
      slot->failed = 0;
      slot->nontrivial = 0;
      slot->cases = slot->cases + 1;
      Gen g(s, slot->tape, &slot->count);
      g.labels = &labels[l];
      g.verbose = samples[l].size() < 1 && count[l] >= 3 + 5 * static_cast<unsigned>(args.index);
      const double before = slow > 0 ? now() : 0;
      if (!runCase(law, g, slot)) {
        _exit(exitFailure);
      }
      if (slow > 0 && now() - before > slow) {
        std::ofstream("/tmp/verif-slow.txt", std::ios::app) << law.property << " " << law.name << " " << now() - before << "\n";
      }
      if (g.isNontrivial()) {
        ++nontrivial[l];
        if (hashes.size() < 600000) {
          std::uint64_t h = mix(l + 1);
          for (std::uint64_t i = 0; i < slot->count; ++i) {
            h = mix(h ^ slot->tape[i]);
          }
          hashes.push_back(h);
        }
        if (g.verbose) {
          samples[l].push_back(g.text.str());
        }
      }
      ++count[l];
      ++batch;
    } while (batch < 50 && now() - t < 0.02);
    spent[l] += now() - t;
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  {
    std::ofstream f(path + ".hash", std::ios::binary);
    f.write(reinterpret_cast<const char*>(hashes.data()), hashes.size() * sizeof(hashes[0]));
  }
  std::ofstream f(path + ".txt");
  for (std::size_t i = 0; i < n; ++i) {
    f << "C " << i << " " << count[i] << " " << nontrivial[i] << "\n";
    for (const auto& kv : labels[i]) {
      f << "L " << i << " " << kv.second << " " << kv.first << "\n";
    }
    for (auto s : samples[i]) {
      std::replace(s.begin(), s.end(), '\n', ' ');
      f << "S " << i << " " << s.substr(0, 600) << "\n";
    }
  }
  f << "E\n";
  f.close();
  _exit(0);
}

const Law* findLaw(const std::string& property, const std::string& name) {
  for (const auto& l : laws()) {
    if (l.property == property && l.name == name) {
      return &l;
    }
  }
  return nullptr;
}

/// Replay 3 times: the failure must reproduce each time.
bool confirm(const Law& law, const Tape& tape, Slot* slot, Outcome& last) {
  for (int n = 0; n < 3; ++n) {
    last = replay(law, tape, slot, cpuLimit, true, scratch + "/stderr");
    if (!last.failed) {
      return false;
    }
  }
  return true;
}

} // namespace

int drive(int argc, char** argv) {
  std::map<std::string, std::string> opt;
  std::vector<std::string> rest;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0 && i + 1 < argc) {
      opt[a.substr(2)] = argv[++i];
    } else {
      rest.push_back(a);
    }
  }
  auto get = [&](const std::string& k, const std::string& d) {
    return opt.count(k) ? opt[k] : d;
  };
  const auto property = get("property", "");
  scratch = get("scratch", "/tmp");
  auto* slot = newSlot();

  if (opt.count("list")) {
    for (const auto& l : laws()) {
      std::cout << l.property << " " << l.name << "\n";
    }
    return 0;
  }

  if (opt.count("replay")) {
    // replay file: "property: P", "law: L", "tape: ..."
    std::ifstream f(opt["replay"]);
    std::string line, p, lawName;
    Tape tape;
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string k;
      s >> k;
      if (k == "property:") {
        s >> p;
      } else if (k == "law:") {
        s >> lawName;
      } else if (k == "tape:") {
        std::uint64_t v;
        while (s >> v) {
          tape.push_back(v);
        }
      }
    }
    const auto* law = findLaw(p, lawName);
    if (!law) {
      std::cerr << "no such law: " << p << " " << lawName << "\n";
      return 2;
    }
    Outcome o {};
    const bool failed = confirm(*law, tape, slot, o);
    std::cout << "case: " << o.text << "\n";
    if (failed) {
      std::cout << "failure: " << o.message << "\n";
      return 1;
    }
    std::cout << "holds\n";
    return 0;
  }

  // exploration
  WorkerArgs args {};
  args.seed = std::strtoull(get("seed", "1").c_str(), nullptr, 10);
  args.budget = std::atof(get("budget", "12").c_str());
  args.minCases = std::strtoull(get("min", "50").c_str(), nullptr, 10);
  const int jobs = std::atoi(get("jobs", "8").c_str());
  const auto only = get("law", "");
  for (const auto& l : laws()) {
    if ((property.empty() || l.property == property) && (only.empty() ? l.weight > 0 : l.name == only)) {
      args.active.push_back(&l);
    }
  }
  if (args.active.empty()) {
    std::cerr << "no law for property " << property << "\n";
    return 2;
  }
  const double start = now();
  std::vector<Slot*> slots;
  std::vector<pid_t> pids;
  std::vector<std::string> paths;
  for (int j = 0; j < jobs; ++j) {
    slots.push_back(newSlot());
    paths.push_back(scratch + "/worker" + std::to_string(j));
    args.index = j;
    std::cout.flush();
    const pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      return 2;
    }
    if (pid == 0) {
      redirect(1, "/dev/null");
      redirect(2, paths.back() + ".err");
      rlimit core {0, 0};
      setrlimit(RLIMIT_CORE, &core);
      worker(args, slots.back(), paths.back());
      _exit(3);
    }
    pids.push_back(pid);
  }

  std::vector<bool> done(jobs, false);
  std::vector<std::uint64_t> seen(jobs, 0);
  std::vector<double> cpuAt(jobs, 0), wallAt(jobs, start);
  int failedWorker = -1;
  bool hang = false;
  int remaining = jobs;
  while (remaining > 0 && failedWorker < 0) {
    usleep(20000);
    for (int j = 0; j < jobs && failedWorker < 0; ++j) {
      if (done[j]) {
        continue;
      }
      int status = 0;
      const pid_t r = waitpid(pids[j], &status, WNOHANG);
      if (r == pids[j]) {
        done[j] = true;
        --remaining;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
          failedWorker = j;
        }
        continue;
      }
      const auto c = slots[j]->cases;
      const double t = now();
      const double cpu = cpuOf(pids[j]);
      if (c != seen[j] || c == 0) {
        seen[j] = c;
        cpuAt[j] = cpu;
        wallAt[j] = t;
      } else if (cpu - cpuAt[j] > cpuLimit || t - wallAt[j] > 10 * cpuLimit + 60) {
        failedWorker = j;
        hang = true;
      }
    }
  }

  std::uint64_t evaluations = 0;
  for (auto* s : slots) {
    evaluations += s->cases;
  }

  int rc = 0;
  std::ostringstream result;
  result << "{";
  if (failedWorker >= 0) {
    for (int j = 0; j < jobs; ++j) {
      if (!done[j]) {
        kill(pids[j], SIGKILL);
        int status;
        waitpid(pids[j], &status, 0);
      }
    }
    auto* s = slots[failedWorker];
    const auto& law = laws()[s->law];
    Tape tape(s->tape, s->tape + s->count);
    Outcome o {};
    if (!confirm(law, tape, slot, o)) {
      // Not reproducible from its tape alone: the failure depends on the previous cases of the process or on addresses.
      std::ifstream err(paths[failedWorker] + ".err");
      std::ostringstream report;
      report << err.rdbuf();
      const std::string message = s->failed ? s->message : report.str().substr(0, 3000);
      const bool real = s->failed ?
          message.compare(0, 7, "oracle:") == 0 :
          message.find("Sanitizer") != std::string::npos && message.find("out of memory") == std::string::npos &&
              message.find("allocation-size-too-big") == std::string::npos;
      if (real && !hang && get("reproducible", "") != "required") {
        const auto replayPath = get("replay-out", scratch + "/replay.txt");
        std::ofstream f(replayPath);
        f << "property: " << law.property << "\nlaw: " << law.name << "\nseed: " << args.seed << "\ntape:";
        for (auto v : tape) {
          f << " " << v;
        }
        f << "\ncase: " << o.text << "\nfailure: " << message
          << "\nnote: failed in a process which had run other cases before; the tape alone did not reproduce it\n";
        f.close();
        std::cout << "law: " << law.name << "\ncase: " << o.text
                  << "\nfailure (depends on the history of the process): " << message << "\n";
        std::cout << "FAILED property=" << law.property << " replay=" << replayPath << "\n";
        result << "\"failed\": true, \"law\": " << json(law.name) << ", \"message\": " << json(message)
               << ", \"case\": " << json(o.text) << ", ";
        rc = 1;
      } else {
        std::cerr << "not reproducible: property " << law.property << " law " << law.name << ": " << s->message << "\n";
        std::ifstream f(paths[failedWorker] + ".err");
        std::cerr << f.rdbuf() << "\n";
        std::cerr << "tape:";
        for (auto v : tape) {
          std::cerr << " " << v;
        }
        std::cerr << "\n";
        return 4;
      }
    } else {
      std::uint64_t tries = 0;
      const Tape best = shrink(law, tape, slot, hang || o.hang, 45, tries);
      Outcome final {};
      Tape chosen = best;
      if (!confirm(law, best, slot, final)) {
        chosen = tape;
        confirm(law, tape, slot, final);
      }
      const auto replayPath = get("replay-out", scratch + "/replay.txt");
      std::ofstream f(replayPath);
      f << "property: " << law.property << "\nlaw: " << law.name << "\nseed: " << args.seed << "\ntape:";
      for (auto v : chosen) {
        f << " " << v;
      }
      f << "\ncase: " << final.text << "\nfailure: " << final.message << "\nshrink-attempts: " << tries << "\n";
      f.close();
      std::cout << "law: " << law.name << "\ncase: " << final.text << "\nfailure: " << final.message << "\n";
      std::cout << "FAILED property=" << law.property << " replay=" << replayPath << "\n";
      result << "\"failed\": true, \"law\": " << json(law.name) << ", \"message\": " << json(final.message)
             << ", \"case\": " << json(final.text) << ", ";
      rc = 1;
    }
  }

  const std::size_t n = args.active.size();
  std::vector<std::uint64_t> count(n, 0), nontrivial(n, 0);
  std::vector<std::map<std::string, std::uint64_t>> labels(n);
  std::vector<std::vector<std::string>> samples(n);
  std::vector<std::uint64_t> hashes;
  for (const auto& p : paths) {
    std::ifstream f(p + ".txt");
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream ss(line);
      std::string k;
      std::size_t i;
      ss >> k;
      if (k == "C") {
        std::uint64_t a, b;
        ss >> i >> a >> b;
        count[i] += a;
        nontrivial[i] += b;
      } else if (k == "L") {
        std::uint64_t a;
        ss >> i >> a;
        std::string l;
        std::getline(ss, l);
        labels[i][l.substr(1)] += a;
      } else if (k == "S") {
        ss >> i;
        std::string l;
        std::getline(ss, l);
        if (samples[i].size() < 2) {
          samples[i].push_back(l.substr(1));
        }
      }
    }
    std::ifstream h(p + ".hash", std::ios::binary);
    std::vector<std::uint64_t> buffer(600000);
    h.read(reinterpret_cast<char*>(buffer.data()), buffer.size() * sizeof(buffer[0]));
    hashes.insert(hashes.end(), buffer.begin(), buffer.begin() + h.gcount() / sizeof(buffer[0]));
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  result << "\"evaluations\": " << evaluations << ", \"distinct_nontrivial\": " << hashes.size() << ", \"laws\": {";
  for (std::size_t i = 0; i < n; ++i) {
    result << (i ? ", " : "") << json(args.active[i]->name) << ": {\"evaluations\": " << count[i]
           << ", \"nontrivial\": " << nontrivial[i] << ", \"labels\": {";
    bool first = true;
    for (const auto& kv : labels[i]) {
      result << (first ? "" : ", ") << json(kv.first) << ": " << kv.second;
      first = false;
    }
    result << "}, \"samples\": [";
    first = true;
    for (const auto& s : samples[i]) {
      result << (first ? "" : ", ") << json(s);
      first = false;
    }
    result << "]}";
  }
  result << "}, \"wall_s\": " << now() - start << "}";
  std::ofstream(get("out", scratch + "/result.json")) << result.str() << "\n";
  return rc;
}

} // namespace pbt

int main(int argc, char** argv) {
  return pbt::drive(argc, argv);
}
