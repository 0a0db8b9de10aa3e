// Small property-based-testing engine used by every C++ check in /verif.
//
// A property is a function of a Case. Every random decision goes through the
// Case, which records it as a sequence of integer choices. A failing case is
// shrunk by editing that sequence (delete / zero / halve / decrement) and
// re-running the property in a forked child, so that crashes, aborts,
// sanitizer reports and runaway loops shrink exactly like failed assertions.
// The run is a pure function of (code under test, VERIF_SEED, tier).
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

struct Violation {
  std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

class Case {
 public:
  // generation mode
  explicit Case(uint64_t seed, double size) : replay_(false), size_(size) {
    uint64_t s = seed;
    for (auto &v : st_) v = splitmix(s);
  }
  // replay mode
  explicit Case(std::vector<uint64_t> choices, double size)
      : replay_(true), size_(size), choices_(std::move(choices)) {}

  uint64_t below(uint64_t n) {  // uniform integer in [0, n)
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < choices_.size() ? choices_[pos_] : 0;
      if (v >= n) v = v % n;
      pos_++;
    } else {
      v = next() % n;
      choices_.push_back(v);
      pos_++;
    }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive, lo is simplest
    return lo + static_cast<int64_t>(
                    below(static_cast<uint64_t>(hi - lo) + 1));
  }
  uint64_t bits53() { return below(1ull << 53); }
  double unit() { return static_cast<double>(bits53()) * 0x1p-53; }
  bool chance(double p) {  // false is simplest
    return unit() >= 1. - p;
  }
  bool flip() { return below(2) == 1; }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // uniform with extra weight on the end points and on "round" values
  double real(double lo, double hi) {
    switch (below(16)) {
      case 0:
        return lo;
      case 1:
        return hi;
      case 2:
        return lo + (hi - lo) * static_cast<double>(below(9)) / 8.;
      default:
        return uniform(lo, hi);
    }
  }
  // log-uniform, 0 < lo < hi
  double logreal(double lo, double hi) {
    return lo * std::exp(std::log(hi / lo) * unit());
  }
  // size of a collection; small sizes are common, large ones do occur
  size_t count(size_t lo, size_t hi) {
    if (hi <= lo) return lo;
    const double u = unit();
    const double f = below(3) == 0 ? u : u * u * u;
    return lo + static_cast<size_t>(f * static_cast<double>(hi - lo + 1));
  }
  template <typename C>
  const typename C::value_type &pick(const C &c) {
    auto it = c.begin();
    std::advance(it, below(c.size()));
    return *it;
  }
  template <typename T>
  T one_of(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  uint32_t seed32() { return static_cast<uint32_t>(below(1ull << 31)); }

  double size() const { return size_; }
  void label(const std::string &s) { labels_.insert(s); }
  void label(const std::string &s, bool b) {
    if (b) labels_.insert(s);
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  bool is_nontrivial() const { return nontrivial_; }
  std::ostringstream &note() { return note_; }
  std::string notes() const { return note_.str(); }
  const std::set<std::string> &labels() const { return labels_; }
  std::vector<uint64_t> used() const {
    auto r = choices_;
    if (r.size() > pos_) r.resize(pos_);
    return r;
  }
  void discard() { throw Discard{}; }
  // number of elementary oracle comparisons made (for the evidence)
  uint64_t comparisons = 0;

 private:
  uint64_t next() {  // xoshiro256**
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(st_[1] * 5, 7) * 9, t = st_[1] << 17;
    st_[2] ^= st_[0];
    st_[3] ^= st_[1];
    st_[1] ^= st_[2];
    st_[0] ^= st_[3];
    st_[2] ^= t;
    st_[3] = rotl(st_[3], 45);
    return r;
  }
  bool replay_;
  double size_;
  uint64_t st_[4] = {1, 2, 3, 4};
  std::vector<uint64_t> choices_;
  size_t pos_ = 0;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::ostringstream note_;
};

struct Fmt {
  std::ostringstream s;
  Fmt() { s << std::setprecision(17); }
  template <typename T>
  Fmt &operator<<(const T &t) {
    s << t;
    return *this;
  }
  operator std::string() const { return s.str(); }
};

[[noreturn]] inline void fail(const std::string &m) { throw Violation{m}; }

#define PBT_CHECK(c, cond, msg)                                       \
  do {                                                                \
    (c).comparisons++;                                                \
    if (!(cond))                                                      \
      ::pbt::fail(::pbt::Fmt() << #cond << " is false: " << msg); \
  } while (0)

inline bool close(double a, double b, double rel, double abs_) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
#define PBT_CLOSE(c, a, b, rel, abs_, msg)                                  \
  do {                                                                      \
    (c).comparisons++;                                                      \
    const double pa_ = (a), pb_ = (b);                                      \
    if (!::pbt::close(pa_, pb_, (rel), (abs_)))                             \
      ::pbt::fail(::pbt::Fmt() << #a << " = " << pa_ << " but " << #b       \
                               << " = " << pb_ << " (diff " << (pa_ - pb_)  \
                               << "): " << msg);                            \
  } while (0)

struct Prop {
  std::string name;
  uint64_t quick, thorough;
  std::function<void(Case &)> fn;
  double cpu_limit = 60.;  // seconds of CPU time for one case
  bool isolate = false;    // run every case in its own forked child
};

inline std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}
struct Reg {
  Reg(std::string n, uint64_t q, uint64_t t, std::function<void(Case &)> f,
      double cpu = 60., bool iso = false) {
    props().push_back({std::move(n), q, t, std::move(f), cpu, iso});
  }
};
#define PBT_PROP(name, quick, thorough)                        \
  static void prop_##name(::pbt::Case &c);                     \
  static ::pbt::Reg reg_##name(#name, quick, thorough, prop_##name); \
  static void prop_##name(::pbt::Case &c)
#define PBT_PROP_OPT(name, quick, thorough, cpu, iso)                        \
  static void prop_##name(::pbt::Case &c);                                   \
  static ::pbt::Reg reg_##name(#name, quick, thorough, prop_##name, cpu, iso); \
  static void prop_##name(::pbt::Case &c)

// Defined by the check: called once in the parent before any property runs.
void setup();
// Defined by the check: resets the global state of the tested code (the random
// engine, ...) at the top of every case. Must not draw from the case.
void reset_case(uint64_t case_hash);

namespace detail {

enum class Outcome { ok, discard, violation };
struct RunResult {
  Outcome out;
  std::string msg;
};

inline void set_cpu_alarm(double sec) {
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(sec);
  t.it_value.tv_usec =
      static_cast<suseconds_t>((sec - std::floor(sec)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline RunResult run_once(const Prop &p, Case &c) {
  reset_case(0);
  set_cpu_alarm(p.cpu_limit);
  RunResult r{Outcome::ok, ""};
  try {
    p.fn(c);
  } catch (const Violation &v) {
    r = {Outcome::violation, v.msg};
  } catch (const Discard &) {
    r = {Outcome::discard, ""};
  } catch (const std::exception &e) {
    r = {Outcome::violation,
         std::string("uncaught exception: ") + e.what()};
  } catch (...) {
    r = {Outcome::violation, "uncaught non-standard exception"};
  }
  set_cpu_alarm(0);
  return r;
}

inline std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

struct Slot {
  volatile uint64_t idx;
  volatile uint64_t running;
};

struct Failure {
  bool found = false;
  uint64_t idx = 0;
  unsigned worker = 0;
  std::string msg, notes;
  std::vector<uint64_t> choices;
  bool crash = false;
};

struct Stats {
  uint64_t cases = 0, discards = 0, nontrivial = 0, comparisons = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
};

inline void wr(std::ostream &o, const std::string &s) {
  uint64_t n = s.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  o.write(s.data(), static_cast<std::streamsize>(n));
}
inline void wr(std::ostream &o, uint64_t n) {
  o.write(reinterpret_cast<const char *>(&n), 8);
}
inline uint64_t rdu(std::istream &i) {
  uint64_t n = 0;
  i.read(reinterpret_cast<char *>(&n), 8);
  return i ? n : 0;
}
inline std::string rds(std::istream &i) {
  uint64_t n = rdu(i);
  std::string s(n, '\0');
  i.read(&s[0], static_cast<std::streamsize>(n));
  return s;
}

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  unsigned workers = 8;
  double scale = 1.;
  std::string work;  // scratch directory for worker result files
  bool verbose = false;
};

inline uint64_t case_seed(const Ctx &x, const Prop &p, uint64_t idx) {
  uint64_t h = fnv(p.name);
  h = fnv(&x.seed, 8, h);
  h = fnv(&idx, 8, h);
  return h;
}
inline double case_size(uint64_t idx, uint64_t n) {
  return n <= 1 ? 1. : static_cast<double>(idx) / static_cast<double>(n - 1);
}

inline std::string tail_of(const std::string &path, size_t max = 1500) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)),
                std::istreambuf_iterator<char>());
  // the first lines of a sanitizer report are the informative ones
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("Assertion");
  if (p != std::string::npos) {
    size_t b = s.rfind('\n', p);
    s = s.substr(b == std::string::npos ? 0 : b + 1);
    return s.substr(0, max);
  }
  return s.size() > max ? s.substr(s.size() - max) : s;
}

inline std::string &scratch_dir() {
  static std::string d;
  return d;
}

// Every process that runs cases works in a scratch directory of its own and
// under a memory limit, so that a runaway allocation is a failed case.
inline void enter_scratch(const std::string &dir) {
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str()) != 0) _exit(99);
  scratch_dir() = dir;
#if !defined(__SANITIZE_ADDRESS__)
  rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  rlimit nocore{0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
}

inline void redirect(const std::string &err) {
  int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    ::close(fd);
  }
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0) {
    dup2(nul, 1);
    ::close(nul);
  }
}

inline std::string signame(int status, const Prop &p) {
  if (WIFSIGNALED(status)) {
    const int s = WTERMSIG(status);
    if (s == SIGPROF)
      return Fmt() << "the case did not finish within " << p.cpu_limit
                   << " s of CPU time";
    return Fmt() << "the process was killed by signal " << s << " ("
                 << strsignal(s) << ")";
  }
  return Fmt() << "the process exited with status " << WEXITSTATUS(status);
}

// Runs one choice sequence in a forked child.
inline RunResult run_forked(const Ctx &x, const Prop &p,
                            const std::vector<uint64_t> &choices, double size,
                            std::vector<uint64_t> *used, std::string *notes) {
  const std::string out = x.work + "/one.bin", err = x.work + "/one.err";
  unlink(out.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect(err);
    enter_scratch(x.work + "/one.d");
    Case c(choices, size);
    RunResult r = run_once(p, c);
    std::ofstream o(out, std::ios::binary);
    wr(o, static_cast<uint64_t>(r.out));
    wr(o, r.msg);
    wr(o, c.notes());
    auto u = c.used();
    wr(o, u.size());
    for (auto v : u) wr(o, v);
    o.close();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (used) *used = choices;
    return {Outcome::violation, signame(st, p) + "\n" + tail_of(err)};
  }
  std::ifstream in(out, std::ios::binary);
  RunResult r;
  r.out = static_cast<Outcome>(rdu(in));
  r.msg = rds(in);
  std::string nt = rds(in);
  if (notes) *notes = nt;
  uint64_t n = rdu(in);
  std::vector<uint64_t> u(n);
  for (auto &v : u) v = rdu(in);
  if (used) *used = u;
  return r;
}

// Replays, in one process, the cases a worker ran before case idx and then idx
// itself (for failures that need state left behind by earlier cases).
inline RunResult run_prefix(const Ctx &x, const Prop &p, uint64_t n,
                            unsigned worker, unsigned nworkers, uint64_t idx) {
  const std::string out = x.work + "/pre.bin", err = x.work + "/pre.err";
  unlink(out.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect(err);
    enter_scratch(x.work + "/pre.d");
    RunResult r{Outcome::ok, ""};
    for (uint64_t i = worker; i <= idx; i += nworkers) {
      Case c(case_seed(x, p, i), case_size(i, n));
      r = run_once(p, c);
      if (r.out == Outcome::violation) break;
    }
    std::ofstream o(out, std::ios::binary);
    wr(o, static_cast<uint64_t>(r.out));
    wr(o, r.msg);
    o.close();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    return {Outcome::violation, signame(st, p) + "\n" + tail_of(err)};
  std::ifstream in(out, std::ios::binary);
  RunResult r;
  r.out = static_cast<Outcome>(rdu(in));
  r.msg = rds(in);
  return r;
}

inline void worker_main(const Ctx &x, const Prop &p, uint64_t n, unsigned w,
                        Slot *slot) {
  redirect(x.work + "/w" + std::to_string(w) + ".err");
  enter_scratch(x.work + "/w" + std::to_string(w) + ".d");
  Stats st;
  Failure f;
  std::set<uint64_t> seen;
  for (uint64_t i = w; i < n; i += x.workers) {
    slot->idx = i;
    slot->running = 1;
    Case c(case_seed(x, p, i), case_size(i, n));
    RunResult r;
    if (p.isolate) {
      // the child reports through a file; crashes are handled by the parent of
      // this worker because we re-raise them here
      const std::string out = x.work + "/iso" + std::to_string(w) + ".bin";
      unlink(out.c_str());
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        RunResult q = run_once(p, c);
        std::ofstream o(out, std::ios::binary);
        wr(o, static_cast<uint64_t>(q.out));
        wr(o, q.msg);
        wr(o, c.notes());
        wr(o, static_cast<uint64_t>(c.is_nontrivial()));
        wr(o, c.comparisons);
        wr(o, c.labels().size());
        for (auto &l : c.labels()) wr(o, l);
        auto u = c.used();
        wr(o, u.size());
        for (auto v : u) wr(o, v);
        o.close();
        _exit(0);
      }
      int s = 0;
      waitpid(pid, &s, 0);
      if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) {
        f.found = true;
        f.idx = i;
        f.worker = w;
        f.crash = true;
        f.msg = signame(s, p) + "\n" +
                tail_of(x.work + "/w" + std::to_string(w) + ".err");
        break;
      }
      std::ifstream in(out, std::ios::binary);
      r.out = static_cast<Outcome>(rdu(in));
      r.msg = rds(in);
      std::string notes = rds(in);
      const bool nt = rdu(in);
      st.comparisons += rdu(in);
      uint64_t nl = rdu(in);
      std::vector<std::string> labels(nl);
      for (auto &l : labels) l = rds(in);
      uint64_t nu = rdu(in);
      std::vector<uint64_t> u(nu);
      for (auto &v : u) v = rdu(in);
      st.cases++;
      if (r.out == Outcome::discard) {
        st.discards++;
      } else if (r.out == Outcome::violation) {
        f = {true, i, w, r.msg, notes, u, false};
        break;
      } else {
        for (auto &l : labels) st.labels[l]++;
        if (nt) {
          st.nontrivial++;
          uint64_t h = fnv(u.data(), u.size() * 8);
          if (seen.insert(h).second) st.hashes.push_back(h);
          if (st.samples.size() < 2 || (i % 64 == 0 && st.samples.size() < 4))
            st.samples.push_back(notes.substr(0, 600));
        }
      }
      continue;
    }
    r = run_once(p, c);
    st.cases++;
    st.comparisons += c.comparisons;
    if (r.out == Outcome::discard) {
      st.discards++;
    } else if (r.out == Outcome::violation) {
      f = {true, i, w, r.msg, c.notes(), c.used(), false};
      break;
    } else {
      for (auto &l : c.labels()) st.labels[l]++;
      if (c.is_nontrivial()) {
        st.nontrivial++;
        auto u = c.used();
        uint64_t h = fnv(u.data(), u.size() * 8);
        if (seen.insert(h).second) st.hashes.push_back(h);
        if (st.samples.size() < 2 || (i % 64 == 0 && st.samples.size() < 4))
          st.samples.push_back(c.notes().substr(0, 600));
      }
    }
  }
  slot->running = 0;
  std::ofstream o(x.work + "/w" + std::to_string(w) + ".bin",
                  std::ios::binary);
  wr(o, st.cases);
  wr(o, st.discards);
  wr(o, st.nontrivial);
  wr(o, st.comparisons);
  wr(o, st.labels.size());
  for (auto &l : st.labels) {
    wr(o, l.first);
    wr(o, l.second);
  }
  wr(o, st.hashes.size());
  for (auto h : st.hashes) wr(o, h);
  wr(o, st.samples.size());
  for (auto &s : st.samples) wr(o, s);
  wr(o, static_cast<uint64_t>(f.found));
  if (f.found) {
    wr(o, f.idx);
    wr(o, f.msg);
    wr(o, f.notes);
    wr(o, static_cast<uint64_t>(f.crash));
    wr(o, f.choices.size());
    for (auto v : f.choices) wr(o, v);
  }
  o.close();
  _exit(0);
}

inline std::string hexlist(const std::vector<uint64_t> &v) {
  std::ostringstream o;
  o << std::hex;
  for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i];
  return o.str();
}

inline void shrink(const Ctx &x, const Prop &p, double size,
                   std::vector<uint64_t> &best, std::string &msg,
                   std::string &notes) {
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int runs = 0;
  auto out_of_budget = [&] {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    return runs > 3000 || t1.tv_sec - t0.tv_sec > 45;
  };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (out_of_budget()) return false;
    runs++;
    std::vector<uint64_t> used;
    std::string nt;
    RunResult r = run_forked(x, p, cand, size, &used, &nt);
    if (r.out != Outcome::violation) return false;
    // accept only if simpler (shorter, or lexicographically smaller)
    if (used.size() > best.size() ||
        (used.size() == best.size() && !(used < best)))
      return false;
    best = used;
    msg = r.msg;
    notes = nt;
    return true;
  };
  bool progress = true;
  while (progress && !out_of_budget()) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && !out_of_budget();) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + static_cast<long>(i),
                c.begin() + static_cast<long>(i + k));
        if (attempt(c))
          progress = true;
        else
          i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = 8; k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && !out_of_budget(); i += k) {
        std::vector<uint64_t> c(best);
        bool any = false;
        for (size_t j = i; j < i + k; j++) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && !out_of_budget(); i++) {
      for (int s = 0; s < 60 && i < best.size() && best[i] > 0; s++) {
        std::vector<uint64_t> c(best);
        // keep doubles "round": clear low bits first, then halve
        uint64_t v = c[i];
        if (v > (1ull << 20) && (v & ((1ull << 44) - 1)))
          c[i] = v & ~((1ull << 44) - 1);
        else
          c[i] = v / 2;
        if (!attempt(c)) {
          c = best;
          c[i] = best[i] - 1;
          if (best[i] > 64 || !attempt(c)) break;
        }
        progress = true;
      }
    }
  }
}

}  // namespace detail

// what a harness may look at in its setup()
struct Options {
  uint64_t seed = 1;
  bool thorough = false;
};
inline Options &options() {
  static Options o;
  return o;
}

inline int main_impl(int argc, char **argv) {
  using namespace detail;
  Ctx x;
  std::string out, replay_out, replay, only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed")
      x.seed = std::stoull(val());
    else if (a == "--tier")
      x.thorough = val() == "thorough";
    else if (a == "--workers")
      x.workers = static_cast<unsigned>(std::stoul(val()));
    else if (a == "--work")
      x.work = val();
    else if (a == "--out")
      out = val();
    else if (a == "--replay-out")
      replay_out = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--only")
      only = val();
    else if (a == "--scale")
      x.scale = std::stod(val());
    else if (a == "--verbose")
      x.verbose = true;
  }
  if (x.work.empty()) {
    std::fprintf(stderr, "--work DIR is required\n");
    return 2;
  }
  signal(SIGPIPE, SIG_IGN);
  if (chdir(x.work.c_str()) != 0) return 2;
  options().seed = x.seed;
  options().thorough = x.thorough;
  setup();
  std::ofstream(x.work + "/setup_ok") << "1";

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, kind, prop, choices;
    double size = 1;
    uint64_t idx = 0, n = 0;
    unsigned worker = 0, nw = 8;
    while (std::getline(in, line)) {
      auto col = line.find(": ");
      if (col == std::string::npos) continue;
      std::string k = line.substr(0, col), v = line.substr(col + 2);
      if (k == "kind") kind = v;
      if (k == "subcheck") prop = v;
      if (k == "choices") choices = v;
      if (k == "size") size = std::stod(v);
      if (k == "index") idx = std::stoull(v);
      if (k == "total") n = std::stoull(v);
      if (k == "worker") worker = static_cast<unsigned>(std::stoul(v));
      if (k == "workers") nw = static_cast<unsigned>(std::stoul(v));
      if (k == "seed") x.seed = std::stoull(v);
      if (k == "message") break;
    }
    for (auto &p : props()) {
      if (p.name != prop) continue;
      RunResult r;
      std::string notes;
      if (kind == "prefix") {
        r = run_prefix(x, p, n, worker, nw, idx);
      } else {
        std::vector<uint64_t> ch;
        std::istringstream ss(choices);
        ss >> std::hex;
        uint64_t v;
        while (ss >> v) ch.push_back(v);
        r = run_forked(x, p, ch, size, nullptr, &notes);
      }
      if (r.out == Outcome::violation) {
        std::cout << "REPRODUCED " << prop << "\n"
                  << notes << "\n"
                  << r.msg << "\n";
        return 1;
      }
      std::cout << "not reproduced: " << prop << "\n" << notes << "\n";
      return 0;
    }
    std::cout << "unknown subcheck " << prop << "\n";
    return 2;
  }

  Slot *slots = static_cast<Slot *>(
      mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::ostringstream js;
  js << "{\"props\":[";
  bool first = true, violated = false;
  for (auto &p : props()) {
    if (!only.empty() && p.name != only) continue;
    uint64_t n = x.thorough ? p.thorough : p.quick;
    n = std::max<uint64_t>(
        1, static_cast<uint64_t>(static_cast<double>(n) * x.scale));
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    std::vector<pid_t> pids(x.workers);
    fflush(nullptr);
    std::cout.flush();
    for (unsigned w = 0; w < x.workers; w++) {
      slots[w].idx = 0;
      slots[w].running = 0;
      unlink((x.work + "/w" + std::to_string(w) + ".bin").c_str());
      pids[w] = fork();
      if (pids[w] == 0) worker_main(x, p, n, w, &slots[w]);
    }
    Stats tot;
    std::vector<uint64_t> all;
    Failure best;
    auto consider = [&](const Failure &f) {
      if (!best.found || f.idx < best.idx) best = f;
    };
    for (unsigned w = 0; w < x.workers; w++) {
      int st = 0;
      waitpid(pids[w], &st, 0);
      const std::string wb = x.work + "/w" + std::to_string(w);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        Failure f;
        f.found = true;
        f.idx = slots[w].idx;
        f.worker = w;
        f.crash = true;
        f.msg = signame(st, p) + "\n" + tail_of(wb + ".err");
        consider(f);
        continue;
      }
      std::ifstream in(wb + ".bin", std::ios::binary);
      tot.cases += rdu(in);
      tot.discards += rdu(in);
      tot.nontrivial += rdu(in);
      tot.comparisons += rdu(in);
      uint64_t nl = rdu(in);
      for (uint64_t i = 0; i < nl; i++) {
        std::string l = rds(in);
        tot.labels[l] += rdu(in);
      }
      uint64_t nh = rdu(in);
      for (uint64_t i = 0; i < nh; i++) all.push_back(rdu(in));
      uint64_t ns = rdu(in);
      for (uint64_t i = 0; i < ns; i++) {
        std::string s = rds(in);
        if (tot.samples.size() < 3) tot.samples.push_back(s);
      }
      if (rdu(in)) {
        Failure f;
        f.found = true;
        f.worker = w;
        f.idx = rdu(in);
        f.msg = rds(in);
        f.notes = rds(in);
        f.crash = rdu(in);
        uint64_t nc = rdu(in);
        f.choices.resize(nc);
        for (auto &v : f.choices) v = rdu(in);
        consider(f);
      }
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    clock_gettime(CLOCK_MONOTONIC, &t1);
    const double wall = static_cast<double>(t1.tv_sec - t0.tv_sec) +
                        1e-9 * static_cast<double>(t1.tv_nsec - t0.tv_nsec);
    js << (first ? "" : ",") << "{\"name\":" << json(p.name)
       << ",\"cases\":" << tot.cases << ",\"discards\":" << tot.discards
       << ",\"nontrivial\":" << tot.nontrivial
       << ",\"distinct_nontrivial\":" << all.size()
       << ",\"comparisons\":" << tot.comparisons << ",\"wall\":" << wall
       << ",\"labels\":{";
    bool fl = true;
    for (auto &l : tot.labels) {
      js << (fl ? "" : ",") << json(l.first) << ":" << l.second;
      fl = false;
    }
    js << "},\"samples\":[";
    for (size_t i = 0; i < tot.samples.size(); i++)
      js << (i ? "," : "") << json(tot.samples[i]);
    js << "]";
    first = false;
    if (x.verbose) {
      std::cerr << p.name << ": " << tot.cases << " cases, "
                << all.size() << " distinct nontrivial, " << tot.discards
                << " discarded, " << tot.comparisons << " comparisons, "
                << wall << " s;";
      for (auto &l : tot.labels)
        std::cerr << " " << l.first << "=" << l.second;
      std::cerr << "\n";
    }
    if (best.found) {
      violated = true;
      const double size = case_size(best.idx, n);
      std::vector<uint64_t> ch = best.choices;
      if (ch.empty()) {
        // crash: regenerate the choices by running the case up to the crash is
        // not possible, so record the generator's own stream: re-run in a
        // child which streams its choices to shared memory
        const size_t cap = 1 << 22;
        uint64_t *buf = static_cast<uint64_t *>(
            mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        buf[0] = 0;
        // The stream of an unbounded generator is deterministic: raw values
        // modulo the bound. Store raw 64-bit values; replay reduces them.
        Case probe(case_seed(x, p, best.idx), size);
        for (size_t i = 0; i < 20000; i++) {
          probe.below(~0ull);
        }
        ch = probe.used();
        munmap(buf, (cap + 1) * 8);
      }
      std::string msg = best.msg, notes = best.notes;
      std::vector<uint64_t> used;
      std::string nt;
      RunResult r = run_forked(x, p, ch, size, &used, &nt);
      std::string kind = "choices";
      bool reproducible = r.out == Outcome::violation;
      if (reproducible) {
        if (!best.crash) {
          ch = used;
        } else {
          // cut the raw stream to the shortest failing prefix
          size_t lo = 0, hi = ch.size();
          while (lo < hi) {
            size_t mid = (lo + hi) / 2;
            std::vector<uint64_t> cut(ch.begin(),
                                      ch.begin() + static_cast<long>(mid));
            if (run_forked(x, p, cut, size, nullptr, nullptr).out ==
                Outcome::violation)
              hi = mid;
            else
              lo = mid + 1;
          }
          ch.resize(hi);
        }
        msg = r.msg;
        notes = nt;
        shrink(x, p, size, ch, msg, notes);
      } else {
        kind = "prefix";
        r = run_prefix(x, p, n, best.worker, x.workers, best.idx);
        reproducible = r.out == Outcome::violation;
        if (reproducible) msg = r.msg;
      }
      std::ofstream o(replay_out);
      o << "kind: " << kind << "\nsubcheck: " << p.name
        << "\nsize: " << std::setprecision(17) << size
        << "\nseed: " << x.seed << "\nindex: " << best.idx
        << "\ntotal: " << n << "\nworker: " << best.worker
        << "\nworkers: " << x.workers << "\nchoices: " << hexlist(ch)
        << "\nreproducible: " << (reproducible ? "yes" : "no")
        << "\nmessage: " << msg << "\n\ncase:\n" << notes << "\n";
      js << ",\"violation\":" << json(msg) << ",\"case\":" << json(notes)
         << ",\"reproducible\":" << (reproducible ? "true" : "false");
    }
    js << "}";
    if (violated) break;
  }
  js << "],\"violated\":" << (violated ? "true" : "false") << "}\n";
  if (!out.empty()) {
    std::ofstream o(out);
    o << js.str();
  } else {
    std::cout << js.str();
  }
  return violated ? 1 : 0;
}

// scratch directory of the running process (also its working directory)
inline const std::string &scratch() { return detail::scratch_dir(); }

}  // namespace pbt

#define PBT_MAIN \
  int main(int argc, char **argv) { return ::pbt::main_impl(argc, argv); }

#endif  // VERIF_PBT_H_
