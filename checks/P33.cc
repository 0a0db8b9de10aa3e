// P33: text, files, locks, checksums and conversions of numbers
#include <array>
#include <atomic>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <sstream>
#include <thread>

#include "pbt.h"
#include "smash/file.h"
#include "smash/filelock.h"
#include "smash/inputfunctions.h"
#include "smash/numeric_cast.h"
#include "smash/sha256.h"
#include "smash/stringfunctions.h"
#include "smashkit.h"

using namespace smash;
namespace fs = std::filesystem;

namespace {
struct Scratch {
  fs::path dir = fs::path("scratch");
  Scratch() {
    fs::remove_all(dir);
    fs::create_directory(dir);
  }
  ~Scratch() { fs::remove_all(dir); }
};
std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
std::string hex(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char x : s) {
    std::snprintf(b, sizeof b, x >= 32 && x < 127 ? "%c" : "\\x%02x", x);
    r += b;
  }
  return r;
}
// one code point and how many columns it takes
std::pair<std::string, size_t> glyph(pbt::Case &c) {
  switch (c.below(8)) {
    case 0:
      return {c.one_of<const char *>({"π", "Δ", "Λ", "ρ", "é"}), 1};
    case 1:
      return {c.one_of<const char *>({"⁺", "⁻", "⁰", "√"}), 1};
    case 2:
      return {"\xF0\x9D\x84\x9E", 1};
    case 3:  // a combining bar
      return {"\xCC\x84", 0};
    default:
      return {std::string(1, static_cast<char>(32 + c.below(95))), 1};
  }
}
std::string text(pbt::Case &c, size_t most, const std::string &alphabet) {
  std::string s;
  const size_t n = c.count(0, most);
  for (size_t i = 0; i < n; i++) s += alphabet[c.below(alphabet.size())];
  return s;
}

// SHA-256 as in FIPS 180-4, the constants from the primes themselves
struct Sha {
  std::array<uint32_t, 64> k;
  std::array<uint32_t, 8> h0;
  static uint32_t fraction(long double x) {
    return static_cast<uint32_t>(
        std::floor((x - std::floor(x)) * 4294967296.0L));
  }
  Sha() {
    size_t n = 0;
    for (unsigned p = 2; n < 64; p++) {
      bool prime = true;
      for (unsigned d = 2; d * d <= p; d++) prime = prime && p % d;
      if (!prime) continue;
      if (n < 8) h0[n] = fraction(sqrtl(p));
      k[n++] = fraction(cbrtl(p));
    }
  }
  static uint32_t rot(uint32_t x, int n) { return x >> n | x << (32 - n); }
  std::string operator()(std::string m) const {
    const uint64_t bits = 8 * m.size();
    m += '\x80';
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; i--) m += static_cast<char>(bits >> (8 * i));
    auto h = h0;
    for (size_t o = 0; o < m.size(); o += 64) {
      uint32_t w[64];
      for (size_t i = 0; i < 16; i++) {
        w[i] = 0;
        for (size_t j = 0; j < 4; j++)
          w[i] = w[i] << 8 | static_cast<unsigned char>(m[o + 4 * i + j]);
      }
      for (size_t i = 16; i < 64; i++)
        w[i] = w[i - 16] + w[i - 7] +
               (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ w[i - 15] >> 3) +
               (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ w[i - 2] >> 10);
      auto v = h;
      for (size_t i = 0; i < 64; i++) {
        const uint32_t a = v[0], e = v[4];
        const uint32_t t1 = v[7] + (rot(e, 6) ^ rot(e, 11) ^ rot(e, 25)) +
                            ((e & v[5]) ^ (~e & v[6])) + k[i] + w[i];
        const uint32_t t2 = (rot(a, 2) ^ rot(a, 13) ^ rot(a, 22)) +
                            ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
        for (size_t j = 7; j > 0; j--) v[j] = v[j - 1];
        v[4] += t1;
        v[0] = t1 + t2;
      }
      for (size_t j = 0; j < 8; j++) h[j] += v[j];
    }
    std::string r;
    for (uint32_t x : h)
      for (int i = 3; i >= 0; i--) r += static_cast<char>(x >> (8 * i));
    return r;
  }
};
}  // namespace

namespace pbt {
void setup() { kit::quiet(); }
void reset_case(uint64_t) {}
}  // namespace pbt

PBT_PROP(strings, 6000, 200000) {
  // trim: what is left has no white space at its ends
  {
    const std::string s = text(c, 12, " \t\n\rab"), t = trim(s);
    size_t b = 0, e = s.size();
    const std::string ws = " \t\n\r";
    while (b < e && ws.find(s[b]) != std::string::npos) b++;
    while (e > b && ws.find(s[e - 1]) != std::string::npos) e--;
    PBT_CHECK(c, t == s.substr(b, e - b),
              "trim of '" << hex(s) << "' is '" << hex(t) << "'");
  }
  // split as lines are read: no part after a delimiter at the end
  {
    const std::string s = text(c, 12, ",;a b"), sep = c.flip() ? "," : ";";
    std::vector<std::string> want{""};
    for (char x : s)
      if (x == sep[0])
        want.push_back("");
      else
        want.back() += x;
    if (want.back().empty()) want.pop_back();
    const auto have = split(s, sep[0]);
    PBT_CHECK(c, have == want,
              "split of '" << s << "' gives " << have.size() << " parts");
    std::string joined;
    for (size_t i = 0; i < have.size(); i++)
      joined += (i ? sep : "") + have[i];
    PBT_CHECK(c, join(have, sep) == joined,
              "joined '" << join(have, sep) << "' instead of '" << joined
                         << "'");
    c.nontrivial(have.size() > 1);
  }
  {
    std::vector<std::string> v;
    std::string want;
    const std::string d = text(c, 3, ", ");
    const size_t n = c.count(0, 5);
    for (size_t i = 0; i < n; i++) {
      v.push_back(text(c, 3, "ab,"));
      want += (i ? d : "") + v.back();
    }
    PBT_CHECK(c, join(v, d) == want,
              "joined '" << join(v, d) << "' instead of '" << want << "'");
    PBT_CHECK(c, quote(want) == '"' + want + '"', "quote");
  }
  // removal of parts
  {
    std::string s = text(c, 14, "aab"), p = text(c, 3, "ab"), want = s;
    const std::string before = s;
    if (!p.empty())
      for (size_t i; (i = want.find(p)) != std::string::npos;)
        want = want.substr(0, i) + want.substr(i + p.size());
    remove_substr(s, p);
    PBT_CHECK(c, s == want,
              "'" << before << "' without '" << p << "' is '" << s << "'");
  }
  {
    std::string s, want;
    const size_t n = c.count(0, 8);
    for (size_t i = 0; i < n; i++) {
      const std::string g = glyph(c).first;
      s += g;
      if (g != "⁺" && g != "⁻" && g != "⁰") want += g;
    }
    isoclean(s);
    PBT_CHECK(c, s == want, "isospin: '" << s << "' instead of '" << want
                                         << "'");
  }
}

// texts are filled to a width in columns, longer ones are not changed
PBT_PROP(filled, 6000, 200000) {
  std::string s;
  size_t columns = 0;
  const size_t n = c.count(0, 12);
  for (size_t i = 0; i < n; i++) {
    const auto g = glyph(c);
    s += g.first;
    columns += g.second;
    PBT_CHECK(c,
              utf8::sequence_length(g.first.begin()) ==
                  static_cast<std::ptrdiff_t>(g.first.size()),
              "length of '" << g.first << "'");
  }
  const size_t width = c.below(16);
  const char f = c.flip() ? ' ' : '.';
  const size_t more = width > columns ? width - columns : 0;
  const std::string left = utf8::fill_left(s, width, f),
                    right = utf8::fill_right(s, width, f),
                    both = utf8::fill_both(s, width, f);
  PBT_CHECK(c, left == std::string(more, f) + s, "left '" << left << "'");
  PBT_CHECK(c, right == s + std::string(more, f), "right '" << right << "'");
  PBT_CHECK(c,
            both == std::string(more / 2, f) + s +
                        std::string(more - more / 2, f),
            "both '" << both << "'");
  c.label("too long", columns > width);
  c.nontrivial(more > 0 && s.size() > columns);
}

// lines of input without comments and white space
PBT_PROP(lines, 5000, 200000) {
  const std::string s = text(c, 40, "ab# \t\r\n\n");
  std::vector<std::pair<int, std::string>> want;
  std::istringstream in(s);
  std::string l;
  for (int i = 1; std::getline(in, l); i++) {
    l = l.substr(0, l.find('#'));
    const size_t b = l.find_first_not_of(" \t\r");
    if (b == std::string::npos) continue;
    want.push_back({i, l.substr(b, l.find_last_not_of(" \t\r") - b + 1)});
  }
  const auto have = line_parser(s);
  PBT_CHECK(c, have.size() == want.size(),
            have.size() << " lines in '" << hex(s) << "'");
  for (size_t i = 0; i < have.size(); i++) {
    PBT_CHECK(c,
              have[i].number == want[i].first && have[i].text == want[i].second,
              "line " << have[i].number << " '" << hex(have[i].text) << "'");
    // anything left of a line is refused
    std::istringstream rest(have[i].text);
    std::string word;
    const size_t words = 1 + c.below(2);
    for (size_t k = 0; k < words; k++) rest >> word;
    std::istringstream copy(have[i].text);
    for (size_t k = 0; k < words; k++) copy >> word;
    const bool garbage = bool(copy >> word);
    bool refused = false;
    if (rest) {
      try {
        ensure_all_read(rest, have[i]);
      } catch (const ParticleType::LoadFailure &) {
        refused = true;
      }
      PBT_CHECK(c, refused == garbage,
                "rest of '" << hex(have[i].text) << "' after " << words
                            << " words");
    }
  }
  PBT_CHECK(c,
            has_crlf_line_ending(s) == (s.find("\r\n") != std::string::npos),
            "line ending");
  PBT_CHECK(c, read_all(std::istringstream(s)) == s, "reading all");
  c.nontrivial(have.size() > 1);
}

// checksums do not depend on how the data is given
PBT_PROP(sha, 1500, 60000) {
  static const Sha reference;
  std::string s;
  const size_t n = c.flip() ? c.count(0, 300)
                            : 64 * c.below(4) + 50 + c.below(20);
  for (size_t i = 0; i < n; i++) s += static_cast<char>(c.below(256));
  const auto *data = reinterpret_cast<const uint8_t *>(s.data());
  const std::string want = reference(s);
  auto bytes = [](const sha256::Hash &h) {
    return std::string(h.begin(), h.end());
  };
  const auto h = sha256::calculate(data, s.size());
  PBT_CHECK(c, bytes(h) == want, "checksum of " << n << " bytes");
  std::string x;
  char b[4];
  for (unsigned char y : want) std::snprintf(b, sizeof b, "%02x", y), x += b;
  PBT_CHECK(c, sha256::hash_to_string(h) == x,
            "printed as " << sha256::hash_to_string(h));
  sha256::Context con;
  // and the context can be used again
  const size_t runs = 1 + c.below(2);
  for (size_t r = 0; r < runs; r++) {
    if (r) con.reset();
    size_t i = 0, parts = 0;
    while (i < n) {
      const size_t k =
          std::min(n - i, c.flip() ? c.below(8) : 1 + c.below(150));
      if (c.flip())
        con.update(s.substr(i, k));
      else
        con.update(data + i, k);
      i += k;
      if (++parts > 60) {
        con.update(s.substr(i));
        break;
      }
    }
    PBT_CHECK(c, bytes(con.finalize()) == want,
              "checksum of " << n << " bytes in " << parts << " parts");
  }
  c.nontrivial(n > 64);
}

// only one of several locks on a file can be acquired at a time
PBT_PROP(locks, 600, 20000) {
  Scratch dir;
  const size_t n = c.count(2, 5);
  std::vector<std::unique_ptr<FileLock>> locks;
  std::vector<int> path(n), held(n, 0);
  auto name = [&](int i) { return dir.dir / ("lock" + std::to_string(i)); };
  for (size_t i = 0; i < n; i++) {
    path[i] = static_cast<int>(c.below(2));
    locks.push_back(std::make_unique<FileLock>(name(path[i])));
  }
  size_t refusals = 0;
  const size_t ops = c.count(1, 20);
  for (size_t k = 0; k < ops; k++) {
    const size_t i = c.below(n);
    bool taken = false;
    for (size_t j = 0; j < n; j++)
      taken = taken || (held[j] && path[j] == path[i]);
    if (c.below(3)) {
      bool have = false, threw = false;
      try {
        have = locks[i]->acquire();
      } catch (const std::runtime_error &) {
        threw = true;
      }
      PBT_CHECK(c, threw == bool(held[i]), "acquired twice by the same lock");
      PBT_CHECK(c, have == !taken, "lock " << (have ? "" : "not ")
                                           << "acquired");
      refusals += !have;
      if (have) held[i] = 1;
    } else {
      locks[i] = std::make_unique<FileLock>(name(path[i]));
      held[i] = 0;
    }
    for (int p = 0; p < 2; p++) {
      bool any = false;
      for (size_t j = 0; j < n; j++) any = any || (held[j] && path[j] == p);
      PBT_CHECK(c, fs::exists(name(p)) == any, "the file of the lock");
    }
  }
  c.nontrivial(refusals > 0);
}

// and from threads at the same time
PBT_PROP_OPT(race, 60, 1000, 30, false) {
  Scratch dir;
  const int n = 2 + static_cast<int>(c.below(7));
  for (int round = 0; round < 20; round++) {
    std::vector<std::unique_ptr<FileLock>> locks;
    for (int i = 0; i < n; i++)
      locks.push_back(std::make_unique<FileLock>(dir.dir / "lock"));
    std::atomic<int> ready{0}, got{0};
    std::vector<std::thread> threads;
    for (int i = 0; i < n; i++)
      threads.emplace_back([&, i]() {
        ready++;
        while (ready < n) std::this_thread::yield();
        got += locks[static_cast<size_t>(i)]->acquire();
      });
    for (auto &t : threads) t.join();
    PBT_CHECK(c, got == 1, got << " threads acquired the lock");
  }
  c.nontrivial();
}

// output files have their name only when they are complete
PBT_PROP(files, 800, 20000) {
  Scratch dir;
  const fs::path name = dir.dir / c.one_of<const char *>({"a", "b.dat"}),
                 unfinished = name.string() + ".unfinished";
  const bool old = c.flip(), fail = c.flip();
  const std::string s = text(c, 30, "ab\n");
  if (old) std::ofstream(name) << "old";
  auto write = [&](bool broken) {
    RenamingFilePtr f(name, "w");
    PBT_CHECK(c, f.get() != nullptr, "not opened");
    std::fputs(s.c_str(), f.get());
    PBT_CHECK(c, fs::exists(unfinished), "no unfinished file");
    PBT_CHECK(c, fs::exists(name) == old && (!old || slurp(name) == "old"),
              "the file exists too early");
    if (broken) throw 1;
  };
  struct Late {
    std::function<void(bool)> f;
    ~Late() { f(false); }
  };
  const bool late = c.below(4) == 0;
  if (late) {
    // complete, although there is an exception elsewhere
    try {
      Late l{write};
      throw 2;
    } catch (int) {
    }
  } else {
    try {
      write(fail);
    } catch (int) {
    }
  }
  const bool done = late || !fail;
  PBT_CHECK(c, fs::exists(unfinished) == !done, "unfinished file");
  PBT_CHECK(c, fs::exists(name) == (done || old), "finished file");
  PBT_CHECK(c, slurp(done ? name : unfinished) == s, "contents");
  if (!done && old) PBT_CHECK(c, slurp(name) == "old", "old file");
  c.label(late ? "exception elsewhere" : fail ? "exception" : "complete");
  {
    FilePtr f = smash::fopen(dir.dir / "c", "w");
    std::fputs(s.c_str(), f.get());
  }
  PBT_CHECK(c, slurp(dir.dir / "c") == s, "contents");
  PBT_CHECK(c, !smash::fopen(dir.dir / "none" / "d", "r"), "missing file");
  c.nontrivial(!s.empty());
}

namespace {
template <typename To, typename From>
void cast(pbt::Case &c, From x, bool fits, const char *what) {
  bool refused = false;
  To y{};
  try {
    y = numeric_cast<To>(x);
  } catch (const std::domain_error &) {
    refused = true;
  }
  PBT_CHECK(c, refused != fits,
            x << (refused ? " refused" : " accepted") << " as " << what);
  if (fits) PBT_CHECK(c, static_cast<From>(y) == x, "value of " << x);
  c.label(fits ? "fits" : "does not fit");
}
template <typename To, typename From>
void integer(pbt::Case &c, const char *what) {
  const From lo = std::numeric_limits<From>::min(),
             hi = std::numeric_limits<From>::max();
  const __int128 a = std::numeric_limits<To>::min(),
                 b = std::numeric_limits<To>::max();
  From x;
  const From d = static_cast<From>(c.below(4));
  switch (c.below(6)) {
    case 0:
      x = static_cast<From>(lo + d);
      break;
    case 1:
      x = static_cast<From>(hi - d);
      break;
    case 2:
      x = d;
      break;
    case 3:  // at the limits of the other type
      x = static_cast<From>(static_cast<uint64_t>(b) + c.below(4) - 2);
      break;
    case 4:
      x = static_cast<From>(static_cast<uint64_t>(a) + c.below(4) - 2);
      break;
    default:
      x = static_cast<From>(c.seed32() * 4294967311ull + c.seed32());
  }
  const __int128 v = x;
  cast<To>(c, x, v >= a && v <= b, what);
}
template <typename To>
void real(pbt::Case &c, const char *what) {
  const double lo = static_cast<double>(std::numeric_limits<To>::min()),
               hi = static_cast<double>(std::numeric_limits<To>::max());
  double x;
  switch (c.below(6)) {
    case 0:
      x = c.uniform(-1000., 1000.);
      break;
    case 1:
      x = std::round(c.uniform(-1000., 1000.));
      break;
    case 2:
      x = std::round(c.uniform(lo, hi) / 2);
      break;
    case 3:
      x = std::round(hi * c.uniform(1.5, 4.)) * (c.flip() ? 1 : -1);
      break;
    case 4:
      x = NAN;
      break;
    default:
      x = static_cast<double>(c.below(3));
  }
  cast<To>(c, x, x == std::floor(x) && x >= lo && x <= hi, what);
}
}  // namespace

PBT_PROP(numbers, 8000, 400000) {
  c.nontrivial();
  switch (c.below(11)) {
    case 0:
      return integer<int, int64_t>(c, "int from int64_t");
    case 1:
      return integer<int, size_t>(c, "int from size_t");
    case 2:
      return integer<size_t, int>(c, "size_t from int");
    case 3:
      return integer<unsigned, int>(c, "unsigned from int");
    case 4:
      return integer<int, unsigned>(c, "int from unsigned");
    case 5:
      return integer<int16_t, int>(c, "int16_t from int");
    case 6:
      return integer<uint16_t, int64_t>(c, "uint16_t from int64_t");
    case 7:
      return integer<int64_t, uint64_t>(c, "int64_t from uint64_t");
    case 8:
      return real<int>(c, "int from double");
    case 9:
      return real<uint32_t>(c, "uint32_t from double");
    default: {
      // a double of an integer needs to be exact
      const int64_t x =
          static_cast<int64_t>(c.below(1ull << (20 + c.below(42)))) *
          (c.flip() ? 1 : -1);
      const bool fits =
          static_cast<__int128>(static_cast<double>(x)) == x;
      return cast<double>(c, x, fits, "double from int64_t");
    }
  }
}

PBT_MAIN
