// P04: PDG codes: all spellings of a code agree, round-trip, and the quantum
// numbers are those of the quark content.
#include "smash/pdgcode.h"

#include <array>
#include <optional>

#include "smashkit.h"

using namespace smash;

namespace {
struct Digits {
  int n, nR, nL, q1, q2, q3, nJ;
  bool anti;
};
enum class Kind { meson, baryon, lepton, boson };

// decimal PDG number of the digits (spin digits beyond 9 go in front)
long decimal(const Digits &d) {
  long v = std::min(d.nJ, 9) + 10L * d.q3 + 100L * d.q2 + 1000L * d.q1 +
           10000L * d.nL + 100000L * d.nR + 1000000L * d.n;
  if (d.nJ > 9) v += 10000000L * (d.nJ - 9);
  return d.anti ? -v : v;
}
std::int32_t hexcode(const Digits &d) {
  std::int32_t v = d.nJ | d.q3 << 4 | d.q2 << 8 | d.q1 << 12 | d.nL << 16 |
                   d.nR << 20 | d.n << 24;
  return d.anti ? -v : v;
}
// quarks (+) and antiquarks (-) by the PDG numbering scheme
std::vector<int> valence(const Digits &d, Kind k) {
  std::vector<int> r;
  if (k == Kind::baryon) r = {d.q1, d.q2, d.q3};
  if (k == Kind::meson) {
    // q2 is the heavier: the particle with positive number contains it as a
    // quark if it is up-type and as an antiquark if it is down-type
    if (d.q2 % 2 == 0)
      r = {d.q2, -d.q3};
    else
      r = {-d.q2, d.q3};
  }
  if (d.anti)
    for (int &q : r) q = -q;
  return r;
}
int net(const std::vector<int> &v, int f) {
  int n = 0;
  for (int q : v) n += (q == f) - (q == -f);
  return n;
}
int any(const std::vector<int> &v, int f) {
  int n = 0;
  for (int q : v) n += std::abs(q) == f;
  return n;
}
template <typename F>
std::optional<PdgCode> attempt(F f) {
  try {
    return f();
  } catch (const PdgCode::InvalidPdgCode &) {
    return std::nullopt;
  }
}
bool agrees(const std::optional<PdgCode> &a, const std::optional<PdgCode> &b) {
  return a.has_value() == b.has_value() && (!a || *a == *b);
}
Digits gen(pbt::Case &c, Kind k) {
  Digits d{0, 0, 0, 0, 0, 0, 0, c.flip()};
  const bool excited = c.below(3) == 0;
  if (excited) {
    d.n = static_cast<int>(c.below(10));
    d.nR = static_cast<int>(c.below(10));
    d.nL = static_cast<int>(c.below(10));
  }
  auto q = [&] { return 1 + static_cast<int>(c.below(c.below(3) ? 3 : 6)); };
  switch (k) {
    case Kind::meson:
      d.q2 = q();
      d.q3 = q();
      if (d.q3 > d.q2) std::swap(d.q2, d.q3);
      d.nJ = static_cast<int>(c.below(16));
      if (d.nJ == 0 && d.q2 == 3 && d.q3 == 1) d.nJ = 2;  // 310 is the K0_S
      break;
    case Kind::baryon:
      d.q1 = q();
      d.q2 = q();
      d.q3 = q();
      d.nJ = static_cast<int>(c.below(16));
      break;
    case Kind::lepton:
      d.n = d.nR = d.nL = 0;
      d.q3 = 1;
      d.nJ = 1 + static_cast<int>(c.below(6));
      break;
    case Kind::boson:
      d.n = d.nR = d.nL = 0;
      d.q3 = 2;
      d.nJ = 1 + static_cast<int>(c.below(5));
      break;
  }
  return d;
}
}  // namespace

PBT_PROP(particles, 150000, 3000000) {
  const Kind k = c.one_of<Kind>({Kind::meson, Kind::baryon, Kind::meson,
                                 Kind::baryon, Kind::lepton, Kind::boson});
  const Digits d = gen(c, k);
  const long dec = decimal(d);
  const std::int32_t hex = hexcode(d);
  c.note() << "code " << dec;
  c.label(k == Kind::meson    ? "meson"
          : k == Kind::baryon ? "baryon"
          : k == Kind::lepton ? "lepton"
                              : "boson");
  c.label("spin digit > 9", d.nJ > 9);
  c.nontrivial(k == Kind::meson || k == Kind::baryon);
  const std::vector<int> v = valence(d, k);
  const bool self_conj = (k == Kind::meson && d.q2 == d.q3) || k == Kind::boson;
  const bool valid = [&] {
    if (d.anti && self_conj) return false;
    if (k == Kind::meson) return d.nJ % 2 == 1;
    if (k == Kind::baryon) return d.nJ % 2 == 0 && d.nJ > 0;
    return true;
  }();
  const std::string str = std::to_string(dec);
  const auto p = attempt([&] { return PdgCode(str); });
  PBT_CHECK(c, p.has_value() == valid,
            str << (valid ? " was rejected" : " was accepted"));
  PBT_CHECK(c, agrees(p, attempt([&] { return PdgCode(hex); })), "int32");
  PBT_CHECK(c, agrees(p, attempt([&] {
    return PdgCode(static_cast<std::uint32_t>(std::abs(hex)) |
                   (d.anti ? 0x80000000u : 0u));
  })), "uint32");
  if (d.nJ <= 9) {
    PBT_CHECK(c, agrees(p, attempt([&] {
      return PdgCode(static_cast<std::int64_t>(hex));
    })), "int64");
  }
  if (std::abs(dec) != 10000000) {
    PBT_CHECK(c, agrees(p, attempt([&] {
      return PdgCode::from_decimal(static_cast<int>(dec));
    })), "from_decimal");
  }
  {
    std::istringstream is((d.anti ? "" : c.flip() ? "+" : "") + str +
                          " 2212");
    PdgCode a, b;
    is >> a;
    PBT_CHECK(c, static_cast<bool>(is) == valid, "stream state");
    PBT_CHECK(c, a == (valid ? *p : PdgCode::invalid()), "stream value");
    if (valid) {
      is >> b;
      PBT_CHECK(c, is && b == PdgCode(0x2212), "stream leaves the rest");
    }
  }
  if (!valid) {
    c.label("rejected");
    return;
  }
  // round trips
  PBT_CHECK(c, p->get_decimal() == dec, "get_decimal " << p->get_decimal());
  PBT_CHECK(c, p->string() == str, "string " << p->string());
  PBT_CHECK(c, p->code() == hex, "code");
  {
    std::ostringstream o;
    o << *p;
    PBT_CHECK(c, o.str() == str, "operator<<");
  }
  // classification
  PBT_CHECK(c, p->is_hadron() == (k == Kind::meson || k == Kind::baryon), "");
  PBT_CHECK(c, p->is_meson() == (k == Kind::meson), "");
  PBT_CHECK(c, p->is_baryon() == (k == Kind::baryon), "");
  PBT_CHECK(c, p->is_lepton() == (k == Kind::lepton), "");
  PBT_CHECK(c, !p->is_nucleus(), "");
  PBT_CHECK(c, p->is_neutrino() == (k == Kind::lepton && d.nJ % 2 == 0), "");
  PBT_CHECK(c, p->is_charmonia() ==
                   (k == Kind::meson && d.q2 == 4 && d.q3 == 4), "");
  PBT_CHECK(c, p->has_antiparticle() == !self_conj, "");
  PBT_CHECK(c, p->antiparticle_sign() == (d.anti ? -1 : 1), "");
  const long a = std::abs(dec);
  auto in = [](long x, std::initializer_list<long> l) {
    for (long y : l)
      if (x == y) return true;
    return false;
  };
  PBT_CHECK(c, p->is_nucleon() == in(a, {2212, 2112}), "");
  PBT_CHECK(c, p->is_proton() == (a == 2212), "");
  PBT_CHECK(c, p->is_neutron() == (a == 2112), "");
  PBT_CHECK(c, p->is_pion() == in(a, {211, 111}), "");
  PBT_CHECK(c, p->is_rho() == in(a, {213, 113}), "");
  PBT_CHECK(c, p->is_kaon() == in(a, {321, 311}), "");
  PBT_CHECK(c, p->is_omega() == (a == 223), "");
  PBT_CHECK(c, p->is_Delta() == in(a, {2224, 2214, 2114, 1114}), "");
  PBT_CHECK(c, p->is_Sigmastar() == in(a, {3224, 3214, 3114}), "");
  PBT_CHECK(c, p->is_hyperon() == (k == Kind::baryon && d.q1 == 3), "");
  PBT_CHECK(c, p->is_hyperon() == (p->is_Lambda() + p->is_Sigma() +
                                       p->is_Xi() + p->is_Omega() == 1),
            "hyperon partition");
  // quantum numbers
  const int B = k == Kind::baryon ? (d.anti ? -1 : 1) : 0;
  PBT_CHECK(c, p->baryon_number() == B, "");
  for (int f = 1; f <= 6; f++)
    PBT_CHECK(c, p->net_quark_number(f) == net(v, f), "flavour " << f);
  PBT_CHECK(c, p->strangeness() == -net(v, 3), "");
  PBT_CHECK(c, p->charmness() == net(v, 4), "");
  PBT_CHECK(c, p->bottomness() == -net(v, 5), "");
  PBT_CHECK(c, p->isospin3() == net(v, 2) - net(v, 1), "");
  if (k == Kind::meson || k == Kind::baryon) {
    int q3 = 0;
    for (int q : v) q3 += (q > 0 ? 1 : -1) * (std::abs(q) % 2 == 0 ? 2 : -1);
    PBT_CHECK(c, p->charge() * 3 == q3, "charge " << p->charge());
    PBT_CHECK(c, static_cast<int>(p->spin()) == d.nJ - 1, "spin");
    PBT_CHECK(c, static_cast<int>(p->spin_degeneracy()) == d.nJ, "");
    // Gell-Mann-Nishijima
    PBT_CHECK(c, 2 * p->charge() == p->isospin3() + p->baryon_number() +
                                        p->strangeness() + p->charmness() +
                                        p->bottomness() +
                                        p->net_quark_number(6), "GMN");
    const double nq = static_cast<double>(v.size());
    PBT_CLOSE(c, p->frac_strange(), any(v, 3) / nq, 1e-15, 0, "");
    PBT_CLOSE(c, p->frac_charm(), any(v, 4) / nq, 1e-15, 0, "");
    PBT_CLOSE(c, p->frac_bottom(), any(v, 5) / nq, 1e-15, 0, "");
    PBT_CHECK(c, p->is_heavy_flavor() == (any(v, 4) || any(v, 5)), "");
    PBT_CHECK(c, p->quarks() == (d.q1 << 8 | d.q2 << 4 | d.q3), "quarks()");
    auto qc = p->quark_content();
    std::vector<int> mine(v), theirs(qc.begin(), qc.end());
    if (mine.size() == 2) {
      PBT_CHECK(c, qc[0] == 0, "meson content starts with 0");
      theirs.erase(theirs.begin());
    }
    std::sort(mine.begin(), mine.end());
    std::sort(theirs.begin(), theirs.end());
    PBT_CHECK(c, mine == theirs, "quark_content");
    for (int n = -3; n <= 3; n++) {
      const bool e = k == Kind::meson ? std::abs(n) == 1
                                      : (B * n == 1 || B * n == 2);
      PBT_CHECK(c, p->contains_enough_valence_quarks(n) == e, n);
    }
  } else {
    PBT_CHECK(c, p->charge() == (k == Kind::lepton
                                     ? (d.nJ % 2 ? (d.anti ? 1 : -1) : 0)
                                     : (d.nJ == 4 ? 1 : 0)), "charge");
    PBT_CHECK(c, static_cast<int>(p->spin()) == (k == Kind::lepton ? 1 : 2),
              "spin");
    PBT_CHECK(c, p->frac_strange() == 0 && p->frac_charm() == 0 &&
                     p->frac_bottom() == 0 && p->quarks() == 0, "");
  }
  // charge conjugation
  if (!self_conj) {
    const PdgCode b = p->get_antiparticle();
    PBT_CHECK(c, b == PdgCode(std::to_string(-dec)), "antiparticle");
    PBT_CHECK(c, b.is_antiparticle_of(*p) && p->is_antiparticle_of(b), "");
    PBT_CHECK(c, b.get_antiparticle() == *p && b != *p, "");
    PBT_CHECK(c, b.charge() == -p->charge() &&
                     b.baryon_number() == -p->baryon_number() &&
                     b.strangeness() == -p->strangeness() &&
                     b.isospin3() == -p->isospin3() && b.spin() == p->spin(),
              "conjugate quantum numbers");
    PBT_CHECK(c, (b < *p) != (*p < b), "order");
  }
  PBT_CHECK(c, !(*p < *p), "order");
  // another code
  const Digits d2 = gen(c, k);
  const auto p2 = attempt([&] { return PdgCode(hexcode(d2)); });
  if (p2) {
    const bool eq = hexcode(d2) == hex;
    PBT_CHECK(c, (*p == *p2) == eq && (*p != *p2) != eq, "equality");
    PBT_CHECK(c, ((*p < *p2) + (*p2 < *p)) == (eq ? 0 : 1), "total order");
    PBT_CHECK(c, p->is_antiparticle_of(*p2) == (hexcode(d2) == -hex), "");
    const bool dil = is_dilepton(*p, *p2);
    if (k != Kind::lepton) PBT_CHECK(c, !dil, "");
    if (k == Kind::lepton && in(a, {11, 13}) && hexcode(d2) == -hex)
      PBT_CHECK(c, dil, "a pair is a dilepton");
    if (k == Kind::lepton && d.anti == d2.anti) PBT_CHECK(c, !dil, "");
    PBT_CHECK(c, has_lepton_pair(PdgCode(0x211), *p, *p2) == dil, "");
    PBT_CHECK(c, has_lepton_pair(*p, PdgCode(0x211), *p2) == dil, "");
    PBT_CHECK(c, has_lepton_pair(*p, *p2, PdgCode(0x211)) == dil, "");
  }
  if (k == Kind::meson || k == Kind::baryon) {
    PdgCode g = *p;
    g.deexcite();
    Digits dd = d;
    dd.n = dd.nR = dd.nL = 0;
    PBT_CHECK(c, g.code() == hexcode(dd), "deexcite");
  }
}

PBT_PROP(nuclei, 60000, 1000000) {
  const int A = 1 + static_cast<int>(c.below(c.below(2) ? 4 : 999));
  const int L = static_cast<int>(c.below(1 + std::min(A, 9)));
  const int Z = static_cast<int>(c.below(1 + A - L));
  const int I = static_cast<int>(c.below(10));
  const bool anti = c.flip();
  const int sg = anti ? -1 : 1;
  char buf[32];
  snprintf(buf, sizeof buf, "%s10%d%03d%03d%d", anti ? "-" : "", L, Z, A, I);
  const std::string s = buf;
  c.note() << s;
  c.nontrivial();
  c.label("hypernucleus", L > 0);
  const PdgCode p(s);
  const int dec = std::stoi(s);
  PBT_CHECK(c, p.get_decimal() == dec, p.get_decimal());
  PBT_CHECK(c, p.string() == s, p.string());
  PBT_CHECK(c, PdgCode::from_decimal(dec) == p, "from_decimal");
  const std::int64_t h = std::stoll(s, nullptr, 16);
  PBT_CHECK(c, PdgCode(h) == p, "64-bit");
  if (!anti) PBT_CHECK(c, PdgCode("+" + s) == p, "plus sign");
  PBT_CHECK(c, p.is_nucleus() && !p.is_hadron() && !p.is_lepton(), "");
  PBT_CHECK(c, !p.is_meson() && !p.is_baryon(), "");
  PBT_CHECK(c, p.baryon_number() == sg * A, p.baryon_number());
  PBT_CHECK(c, p.charge() == sg * Z, p.charge());
  PBT_CHECK(c, p.strangeness() == -sg * L, "");
  PBT_CHECK(c, p.charmness() == 0 && p.bottomness() == 0, "");
  PBT_CHECK(c, p.isospin3() == sg * (Z - (A - Z - L)), "");
  PBT_CHECK(c, p.nucleus_A() == A, "");
  PBT_CHECK(c, p.nucleus_p() == (anti ? 0 : Z), "");
  PBT_CHECK(c, p.nucleus_n() == (anti ? 0 : A - Z - L), "");
  PBT_CHECK(c, p.nucleus_La() == (anti ? 0 : L), "");
  PBT_CHECK(c, p.nucleus_ap() == (anti ? Z : 0), "");
  PBT_CHECK(c, p.nucleus_an() == (anti ? A - Z - L : 0), "");
  PBT_CHECK(c, p.nucleus_aLa() == (anti ? L : 0), "");
  PBT_CHECK(c, p.is_deuteron() == (A == 2 && Z == 1 && !L && !I), "");
  PBT_CHECK(c, p.is_triton() == (A == 3 && Z == 1 && !L && !I), "");
  PBT_CHECK(c, p.has_antiparticle(), "");
  PBT_CHECK(c, p.quarks() == 0 && p.quark_content()[0] == 0, "");
  if (A >= 2 && A <= 4) {
    const unsigned sp = A == 2 ? 2 : A == 3 ? 1 : 0;
    PBT_CHECK(c, p.spin() == sp && p.spin_degeneracy() == sp + 1, "");
  }
  const PdgCode q = p.get_antiparticle();
  PBT_CHECK(c, q.get_decimal() == -dec && q.is_antiparticle_of(p), "");
  PdgCode g = p;
  g.deexcite();
  PBT_CHECK(c, g.get_decimal() == sg * (std::abs(dec) - I), "deexcite");
}

// no string is misread: it is a code in the documented syntax or rejected
PBT_PROP(strings, 100000, 2000000) {
  std::string s;
  const size_t n = c.count(0, 13);
  const int mode = static_cast<int>(c.below(3));
  for (size_t i = 0; i < n; i++) {
    if (mode == 0)
      s += "0123456789+- aFg.xX:/@GG`"[c.below(25)];
    else if (mode == 1 && i == 0)
      s += "+-0123456789"[c.below(12)];
    else if (mode == 1)
      s += static_cast<char>('0' + c.below(10));
    else
      s += static_cast<char>(c.below(256));
  }
  c.note() << "\"" << s << "\"";
  c.nontrivial(n > 0);
  const auto p = attempt([&] { return PdgCode(s); });
  c.label("accepted", p.has_value());
  if (!p) return;
  std::string digits = s;
  if (!digits.empty() && (digits[0] == '+' || digits[0] == '-'))
    digits.erase(0, 1);
  bool dec = true;
  for (char ch : digits) {
    PBT_CHECK(c, isxdigit(static_cast<unsigned char>(ch)), "character");
    dec &= isdigit(static_cast<unsigned char>(ch)) != 0;
  }
  PBT_CHECK(c, digits.size() == 10 || (digits.size() >= 1 &&
                                       digits.size() <= 8), "length");
  if (digits.size() == 10) PBT_CHECK(c, digits.substr(0, 2) == "10", "10...");
  if (dec) {
    const long v = std::stol(digits);
    if (digits.size() <= 7 || digits.size() == 10) {
      PBT_CHECK(c, p->get_decimal() == (s[0] == '-' ? -v : v),
                p->get_decimal());
    }
    PBT_CHECK(c, PdgCode(p->string()) == *p, "round trip");
  }
}

void pbt::setup() { kit::quiet(); }
void pbt::reset_case(uint64_t) {}
PBT_MAIN
