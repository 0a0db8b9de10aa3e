// P26: initial state of a box and a sphere
#include <array>
#include <iostream>
#include <map>

#include "params.h"
#include "pbt.h"
#include "smashkit.h"
#include "stat.h"
#include "smash/action.h"
#include "smash/boxmodus.h"
#include "smash/constants.h"
#include "smash/hadgas_eos.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smash/spheremodus.h"

using namespace smash;

namespace {
// names of the initial distributions
const char *const kBox[] = {"peaked momenta", "thermal momenta",
                            "thermal momenta quantum"};
const char *const kSphere[] = {"thermal momenta", "thermal momenta quantum",
                               "IC_ES",           "IC_1M",
                               "IC_2M",           "IC_Massive"};
enum class Law { Peaked, Thermal, Quantum, ES, M1, M2, Massive };
const Law kBoxLaw[] = {Law::Peaked, Law::Thermal, Law::Quantum};
const Law kSphereLaw[] = {Law::Thermal, Law::Quantum, Law::ES,
                          Law::M1,      Law::M2,      Law::Massive};
// one of them as a density of the momentum
std::function<double(double)> density(Law law, double T, double m, double mu,
                                      double stat) {
  return [=](double p) {
    const double e = std::sqrt(p * p + m * m), x = e / T;
    switch (law) {
      case Law::Thermal:
        return p * p * std::exp(-(e - m) / T);
      case Law::Quantum:
        return p * p / (std::exp((e - mu) / T) + stat);
      case Law::ES:
        return p * p * p * std::exp(-4 * p / (3 * T));
      case Law::M1:
        return p * e * std::exp(-x) *
               (3. / 20 * x * x - 6. / 5 * x + 14. / 5);
      case Law::M2:
        return p * e * std::exp(-x) *
               (.75 + x * x / 8 - x * x * x / 30 + x * x * x * x / 480);
      default:
        return p * p * p * std::exp(-(e - m) / T);
    }
  };
}
struct System {
  bool box;
  Law law;
  double size, T, t0, flow = -1, power = 1;
  bool widths = false, spin = false, jet = false, back = false;
  double jet_mom = 20, separation = 0.01;
  ThreeVector jet_pos;
  std::string jet_pdg;
  int testparticles = 1;
  double volume() const {
    return box ? size * size * size : 4. / 3 * M_PI * size * size * size;
  }
};
std::string num(double x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
System make(pbt::Case &c) {
  System s;
  s.box = c.flip();
  s.law = s.box ? kBoxLaw[c.below(3)] : kSphereLaw[c.below(6)];
  s.size = c.logreal(1, 30);
  s.T = c.logreal(0.03, 0.5);
  s.t0 = c.flip() ? 0 : c.real(-5, 20);
  s.spin = c.below(3) == 0;
  if (!s.box && c.flip()) {
    s.flow = c.real(0.05, 0.8);
    s.power = std::array<double, 4>{1, 0, 2, 0.5}[c.below(4)];
  }
  if (c.below(3) == 0) {
    static const char *codes[] = {"211", "-211", "111", "2212", "2224",
                                  "-321", "3122", "-2112"};
    s.jet = true;
    s.jet_pdg = codes[c.below(8)];
    s.jet_mom = c.flip() ? 20 : c.logreal(0.1, 100);
    if (!s.box) {
      s.back = c.flip();
      s.separation = c.flip() ? 0.01 : c.real(0, 5);
      if (c.flip())
        s.jet_pos = ThreeVector(c.real(-3, 3), c.real(-3, 3), c.real(-3, 3));
    }
  }
  return s;
}
// what the user writes; `more` are the multiplicities
std::string yaml(const System &s, const std::string &more) {
  std::ostringstream o;
  o.precision(17);
  o << (s.box ? "Box" : "Sphere") << ":\n";
  o << (s.box ? "  Length: " : "  Radius: ") << s.size << "\n";
  o << "  Temperature: " << s.T << "\n  Start_Time: " << s.t0 << "\n" << more;
  for (int i = 0; i < 6; i++) {
    if (s.box && i < 3 && kBoxLaw[i] == s.law)
      o << "  Initial_Condition: \"" << kBox[i] << "\"\n";
    if (!s.box && kSphereLaw[i] == s.law && i > 0)
      o << "  Initial_Condition: \"" << kSphere[i] << "\"\n";
  }
  if (!s.widths) o << "  Account_Resonance_Widths: False\n";
  if (s.flow > 0) o << "  Add_Radial_Velocity: " << s.flow << "\n";
  if (s.power != 1) o << "  Add_Radial_Velocity_Exponent: " << s.power << "\n";
  if (s.jet) {
    o << "  Jet:\n    Jet_PDG: " << s.jet_pdg << "\n";
    if (s.jet_mom != 20) o << "    Jet_Momentum: " << s.jet_mom << "\n";
    if (s.jet_pos.abs() > 0)
      o << "    Jet_Position: [" << s.jet_pos[0] << ", " << s.jet_pos[1] << ", "
        << s.jet_pos[2] << "]\n";
    if (s.back) {
      o << "    Back_To_Back: True\n";
      if (s.separation != 0.01)
        o << "    Back_To_Back_Separation: " << s.separation << "\n";
    }
  }
  return "Modi:\n  " + [](std::string x) {
    std::string y;
    for (char k : x) {
      y += k;
      if (k == '\n') y += "  ";
    }
    return y;
  }(o.str()) + "\n";
}
ExperimentParameters params(const System &s, double lifetime = 1) {
  kit::Params p;
  p.testparticles = s.testparticles;
  p.lifetime = lifetime;
  if (s.box) p.box = s.size;
  p.spin = s.spin ? SpinInteractionType::On : SpinInteractionType::Off;
  return p.make();
}
// events of the configuration
std::vector<ParticleList> run(pbt::Case &c, const System &s,
                              const std::string &text, int n,
                              double lifetime = 1) {
  std::vector<ParticleList> r;
  auto conf = kit::config(text);
  const auto par = params(s, lifetime);
  auto loop = [&](auto &modus) {
    for (int i = 0; i < n; i++) {
      Particles list;
      const double t = modus.initial_conditions(&list, par);
      PBT_CHECK(c, t == s.t0, "start at " << t << ", not " << s.t0);
      r.push_back(list.copy_to_vector());
    }
  };
  if (s.box) {
    BoxModus modus(std::move(conf), par);
    PBT_CHECK(c, modus.length() == s.size && modus.is_box(), "length");
    loop(modus);
  } else {
    SphereModus modus(std::move(conf), par);
    PBT_CHECK(c, modus.radius() == s.size && modus.is_sphere(), "radius");
    loop(modus);
  }
  return r;
}
void jets(pbt::Case &c, const System &s, const ParticleList &list, size_t n) {
  if (!s.jet) return;
  const PdgCode pdg(s.jet_pdg);
  for (size_t i = 0; i < (s.back ? 2 : 1); i++) {
    const auto &p = list[n + i];
    const double sign = i == 0 ? 1 : -1;
    PdgCode want = pdg;
    if (i == 1 && pdg.has_antiparticle()) want = pdg.get_antiparticle();
    PBT_CHECK(c, p.pdgcode() == want, "jet of " << p.type().name());
    const double m = p.type().mass();
    PBT_CHECK(c, (p.momentum().threevec() - ThreeVector(sign * s.jet_mom, 0, 0))
                         .abs() < 1e-12 * s.jet_mom,
              "momentum of the jet " << kit::show(p.momentum()));
    PBT_CLOSE(c, p.momentum().x0(), std::sqrt(m * m + s.jet_mom * s.jet_mom),
              1e-12, 0, "energy of the jet");
    ThreeVector at = s.box ? ThreeVector(s.size / 2, s.size / 2, s.size / 2)
                           : s.jet_pos;
    if (s.back) at += ThreeVector(sign * s.separation / 2, 0, 0);
    PBT_CHECK(c, (p.position().threevec() - at).abs() < 1e-12 * (1 + at.abs()),
              "position of the jet " << kit::show(p.position()));
  }
}
// what holds for all particles of an event; the number without jets
void common(pbt::Case &c, const System &s, const ParticleList &list, size_t n) {
  const size_t nj = s.jet ? (s.back ? 2 : 1) : 0;
  PBT_CHECK(c, list.size() == n + nj,
            list.size() << " particles, not " << n + nj);
  std::vector<int> ids;
  ThreeVector sum;
  double scale = 0;
  for (size_t i = 0; i < list.size(); i++) {
    const auto &p = list[i];
    ids.push_back(p.id());
    const ThreeVector r = p.position().threevec();
    PBT_CHECK(c, p.position().x0() == s.t0 && p.formation_time() == s.t0,
              "time " << p.position().x0() << ", formation time "
                      << p.formation_time());
    const FourVector spin = p.spin_vector();
    if (s.spin) {
      if (p.type().spin() == 0 || p.type().mass() == 0) {
        PBT_CHECK(c, spin == FourVector(), "spin vector of "
                                               << p.type().name() << " "
                                               << kit::show(spin));
      } else {
        PBT_CHECK(c, std::isfinite(spin.x0()) && spin.threevec().abs() > 0,
                  "particle " << i << " of " << list.size() << ", "
                              << p.type().name() << ", has the spin vector "
                              << kit::show(spin));
        PBT_CLOSE(c, spin.Dot(p.momentum()), 0, 0,
                  1e-7 * spin.threevec().abs() * p.momentum().x0(),
                  "spin vector not orthogonal to the momentum");
      }
    } else {
      PBT_CHECK(c, std::isnan(spin.x0()), "spin vector without spins");
    }
    if (i >= n) continue;
    sum += p.momentum().threevec();
    scale += p.momentum().x0();
    if (s.box)
      PBT_CHECK(c, r.x1() >= 0 && r.x1() < s.size && r.x2() >= 0 &&
                       r.x2() < s.size && r.x3() >= 0 && r.x3() < s.size,
                "particle outside of the box: " << kit::show(r));
    else
      PBT_CHECK(c, r.abs() <= s.size * (1 + 1e-12),
                "particle outside of the sphere: " << kit::show(r));
    if (!s.widths || p.type().is_stable())
      PBT_CLOSE(c, p.momentum().sqr(), std::pow(p.type().mass(), 2), 0,
                1e-12 + 1e-10 * std::pow(p.momentum().x0(), 2),
                "mass shell");
  }
  PBT_CHECK(c, sum.abs() < 1e-10 * (1 + scale),
            "total momentum " << kit::show(sum));
  std::sort(ids.begin(), ids.end());
  PBT_CHECK(c, std::unique(ids.begin(), ids.end()) == ids.end(),
            "particles with the same id");
  jets(c, s, list, n);
}
std::map<PdgCode, int> count(const ParticleList &l, size_t n) {
  std::map<PdgCode, int> r;
  for (size_t i = 0; i < n; i++) r[l[i].pdgcode()]++;
  return r;
}
void uniform(pbt::Case &c, const std::vector<double> &v, double a, double b,
             const std::string &what, double slack = 0) {
  const double d = stat_::ks(v, [=](double x) {
    return std::clamp((x - a) / (b - a), 0., 1.);
  });
  PBT_CHECK(c, d < stat_::ks_limit(v.size()) + slack,
            what << ": KS distance " << d << " for " << v.size());
}
// Poisson: 2 exp(-22) bound on the tails
double poisson_surprise(double k, double mean) {
  if (mean <= 0) return k > 0 ? 1e300 : 0;
  return (k > 0 ? k * std::log(k / mean) : 0) - (k - mean);
}
// signs are independent
void sign(pbt::Case &c, int plus, int n, const std::string &what) {
  PBT_CHECK(c, stat_::count_surprise(plus, n, 0.5) < stat_::kSurprise,
            what << ": " << plus << " of " << n);
}
const char *const kCodes[] = {"211",  "-211",  "111",  "2212", "-2112", "321",
                              "3122", "2224",  "113",  "331",  "421",   "22"};
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_reduced({"Δ", "ρ", "N(1440)", "Λ", "D", "γ", "x"},
                    "x 0. 0. - 331\n");
}
void reset_case(uint64_t) {}
}  // namespace pbt

// numbers, charges, ranges, total momentum and jets of any initial state
PBT_PROP(events, 400, 20000) {
  System s = make(c);
  if (s.law == Law::Quantum) s.law = Law::Thermal;
  s.testparticles = c.flip() ? 1 : 1 + static_cast<int>(c.below(5));
  std::map<PdgCode, int> want;
  std::ostringstream o;
  o << "  Init_Multiplicities:\n";
  const size_t kinds = 1 + c.below(5);
  size_t total = 0;
  for (size_t i = 0; i < kinds; i++) {
    // the distributions of the mesons of an expanding universe are massless
    const PdgCode pdg(s.law == Law::M1 || s.law == Law::M2
                          ? (c.flip() ? "331" : "22")
                          : kCodes[c.below(12)]);
    if (want.count(pdg)) continue;
    const int n = static_cast<int>(c.below(3) == 0 ? c.below(60) : c.below(4));
    o << "    " << pdg.string() << ": " << n << "\n";
    if (n > 0) want[pdg] = n * s.testparticles;
    else want[pdg];
    total += n * s.testparticles;
  }
  const int events = 1 + static_cast<int>(c.below(3));
  kit::seed(c.seed32());
  const auto text = yaml(s, o.str());
  c.note() << text << "testparticles " << s.testparticles;
  c.nontrivial(total > 1);
  for (const auto &list : run(c, s, text, events)) {
    common(c, s, list, total);
    auto have = count(list, total);
    for (const auto &x : want)
      PBT_CHECK(c, have[x.first] == x.second,
                have[x.first] << " particles " << x.first << ", not "
                              << x.second);
  }
}

// thermal multiplicities
PBT_PROP(multiplicities, 100, 3000) {
  System s = make(c);
  if (s.law == Law::Quantum || s.law == Law::M1 || s.law == Law::M2)
    s.law = Law::Thermal;
  s.T = c.real(0.1, 0.25);
  s.testparticles = c.flip() ? 1 : 1 + static_cast<int>(c.below(5));
  s.widths = c.below(4) == 0;
  const double mub = c.flip() ? 0 : c.real(-0.4, 0.4),
               mus = c.flip() ? 0 : c.real(-0.2, 0.2),
               muq = c.flip() ? 0 : c.real(-0.1, 0.1);
  const double lifetime = s.box && c.flip() ? c.real(0, 3) : 1;
  const double hf = !s.box && c.flip() ? c.logreal(0.1, 100) : 0;
  // some 100 particles
  std::map<PdgCode, double> want;
  double sum = 0;
  for (const auto &t : ParticleType::list_all()) {
    const bool heavy = t.pdgcode().is_heavy_flavor();
    double f = HadronGasEos::is_eos_particle(t) ? 1 : 0;
    if (heavy) f = hf;
    if (!t.is_hadron()) f = 0;
    if (!t.is_stable()) f *= lifetime;
    if (f == 0) continue;
    const double n = f * s.testparticles *
                     HadronGasEos::partial_density(t, s.T, mub, mus, muq,
                                                   s.widths);
    want[t.pdgcode()] = n;
    sum += n;
  }
  s.size = std::cbrt(c.real(5, 200) / sum);
  std::ostringstream o;
  o << "  Use_Thermal_Multiplicities: True\n";
  if (mub != 0) o << "  Baryon_Chemical_Potential: " << num(mub) << "\n";
  if (mus != 0) o << "  Strange_Chemical_Potential: " << num(mus) << "\n";
  if (muq != 0) o << "  Charge_Chemical_Potential: " << num(muq) << "\n";
  if (hf > 0) o << "  Heavy_Flavor_Multiplier: " << num(hf) << "\n";
  const auto text = yaml(s, o.str());
  c.note() << text << "testparticles " << s.testparticles
           << ", lifetime factor " << lifetime;
  kit::seed(c.seed32());
  c.nontrivial(mub != 0 || hf > 0 || lifetime != 1);
  const int events = 60;
  const size_t nj = s.jet ? (s.back ? 2 : 1) : 0;
  std::map<PdgCode, int> have;
  std::vector<double> number;
  double mean = 0;
  for (const auto &list : run(c, s, text, events, lifetime)) {
    PBT_CHECK(c, list.size() >= nj, "no jets");
    const size_t n = list.size() - nj;
    if (n > 1) common(c, s, list, n);
    for (const auto &x : count(list, n)) have[x.first] += x.second;
    number.push_back(static_cast<double>(n));
    mean += static_cast<double>(n) / events;
  }
  for (const auto &x : have)
    PBT_CHECK(c, want.count(x.first),
              x.second << " particles " << x.first << " which do not belong to "
                       << "the gas");
  for (const auto &x : want) {
    const double m = x.second * s.volume() * events;
    PBT_CHECK(c, poisson_surprise(have[x.first], m) < stat_::kSurprise,
              have[x.first] << " particles " << x.first << ", expected " << m);
  }
  // chi squared of the total: beyond 1e-9 for 59 degrees of freedom
  double var = 0;
  for (double x : number) var += (x - mean) * (x - mean);
  var /= mean;
  PBT_CHECK(c, var > 15 && var < 170,
            "fluctuations of the number: " << var << " instead of 59");
}

// momenta and positions of many particles of a species
PBT_PROP(distributions, 100, 2500) {
  System s = make(c);
  s.T = c.logreal(0.05, 0.4);
  s.widths = s.law == Law::Thermal && c.below(3) == 0;
  // the momenta of the other distributions are for massless particles
  const bool light = s.law == Law::M1 || s.law == Law::M2;
  const PdgCode pdg(light ? "331" : kCodes[c.below(11)]);
  const ParticleType &type = ParticleType::find(pdg);
  const double m = type.mass(), g = pdg.spin_degeneracy();
  const bool broad = s.widths && !type.is_stable();
  const int number = broad ? 300 : 2500;
  const double stat = pdg.spin() % 2 == 0 ? -1. : 1.;
  double mu = 0;
  if (s.law == Law::Quantum) {
    if (m == 0) c.discard();
    // the volume for a given chemical potential
    mu = m - s.T * c.logreal(0.2, 5);
    if (stat > 0 && c.flip()) mu = m + 2 * s.T;
    const double top = 60 * s.T + 8 * std::sqrt(m * s.T);
    const double n =
        g / (2 * M_PI * M_PI) *
        stat_::Cdf(density(s.law, s.T, m, mu, stat), 0., top, 4000).norm() /
        std::pow(hbarc, 3);
    s.size = std::cbrt(number / n / (s.box ? 1 : 4. / 3 * M_PI));
    if (n < 1e-4) c.discard();  // the precision of the solver
  }
  std::ostringstream o;
  o << "  Init_Multiplicities:\n    " << pdg.string() << ": " << number << "\n";
  const auto text = yaml(s, o.str());
  c.note() << text;
  kit::seed(c.seed32());
  const auto list = run(c, s, text, 1)[0];
  const size_t n = number;
  common(c, s, list, n);
  c.nontrivial(true);
  c.label(s.law == Law::Peaked    ? "peaked"
          : s.law == Law::Thermal ? "thermal"
          : s.law == Law::Quantum ? "quantum"
          : s.law == Law::ES      ? "ES"
          : s.law == Law::M1      ? "1M"
          : s.law == Law::M2      ? "2M"
                                  : "massive");
  std::vector<double> x[3], p, ct, phi, pt, mass;
  int corr[3] = {0, 0, 0};
  // distributions of the momenta for every mass
  const double top = 60 * s.T + 8 * std::sqrt(m * s.T);
  stat_::Cdf F(density(s.law == Law::Peaked ? Law::Thermal : s.law, s.T, m, mu,
                       stat),
               0., top, 20000);
  for (size_t i = 0; i < n; i++) {
    const ThreeVector r = list[i].position().threevec();
    FourVector k = list[i].momentum();
    if (s.box) {
      for (int d = 0; d < 3; d++) x[d].push_back(r[d] / s.size);
    } else {
      x[0].push_back(std::pow(r.abs() / s.size, 3));
      x[1].push_back(0.5 + 0.5 * r.x3() / r.abs());
      x[2].push_back(0.5 + std::atan2(r.x2(), r.x1()) / (2 * M_PI));
      if (s.flow > 0) {
        const ThreeVector u =
            r * (s.flow * std::pow(r.abs() / s.size, s.power) / r.abs());
        k = k.lorentz_boost(u);
      }
    }
    const ThreeVector q = k.threevec();
    const double mid = s.box ? s.size / 2 : 0;
    for (int d = 0; d < 3; d++) corr[d] += (r[d] > mid) == (q[d] > 0);
    if (broad) {
      const double mi = list[i].effective_mass();
      PBT_CHECK(c, mi > type.min_mass_spectral() - 1e-6,
                "mass " << mi << " of " << type.name());
      mass.push_back(mi);
      stat_::Cdf Fm(density(s.law, s.T, mi, 0, 0), 0., top, 300);
      p.push_back(Fm(q.abs()));
    } else {
      p.push_back(F(q.abs()));
    }
    ct.push_back(0.5 + 0.5 * q.x3() / q.abs());
    phi.push_back(0.5 + std::atan2(q.x2(), q.x1()) / (2 * M_PI));
  }
  for (int d = 0; d < 3; d++)
    uniform(c, x[d], 0, 1, "position, variable " + std::to_string(d));
  // The total momentum has been distributed over all particles.
  const double slack = s.flow > 0 ? 0.02 : 0.01;
  uniform(c, ct, 0, 1, "cosine of the polar angle of the momentum", slack);
  uniform(c, phi, 0, 1, "azimuthal angle of the momentum", slack);
  for (int d = 0; d < 3; d++) sign(c, corr[d], number, "sign of momenta");
  if (s.law != Law::Peaked) {
    uniform(c, p, 0, 1, "absolute momentum", slack);
  } else {
    // all momenta lie on a shifted sphere of the radius 3 T: solve for the
    // shift from four of them
    double a[3][4];
    const ThreeVector k0 = list[0].momentum().threevec();
    for (size_t i = 0; i < 3; i++) {
      const ThreeVector k = list[i + 1].momentum().threevec();
      for (int d = 0; d < 3; d++) a[i][d] = 2 * (k[d] - k0[d]);
      a[i][3] = k0.sqr() - k.sqr();
    }
    for (int i = 0; i < 3; i++) {
      int best = i;
      for (int j = i; j < 3; j++)
        if (std::abs(a[j][i]) > std::abs(a[best][i])) best = j;
      std::swap(a[i], a[best]);
      for (int j = 0; j < 3; j++) {
        if (j == i) continue;
        const double f = a[j][i] / a[i][i];
        for (int d = i; d < 4; d++) a[j][d] -= f * a[i][d];
      }
    }
    const ThreeVector d(a[0][3] / a[0][0], a[1][3] / a[1][1],
                        a[2][3] / a[2][2]);
    if (std::abs(a[2][2]) > 1e-2 * s.T)
      for (size_t i = 0; i < n; i++)
        PBT_CLOSE(c, (list[i].momentum().threevec() + d).abs(), 3 * s.T, 1e-6,
                  0, "momentum");
  }
  if (broad) {
    stat_::Cdf M(
        [&](double y) {
          if (y <= type.min_mass_spectral()) return 0.;
          return type.spectral_function(y) * y * y *
                 std::cyl_bessel_k(2., y / s.T);
        },
        type.min_mass_spectral(), 3., 6000);
    std::vector<double> v;
    for (double y : mass) v.push_back(M(y));
    uniform(c, v, 0, 1, "masses", 0.01);
    c.label("masses");
  }
}

namespace {
class Recorder : public OutputInterface {
 public:
  std::vector<std::pair<ParticleList, ParticleList>> walls;
  bool other = false;
  explicit Recorder(const std::string &name) : OutputInterface(name) {}
  void at_interaction(const Action &a, const double) override {
    walls.emplace_back(a.incoming_particles(), a.outgoing_particles());
    if (a.get_type() != ProcessType::Wall) other = true;
  }
};
}  // namespace

// particles which leave the box enter it on the other side
PBT_PROP(walls, 300, 20000) {
  System s = make(c);
  s.box = true;
  s.law = Law::Thermal;
  s.flow = -1;
  s.power = 1;
  s.jet = false;
  const auto par = params(s);
  const double after = c.flip() ? -1 : c.real(0, 100);
  std::ostringstream o;
  o << "  Init_Multiplicities:\n    211: 1\n";
  if (after >= 0) o << "  Equilibration_Time: " << num(after) << "\n";
  BoxModus modus(kit::config(yaml(s, o.str())), par);
  PBT_CHECK(c, modus.equilibration_time() == after,
            "equilibration time " << modus.equilibration_time());
  const double far = c.real(0, 0.9) * s.size;
  PBT_CLOSE(c, modus.max_timestep(far * far),
            0.5 * std::sqrt(s.size * s.size - far * far), 1e-12, 0,
            "longest time step");
  Particles list;
  const size_t n = c.below(12);
  ParticleList before;
  c.note() << "length " << s.size;
  int outside = 0;
  for (size_t i = 0; i < n; i++) {
    ParticleData p{ParticleType::find(PdgCode(kCodes[c.below(11)]))};
    p.set_4momentum(p.type().mass(), kit::momentum3(c, 2));
    double x[3];
    bool out = false;
    for (double &v : x) {
      v = c.below(3) == 0 ? c.real(-0.99, 1.99) * s.size : c.real(0.01, 0.99) * s.size;
      // not at a wall, where rounding decides
      const double f = v / s.size - std::floor(v / s.size);
      if (f < 1e-9 || f > 1 - 1e-9) v = s.size / 2;
      out = out || v < 0 || v >= s.size;
    }
    outside += out;
    p.set_4position(FourVector(s.t0, x[0], x[1], x[2]));
    p.set_formation_time(s.t0);
    c.note() << "\n" << kit::show(p.position());
    before.push_back(list.insert(p));
  }
  c.nontrivial(outside > 0);
  auto rec = std::make_unique<Recorder>("Collisions"),
       dil = std::make_unique<Recorder>("Dileptons"),
       pho = std::make_unique<Recorder>("Photons");
  Recorder &R = *rec, &D = *dil, &P = *pho;
  OutputsList outputs;
  outputs.emplace_back(std::move(dil));
  outputs.emplace_back(std::move(rec));
  outputs.emplace_back(std::move(pho));
  const int wraps = modus.impose_boundary_conditions(&list, outputs);
  PBT_CHECK(c, wraps == outside,
            wraps << " wall crossings, " << outside << " particles outside");
  PBT_CHECK(c, R.walls.size() == static_cast<size_t>(outside) && !R.other &&
                   D.walls.empty() && P.walls.empty(),
            R.walls.size() << " in the output of collisions, "
                           << D.walls.size() + P.walls.size() << " in others");
  const auto now = list.copy_to_vector();
  PBT_CHECK(c, now.size() == n, "number of particles");
  size_t w = 0;
  for (size_t i = 0; i < n; i++) {
    const auto &a = before[i], &b = now[i];
    const ThreeVector r = a.position().threevec(), q = b.position().threevec();
    bool out = false;
    PBT_CHECK(c, a.id() == b.id() && a.pdgcode() == b.pdgcode() &&
                     a.momentum() == b.momentum() &&
                     b.position().x0() == s.t0,
              "particle " << i << " changed");
    for (int d = 0; d < 3; d++) {
      out = out || r[d] < 0 || r[d] >= s.size;
      const double turns = (q[d] - r[d]) / s.size;
      PBT_CHECK(c, q[d] >= 0 && q[d] < s.size &&
                       std::abs(turns - std::round(turns)) < 1e-9,
                kit::show(r) << " moved to " << kit::show(q));
      if (r[d] >= 0 && r[d] < s.size)
        PBT_CHECK(c, r[d] == q[d], kit::show(r) << " moved to "
                                                << kit::show(q));
    }
    if (!out) continue;
    const auto &x = R.walls[w++];
    PBT_CHECK(c, x.first.size() == 1 && x.second.size() == 1 &&
                     x.first[0].id() == a.id() && x.second[0].id() == a.id() &&
                     x.first[0].position() == a.position() &&
                     x.second[0].position() == b.position() &&
                     x.first[0].momentum() == a.momentum() &&
                     x.second[0].momentum() == a.momentum(),
              "wall crossing of particle " << i);
  }
}

// configurations which make no sense
PBT_PROP(refused, 150, 3000) {
  System s = make(c);
  if (s.law == Law::Quantum) s.law = Law::Thermal;
  std::string more = "  Init_Multiplicities:\n    211: 2\n", what;
  double length = s.size, life = 1;
  switch (c.below(8)) {
    case 0:
      if (s.box) {
        what = "another length";
        length *= 1.5;
      } else {
        what = "flow faster than light";
        s.flow = 1 + c.logreal(1e-6, 1);
      }
      break;
    case 1:
      s.law = Law::Quantum;
      more = "  Use_Thermal_Multiplicities: True\n";
      what = "quantum distribution with thermal multiplicities";
      break;
    case 2:
      s.jet = false;
      more += "  Jet:\n    Jet_Momentum: 3\n";
      what = "a jet of no species";
      break;
    case 3:
      more = "";
      what = "no multiplicities";
      break;
    case 4:
      if (s.box) {
        life = -c.logreal(1e-3, 1);
        what = "negative lifetimes";
      } else {
        s.power = -c.logreal(1e-3, 1);
        s.flow = 0.3;
        what = "negative exponent";
      }
      break;
    case 5:
      if (s.box) return;
      s.jet = true;
      s.jet_pdg = "211";
      s.back = false;
      s.jet_mom = 20;
      s.jet_pos = ThreeVector();
      more += "  Jet:\n    Jet_PDG: 211\n    Back_To_Back_Separation: 1\n";
      s.jet = false;
      what = "separation of a single jet";
      break;
    case 6:
      if (s.box) return;
      s.T = -c.real(0, 1);
      what = "negative temperature";
      break;
    default: {
      c.nontrivial(true);
      c.label("unknown distribution");
      const std::string text(
          std::string("Modi:\n  ") + (s.box ? "Box" : "Sphere") + ":\n    " +
          (s.box ? "Length" : "Radius") + ": 5\n    Temperature: 0.2\n"
          "    Start_Time: 0\n    Init_Multiplicities:\n      211: 2\n"
          "    Initial_Condition: \"" +
          (s.box ? "IC_ES" : "peaked momenta") + "\"\n");
      bool thrown = false;
      try {
        auto copy = kit::config(text);
        s.size = 5;
        const auto par = params(s);
        if (s.box)
          BoxModus modus(std::move(copy), par);
        else
          SphereModus modus(std::move(copy), par);
      } catch (const std::exception &) {
        thrown = true;
      }
      PBT_CHECK(c, thrown, "unknown distribution accepted");
      return;
    }
  }
  c.nontrivial(true);
  c.label(what);
  const auto text = yaml(s, more);
  c.note() << text;
  const double size = s.size;
  s.size = length;
  const auto par = params(s, life);
  s.size = size;
  bool thrown = false;
  try {
    auto conf = kit::config(text);
    try {
      if (s.box)
        BoxModus modus(std::move(conf), par);
      else
        SphereModus modus(std::move(conf), par);
    } catch (...) {
      conf.clear();
      throw;
    }
  } catch (const std::exception &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown, what << " accepted");
}

PBT_MAIN
