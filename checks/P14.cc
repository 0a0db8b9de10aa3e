// P14: what comes out of a two-particle scattering.
#include <algorithm>
#include <map>

#include "collide.h"
#include "smash/constants.h"
#include "smash/isoparticletype.h"
#include "smash/kinematics.h"
#include "smash/quantumnumbers.h"
#include "smash/scatteraction.h"
#include "smashkit.h"

using namespace smash;
using kit::Setting;

namespace {
ParticleTypePtrList &pool() {
  static ParticleTypePtrList l;
  if (l.empty())
    for (const auto &t : ParticleType::list_all())
      if (t.is_hadron() || t.is_nucleus()) l.push_back(&t);
  return l;
}
ParticleTypePtr find(int pdg) {
  return &ParticleType::find(PdgCode::from_decimal(pdg));
}
ParticleTypePtr pick_species(pbt::Case &c) {
  if (c.chance(0.7))
    return find(c.one_of<int>(
        {211, -211, 111, 2212, 2112, -2212, -2112, 321, 311, -321, -311, 3122,
         3222, 3212, 3112, -3122, 2224, 2214, 2114, 1114, -2214, 411, -421}));
  return pool()[c.below(pool().size())];
}
double mass(pbt::Case &c, ParticleTypePtr t) {
  if (t->is_stable() || c.below(3) == 0) return t->mass();
  const double lo = t->min_mass_kinematic();
  return c.uniform(lo + 1e-3,
                   std::max(lo + 2e-3, t->mass() + 2 * t->width_at_pole()));
}
// two particles at given sqrt(s), boosted to some frame, in random order
std::pair<ParticleData, ParticleData> incoming(pbt::Case &c, ParticleTypePtr x,
                                               ParticleTypePtr y, double mx,
                                               double my, double sqrts,
                                               double vmax = 0.95) {
  const double p = smash::pCM(sqrts, mx, my);
  const ThreeVector d = kit::direction(c);
  ParticleData a{*x}, b{*y};
  a.set_4momentum(mx, d * p);
  b.set_4momentum(my, d * (-p));
  if (c.flip()) {
    const ThreeVector v = kit::direction(c) * c.uniform(0., vmax);
    a.boost_momentum(v);
    b.boost_momentum(v);
  }
  const double t = c.uniform(0., 20.);
  int id = static_cast<int>(c.below(100));
  for (auto q : {&a, &b}) {
    q->set_4position(FourVector(t, kit::position3(c, 5.)));
    q->set_formation_time(t - 1.);
    q->set_id(id++);
  }
  return {a, b};
}
Setting setting(pbt::Case &c) {
  Setting s;
  if (c.flip()) s.p.two_to_two = ReactionsBitSet(c.below(1024));
  s.p.two_to_one = !c.chance(0.25);
  s.p.nnbar = c.one_of<NNbarTreatment>(
      {NNbarTreatment::NoAnnihilation, NNbarTreatment::Resonances,
       NNbarTreatment::TwoToFive});
  if (c.flip())
    s.p.multi = MultiParticleReactionsBitSet(c.below(1 << s.p.multi.size()));
  if (c.chance(0.2)) s.elastic = c.uniform(0.1, 50.);
  return s;
}
std::string name(ParticleTypePtrList l) {
  std::vector<std::string> n;
  for (auto t : l) n.push_back(t->name());
  std::sort(n.begin(), n.end());
  std::string r;
  for (auto &x : n) r += (r.empty() ? "" : " ") + x;
  return r;
}
template <class L>
std::string state(ProcessType t, const L &l) {
  ParticleTypePtrList v;
  for (auto &p : l) v.push_back(&p.type());
  return (t == ProcessType::Elastic ? "el: " : "") + name(v);
}
std::string state(const CollisionBranch &b) {
  ParticleTypePtrList v;
  for (auto t : b.particle_types()) v.push_back(&*t);
  return (b.get_type() == ProcessType::Elastic ? "el: " : "") + name(v);
}
double ks(std::vector<double> u) {
  std::sort(u.begin(), u.end());
  double d = 0.;
  const double n = u.size();
  for (size_t i = 0; i < u.size(); i++)
    d = std::max({d, std::fabs(u[i] - i / n), std::fabs(u[i] - (i + 1) / n)});
  return d * std::sqrt(n);
}
// direction of the first outgoing particle in the c.m. frame: cosine of the
// angle to the first incoming one, and azimuth around it
struct Dir {
  double cost, phi;
};
Dir angles(const ParticleData &in, const ParticleData &out,
           const FourVector &total) {
  const ThreeVector v = total.velocity();
  const ThreeVector a = in.momentum().lorentz_boost(v).threevec(),
                    b = out.momentum().lorentz_boost(v).threevec();
  const ThreeVector z = a / a.abs();
  ThreeVector e = std::fabs(z.x1()) < 0.7 ? ThreeVector(1, 0, 0)
                                          : ThreeVector(0, 1, 0);
  ThreeVector x = e - z * (e * z);
  x = x / x.abs();
  const ThreeVector y = z.cross_product(x);
  return {a * b / a.abs() / b.abs(), std::atan2(b * y, b * x)};
}
// Published parametrizations of the elastic slope (Cugnon et al. 1996, STAR
// 2020).
double lab(double s, double m) {  // beam momentum for equal masses on target
  const double e = (s - 2 * m * m) / (2 * m);
  return std::sqrt(std::max(0., e * e - m * m));
}
double slope_pp(double p) {
  if (p < 2.) {
    const double x = std::pow(p, 8);
    return 5.5 * x / (7.7 + x);
  }
  const double m = nucleon_mass, s = 2 * m * (m + std::hypot(p, m));
  return std::min(7.6 + 0.66 * std::log(s), 5.334 + 0.67 * (p - 2.));
}
double slope_np(double p) {
  if (p < 0.225) return 0.;
  if (p < 0.6) return 16.53 * (p - 0.225);
  if (p < 1.6) return -1.63 * p + 7.16;
  return slope_pp(p);
}
// CDF of cos(theta) for dN/dt ~ exp(b t) + a exp(b u), with t from -4 p p'
// (relative) to 0
double cdf(double x, double b, double a, double w) {
  // w = |t range|; t - t_min = w (1 - x) / 2 below the maximum
  auto f = [&](double y) {  // fraction with cos(theta) < y from exp(b t)
    const double k = b * w;
    if (k < 1e-4) return (1. + y) / 2.;
    return (std::exp(-k * (1. - y) / 2.) - std::exp(-k)) /
           (1. - std::exp(-k));
  };
  return (f(x) + a * (1. - f(-x))) / (1. + a);
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  std::vector<std::string> names = {
      "η",       "σ",       "ρ",       "ω",       "φ",       "h₁(1170)",
      "K*(892)", "N(1440)", "N(1535)", "N(1520)", "N(1680)", "Δ",
      "Δ(1620)", "Δ(1700)", "Λ",       "Σ",       "Ξ",       "Ω⁻",
      "Λ(1520)", "Σ(1385)", "Ξ(1530)", "d",       "d'",      "t",
      "He3",     "H3L",     "D",       "D*(2007)"};
  const auto all = kit::default_multiplets();
  uint64_t s = pbt::options().seed;
  for (int i = 0; i < 4; i++)
    names.push_back(all[pbt::splitmix(s) % all.size()]);
  kit::load_reduced(names,
                    "d 1.8756 0 + 1000010020\n"
                    "t 2.8089 0 + 1000010030\n"
                    "He3 2.8084 0 + 1000020030\n"
                    "H3L 2.9934 0 + 1010010030\n"
                    "d' 1.8856 0.100 - 1000010021\n",
                    "d'\n1. 1 N N\n");
  auto *buf = std::cout.rdbuf(nullptr);
  IsoParticleType::tabulate_integrals(sha256::Hash{}, "");
  std::cout.rdbuf(buf);
}
void pbt::reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }

// invariants of every generated final state
PBT_PROP(final_state, 4000, 100000) {
  auto x = pick_species(c), y = pick_species(c);
  const bool nuclear = c.below(8) == 0;
  if (nuclear) {
    const PdgCode n(c.one_of<const char *>(
        {"1000010020", "-1000010020", "1000010021", "1000010030",
         "1000020030", "-1010010030"}));
    x = &ParticleType::find(n);
    y = find(c.one_of<int>({211, -211, 111, 2212, 2112, -2212, -2112}));
  }
  const double mx = mass(c, x), my = mass(c, y);
  const double sqrts =
      mx + my + (c.flip() ? c.uniform(0.002, 1.5) : c.logreal(2e-3, 4.));
  auto pr = incoming(c, x, y, mx, my, sqrts);
  ParticleData &a = pr.first, &b = pr.second;
  const bool core = c.below(4) == 0;
  if (core) (c.flip() ? a : b).fluidize();
  if (c.below(3) == 0) {
    a.set_perturbative_weight(c.uniform(0.1, 1.));
    b.set_perturbative_weight(c.uniform(0.1, 1.));
  }
  Setting s = setting(c);
  if (nuclear && c.flip()) s.p.multi.set();
  const double t = c.uniform(0., 2.);
  const bool top = c.below(4) == 0;
  ScatterAction act(a, b, t, c.flip(), 1., -1., top);
  if (top) act.set_parametrized_total_cross_section(s.parameters());
  act.add_all_scatterings(s.parameters());
  c.note() << a.type().name() << "(" << mx << ") + " << b.type().name() << "("
           << my << "), sqrt(s) = " << sqrts << ", "
           << act.collision_channels().size() << " channels\n";
  if (act.collision_channels().empty() || !(act.cross_section() > 0.))
    c.discard();
  const FourVector p_in = a.momentum() + b.momentum();
  std::map<std::string, double> channels;
  for (auto &ch : act.collision_channels())
    channels[state(*ch)] += ch->weight();
  const FourVector where = act.get_interaction_point();
  PBT_CLOSE(c, act.time_of_execution(), a.position().x0() + t, 1e-12, 1e-12,
            "time of execution");
  for (int rep = 0; rep < 4; rep++) {
    act.generate_final_state();
    const auto &out = act.outgoing_particles();
    const auto type = act.get_type();
    const std::string what = state(type, out);
    PBT_CHECK(c, channels.count(what) && channels[what] > 0.,
              "final state " << what << " is not one of the channels");
    FourVector p_out;
    for (auto &p : out) p_out += p.momentum();
    const double tol = 1e-9 * p_in.x0() * p_in.x0() / sqrts + 1e-9;
    for (int i = 0; i < 4; i++)
      PBT_CLOSE(c, p_out[i], p_in[i], 0., 10 * tol,
                what << ": momentum component " << i);
    const QuantumNumbers q1(act.incoming_particles()), q2(out);
    PBT_CHECK(c, q1.charge() == q2.charge() &&
                     q1.baryon_number() == q2.baryon_number() &&
                     q1.strangeness() == q2.strangeness() &&
                     q1.charmness() == q2.charmness() &&
                     q1.bottomness() == q2.bottomness(),
              what << ": quantum numbers changed");
    double weight = a.perturbative_weight() * b.perturbative_weight();
    double low = 0.;
    for (auto &p : out) {
      const double m2 = p.momentum().sqr();
      const double e2 = p.momentum().x0() * p.momentum().x0();
      low += type == ProcessType::Elastic ? 0. : p.type().min_mass_kinematic();
      if (type == ProcessType::Elastic) {
        const double m = &p == &out[0] ? mx : my;
        PBT_CLOSE(c, m2, m * m, 1e-8, 1e-10 * e2 + 1e-9,
                  what << ": mass of an elastically scattered particle");
      } else if (out.size() == 1) {
        PBT_CLOSE(c, m2, sqrts * sqrts, 1e-8, 1e-10 * e2,
                  what << ": mass of the formed particle");
      } else if (p.type().is_stable()) {
        PBT_CLOSE(c, m2, p.type().mass() * p.type().mass(), 1e-8,
                  1e-10 * e2 + 1e-9, what << ": mass of " << p.type().name());
      } else {
        PBT_CHECK(c, std::sqrt(std::max(0., m2)) >
                         p.type().min_mass_kinematic() - 1e-6 - 1e-7 * e2,
                  what << ": " << p.type().name() << " below its threshold");
      }
      PBT_CHECK(c, p.momentum().x0() > 0., "negative energy");
      if (type == ProcessType::Elastic) {
        const ParticleData &o = &p == &out[0] ? a : b;
        PBT_CHECK(c, p.id() == o.id() && p.position() == o.position() &&
                         p.type() == o.type() &&
                         p.formation_time() == o.formation_time() &&
                         p.is_core() == o.is_core() &&
                         p.perturbative_weight() == o.perturbative_weight(),
                  "elastic scattering changes more than the momenta");
      } else {
        PBT_CHECK(c, p.position() == where,
                  what << ": produced at " << kit::show(p.position())
                       << ", not at the interaction point "
                       << kit::show(where));
        PBT_CHECK(c, p.is_core() == core,
                  what << ": core label " << p.is_core());
        PBT_CLOSE(c, p.perturbative_weight(),
                  p.type().pdgcode().is_heavy_flavor() ? weight : 1., 1e-12,
                  0., what << ": weight of " << p.type().name());
        PBT_CLOSE(c, p.formation_time(), act.time_of_execution(), 1e-12, 0.,
                  what << ": formation time");
      }
    }
    PBT_CHECK(c, low < sqrts + 1e-6, what << ": below its threshold");
    c.label("elastic", type == ProcessType::Elastic);
    c.label(pbt::Fmt() << "2 to " << out.size(), true);
  }
  c.nontrivial(channels.size() > 1);
}

// channels are chosen in proportion to their cross sections
PBT_PROP(branching, 250, 5000) {
  ParticleTypePtr x = find(c.one_of<int>({211, -211, 111, 2212, 2112, -2212,
                                          321, -321, 3122, 2114}));
  ParticleTypePtr y = find(c.one_of<int>({2212, 2112, -2112, 2214, 113, 3222}));
  const double mx = mass(c, x), my = mass(c, y);
  const double sqrts = mx + my + c.uniform(0.05, 1.2);
  auto pr = incoming(c, x, y, mx, my, sqrts);
  Setting s;
  s.p.nnbar = NNbarTreatment::Resonances;
  const bool top = c.below(3) == 0;
  ScatterAction act(pr.first, pr.second, 0.1, false, 1., -1., top);
  if (top) act.set_parametrized_total_cross_section(s.parameters());
  act.add_all_scatterings(s.parameters());
  std::map<std::string, std::pair<double, int>> ch;
  double sum = 0.;
  for (auto &b : act.collision_channels()) {
    ch[state(*b)].first += b->weight();
    sum += b->weight();
  }
  if (!(sum > 0.)) c.discard();
  const int n = pbt::options().thorough ? 4000 : 800;
  for (int i = 0; i < n; i++) {
    act.generate_final_state();
    const std::string k = state(act.get_type(), act.outgoing_particles());
    ch[k].second++;
    if (i < 5) {
      double w = -1.;
      for (auto &b : act.collision_channels())
        if (state(*b) == k &&
            std::fabs(b->weight() - act.get_partial_weight()) <
                1e-9 * b->weight())
          w = b->weight();
      PBT_CHECK(c, w >= 0., "partial weight " << act.get_partial_weight()
                                << " is not that of channel " << k);
      PBT_CLOSE(c, act.get_total_weight(), sum, 1e-9, 0., "total weight");
    }
  }
  c.note() << pr.first.type().name() << pr.second.type().name() << " "
           << sqrts << " GeV\n";
  for (auto &e : ch) {
    const double p = e.second.first / sum,
                 sd = std::sqrt(n * p * (1. - p));
    PBT_CHECK(c, std::fabs(e.second.second - n * p) < 7. * sd + 5.,
              e.first << " chosen " << e.second.second << " times of " << n
                      << ", expected " << n * p << " +- " << sd);
  }
  c.nontrivial(ch.size() > 2);
  c.label("top-down", top);
}

// elastic angular distribution
PBT_PROP(elastic_angles, 250, 5000) {
  const bool nn = c.flip(), isotropic = c.below(4) == 0;
  ParticleTypePtr x, y;
  if (nn) {
    x = find(c.one_of<int>({2212, 2112, -2212, -2112}));
    y = find(c.one_of<int>({2212, 2112, -2212, -2112}));
  } else {
    x = find(c.one_of<int>({211, 111, 321, -321, 3122, 2212, 113, 2224}));
    y = find(c.one_of<int>({211, -211, 2212, 2112, 3222, -3122, 2214}));
    if (x->is_nucleon() && y->is_nucleon()) c.discard();
  }
  const double mx = mass(c, x), my = mass(c, y);
  const double sqrts =
      mx + my + (c.flip() ? c.uniform(0.01, 3.) : c.logreal(1e-2, 30.));
  auto pr = incoming(c, x, y, mx, my, sqrts);
  Setting s;
  s.p.two_to_one = false;
  s.p.two_to_two = ReactionsBitSet(1);
  s.elastic = 10.;
  ScatterAction act(pr.first, pr.second, 0.1, isotropic);
  act.add_all_scatterings(s.parameters());
  const double p = smash::pCM(sqrts, mx, my), w = 4. * p * p;
  const double plab =
      nn ? lab(sqrts * sqrts, nucleon_mass)
         : lab(4. * (p * p + nucleon_mass * nucleon_mass), nucleon_mass);
  double b = slope_pp(plab), a = 1.;
  if (nn && x->baryon_number() == y->baryon_number() &&
      std::abs(x->charge() + y->charge()) == 1) {
    b = slope_np(plab);
    a = plab < 0.8 ? 1. : 0.64 / (plab * plab);
  }
  // a slope that is a discontinuous function of the momentum
  for (double edge : {0.6, 0.8, 1.6, 2.})
    if (std::fabs(plab - edge) < 1e-4) c.discard();
  b = std::max(b, 1e-6);
  const int n = pbt::options().thorough ? 20000 : 2000;
  std::vector<double> u, v;
  for (int i = 0; i < n; i++) {
    act.generate_final_state();
    PBT_CHECK(c, act.get_type() == ProcessType::Elastic, "not elastic");
    const Dir d = angles(pr.first, act.outgoing_particles()[0],
                         pr.first.momentum() + pr.second.momentum());
    u.push_back(isotropic ? (1. + d.cost) / 2. : cdf(d.cost, b, a, w));
    v.push_back((d.phi + M_PI) / (2. * M_PI));
  }
  c.note() << pr.first.type().name() << pr.second.type().name() << " "
           << sqrts << " GeV, plab " << plab << ", slope " << b << ", a " << a
           << "\n";
  const double k = ks(u), l = ks(v);
  PBT_CHECK(c, k < 3.4, "polar angles: KS " << k);
  PBT_CHECK(c, l < 3.4, "azimuths: KS " << l);
  c.nontrivial(!isotropic && b * w > 0.5);
  c.label(isotropic ? "isotropic" : nn ? "NN" : "other");
}

// inelastic angular distributions
PBT_PROP(inelastic_angles, 200, 4000) {
  const bool nn = c.below(3) != 0, isotropic = c.below(5) == 0;
  ParticleTypePtr x, y;
  if (nn) {
    const int sign = c.flip() ? 1 : -1;
    x = find(sign * c.one_of<int>({2212, 2112}));
    y = find(sign * c.one_of<int>({2212, 2112}));
  } else {
    x = find(c.one_of<int>({321, -321, 3122, 2224, 2214}));
    y = find(c.one_of<int>({2212, 2112, 2114}));
  }
  const double mx = x->mass(), my = y->mass();
  const double sqrts = mx + my + c.uniform(0.3, nn ? 2.5 : 1.);
  auto pr = incoming(c, x, y, mx, my, sqrts, 0.9);
  Setting s;
  s.p.two_to_one = false;
  s.p.two_to_two = ReactionsBitSet().set();
  s.p.two_to_two[Elastic] = 0;
  ScatterAction act(pr.first, pr.second, 0.1, isotropic);
  act.add_all_scatterings(s.parameters());
  if (act.collision_channels().empty()) c.discard();
  const int n = pbt::options().thorough ? 20000 : 3000;
  std::map<std::string, std::vector<double>> u;
  std::vector<double> v;
  const double plab = lab(sqrts * sqrts, nucleon_mass), m = nucleon_mass;
  const double pi = smash::pCM(sqrts, mx, my);
  for (int i = 0; i < n; i++) {
    act.generate_final_state();
    const auto &out = act.outgoing_particles();
    if (out.size() != 2) continue;
    const Dir d = angles(pr.first, out[0],
                         pr.first.momentum() + pr.second.momentum());
    v.push_back((d.phi + M_PI) / (2. * M_PI));
    const ParticleData *r = nullptr;  // NN -> N R
    for (int j : {0, 1})
      if (out[1 - j].type().is_nucleon() && !out[j].type().is_nucleon())
        r = &out[j];
    if (nn && r && !isotropic) {
      const double mr = r->effective_mass();
      const double pf = smash::pCM(sqrts, mr, m);
      // t range for the resonance
      const double e1 = std::hypot(pi, m), e3 = std::hypot(pf, mr);
      const double tmax = m * m + mr * mr - 2 * e1 * e3 + 2 * pi * pf,
                   tmin = m * m + mr * mr - 2 * e1 * e3 - 2 * pi * pf;
      if (r->type().pdgcode().is_Delta()) {
        u["Delta"].push_back(
            cdf(d.cost, std::max(slope_pp(plab), 1e-6), 1., tmax - tmin));
      } else {
        const double a = 1.46434 + mr * (5.80311 + mr * (-6.89358 +
                                                         mr * 1.94302));
        if (a >= 30.) continue;  // degenerate: all forward or backward
        // dN/dt ~ (-t)^-a
        auto f = [&](double cost) {  // fraction of forward branch below cost
          const double t = tmin + (tmax - tmin) * (1. + cost) / 2.;
          const double k = 1. - a;
          auto g = [&](double tt) {
            return std::fabs(k) < 1e-9 ? std::log(-tt)
                                       : std::pow(-tt / -tmax, k);
          };
          return (g(t) - g(tmin)) / (g(tmax) - g(tmin));
        };
        u["N* or Delta*"].push_back(0.5 * (f(d.cost) + 1. - f(-d.cost)));
      }
    } else {
      u["isotropic"].push_back((1. + d.cost) / 2.);
    }
  }
  if (v.empty()) c.discard();
  c.note() << pr.first.type().name() << pr.second.type().name() << " "
           << sqrts << " GeV\n";
  for (auto &e : u) {
    if (e.second.size() < 50) continue;
    const double k = ks(e.second);
    PBT_CHECK(c, k < 3.5, e.first << ": polar angles: KS " << k << " from "
                                  << e.second.size());
    c.label(e.first);
  }
  PBT_CHECK(c, ks(v) < 3.4, "azimuths: KS " << ks(v));
  c.nontrivial(nn && !isotropic);
}

PBT_MAIN
