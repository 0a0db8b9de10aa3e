// P27: dilepton decays and the shining method
#include <cmath>
#include <fstream>
#include <sstream>

#include "pbt.h"
#include "ref.h"
#include "smash/action.h"
#include "smash/constants.h"
#include "smash/decayactionsfinderdilepton.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/formfactors.h"
#include "smash/isoparticletype.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;

namespace {
std::string slurp(const std::string &path) {
  std::ifstream f(path);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// (the semileptonic decays of D mesons have no virtual photon)
bool neutral_pair(const DecayType &d) {
  int q = 0;
  for (auto t : d.particle_types())
    if (t->is_lepton()) q += t->charge();
  return q == 0;
}
struct Mode {
  ParticleTypePtr t;
  const DecayBranch *b;
};
std::vector<Mode> &modes(size_t bodies) {
  static std::vector<Mode> l[2];
  if (l[0].empty())
    for (const auto &t : ParticleType::list_all())
      for (const auto &b : t.decay_modes().decay_mode_list())
        if (b->type().is_dilepton_decay() && neutral_pair(b->type()))
          l[b->type().particle_number() - 2].push_back({&t, b.get()});
  return l[bodies - 2];
}
bool has_lepton(ParticleTypePtrList l) {
  for (auto t : l)
    if (t->is_lepton()) return true;
  return false;
}
double sq(double x) { return x * x; }
// dGamma / dM of the Dalitz decay of a hadron of mass m
double dalitz(ParticleTypePtr t, ParticleTypePtr other, double ml, double m,
              double M) {
  const double mo = other->mass();
  if (m < M + mo || M < 2 * ml) return 0;
  const double ph = std::sqrt(1 - sq(2 * ml / M)) * (1 + 2 * sq(ml / M));
  const ParticleType &gamma = ParticleType::find(pdg::photon);
  const std::string code = t->pdgcode().string();
  auto partial = [&](ParticleTypePtrList l) {
    double w = 0;
    for (const auto &b : t->decay_modes().decay_mode_list())
      if (b->type().has_particles(l))
        w += b->type().width(t->mass(), t->width_at_pole() * b->weight(), m);
    return w;
  };
  if (t->is_meson() && t->spin() == 0) {
    double f = 1;
    if (code == "111") f = 1 + 5.5 * M * M;
    if (code == "221") f = 1 / (1 - sq(M / 0.716));
    return 4 * fine_structure / (3 * M_PI) * partial({&gamma, &gamma}) / M *
           std::pow(1 - sq(M / m), 3) * f * f * ph;
  }
  if (t->is_meson()) {
    double f2 = 1;
    if (code == "223")
      f2 = std::pow(.65, 4) / (sq(sq(.65) - M * M) + sq(.65 * .075));
    const double n = m * m - mo * mo;
    const double rad = sq(1 + M * M / n) - 4 * sq(m * M / n);
    return rad <= 0 ? 0
                    : 2 * fine_structure / (3 * M_PI) *
                          partial({other, &gamma}) / M * std::pow(rad, 1.5) *
                          f2 * ph;
  }
  // Delta(1232)
  const double s1 = sq(m + mo) - M * M, s2 = sq(m - mo) - M * M;
  if (s2 <= 0) return 0;
  const double g = fine_structure / 16 * sq(m + mo) / (m * m * m * mo * mo) *
                   std::sqrt(s1) * std::pow(s2, 1.5) * sq(3.12);
  return 2 * fine_structure / (3 * M_PI) * g / M * ph;
}
// integral over the mass of the pair
double dalitz_width(ParticleTypePtr t, ParticleTypePtr other, double ml,
                    double m) {
  const double a = 2 * ml, b = m - other->mass();
  if (b <= a) return 0;
  auto f = [&](ref::L x) {
    const double M = static_cast<double>(std::exp(x));
    return static_cast<ref::L>(M * dalitz(t, other, ml, m, M));
  };
  return static_cast<double>(ref::integrate(f, std::log(a), std::log(b), 200));
}
struct Dalitz {
  ParticleTypePtr other, l;
};
Dalitz dalitz_of(const DecayType &d) {
  Dalitz r{};
  for (auto t : d.particle_types())
    if (t->is_lepton())
      r.l = t;
    else
      r.other = t;
  return r;
}
// what is written
struct Record {
  ParticleList in, out;
  double weight;
  ProcessType type;
  double time;
};
class Recorder : public OutputInterface {
 public:
  std::vector<Record> all;
  explicit Recorder(const std::string &name) : OutputInterface(name) {}
  void at_interaction(const Action &a, const double) override {
    all.push_back({a.incoming_particles(), a.outgoing_particles(),
                   a.get_total_weight(), a.get_type(), a.time_of_execution()});
  }
};
ParticleTypePtr pick_mother(pbt::Case &c) {
  if (c.below(8) == 0) {
    const auto &l = ParticleType::list_all();
    const ParticleType &t =
        ParticleType::find(PdgCode(c.one_of<std::string>(
            {"2212", "211", "-211", "321", "2224", "213", "22"})));
    (void)l;
    return &t;
  }
  if (c.flip()) return c.pick(modes(2)).t;
  return c.pick(modes(3)).t;
}
double draw_mass(pbt::Case &c, const ParticleType &t) {
  if (t.is_stable() || c.below(4) == 0) return t.mass();
  const double lo = t.min_mass_kinematic() + 1e-4;
  return c.one_of({c.real(lo, std::max(lo, t.mass() + 3 * t.width_at_pole())),
                   c.real(lo, t.mass() + 1)});
}
ParticleData particle(pbt::Case &c, bool may_core = true) {
  const ParticleTypePtr t = pick_mother(c);
  ParticleData p{*t};
  const double m = draw_mass(c, *t);
  p.set_4momentum(m, std::min(1., 10 * m) * kit::momentum3(c, 3));
  const double now = c.real(0, 20);
  p.set_4position(FourVector(now, kit::position3(c, 5)));
  switch (c.below(3)) {
    case 0:
      p.set_formation_time(now - 1);
      break;
    case 1:
      p.set_formation_time(now + c.real(0.01, 5));
      p.set_cross_section_scaling_factor(c.below(3) == 0 ? 0 : c.real(0, 1));
      break;
    default:
      p.set_slow_formation_times(now - c.real(0.01, 3), now + c.real(0.01, 5));
      p.set_cross_section_scaling_factor(c.real(0, 1));
  }
  if (may_core && c.below(8) == 0) p.fluidize();
  c.note() << t->name() << " m=" << m << " p=" << kit::show(p.momentum())
           << " scaling " << p.xsec_scaling_factor()
           << (p.is_core() ? " core" : "") << "; ";
  return p;
}
// the modes, with their widths, which this particle has
std::vector<std::pair<const DecayBranch *, double>> widths(
    const ParticleData &p, double &all, size_t &open) {
  std::vector<std::pair<const DecayBranch *, double>> r;
  all = 0;
  open = 0;
  const ParticleType &t = p.type();
  const double m = p.momentum().abs();
  for (const auto &b : t.decay_modes().decay_mode_list()) {
    const double w =
        b->type().width(t.mass(), t.width_at_pole() * b->weight(), m);
    if (w <= 0) continue;
    all += w;
    open++;
    if (has_lepton(b->type().particle_types())) r.push_back({b.get(), w});
  }
  return r;
}
// a written decay of the particle in the mode with this integrated weight
void decay(pbt::Case &c, const ParticleData &p, const DecayBranch &b,
           double partial, double weight, const Record &r) {
  PBT_CHECK(c, r.type == ProcessType::Decay && r.in.size() == 1 &&
                   r.in[0].id() == p.id() && r.in[0].momentum() == p.momentum(),
            "not a decay of the particle");
  const auto types = b.type().particle_types();
  PBT_CHECK(c, r.out.size() == types.size(),
            "decay into " << r.out.size() << " particles");
  ParticleTypePtrList l;
  FourVector sum;
  double other = 0;
  FourVector pair;
  const double scale = p.momentum().x0();
  for (const auto &x : r.out) {
    l.push_back(&x.type());
    sum += x.momentum();
    if (x.type().is_lepton())
      pair += x.momentum();
    else
      other = x.type().mass();
    PBT_CLOSE(c, x.momentum().sqr(), sq(x.type().mass()), 0, 1e-9 * sq(scale),
              "mass of " << x.type().name());
  }
  PBT_CHECK(c, b.type().has_particles(l), "products");
  PBT_CHECK(c, (sum - p.momentum()).threevec().abs() < 1e-9 * scale &&
                   std::abs(sum.x0() - scale) < 1e-9 * scale,
            "momentum " << kit::show(p.momentum()) << " of "
                        << p.type().name() << " became " << kit::show(sum));
  double want = weight;
  if (types.size() == 3) {
    const Dalitz d = dalitz_of(b.type());
    const double m = p.momentum().abs(), M = std::sqrt(pair.sqr());
    const double ml = d.l->mass();
    PBT_CHECK(c, M > 2 * ml - 1e-6 && M < m - other + 1e-6,
              "dilepton of the mass " << M);
    const double slope = dalitz(&p.type(),
                                d.other, ml, m, M);
    want *= (m - other - 2 * ml) * slope / partial;
    // (edges of the range suffer from the rounding of M)
    if (M < 2.2 * ml || M > m - other - 1e-3) return;
    PBT_CLOSE(c, r.weight, want, 1e-4, 1e-30, "weight of the Dalitz decay");
  } else {
    PBT_CLOSE(c, r.weight, want, 1e-9, 1e-30, "weight");
  }
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  const char *repo = std::getenv("VERIF_REPO");
  const std::string base = std::string(repo ? repo : "/repo") + "/input/";
  kit::load(slurp(base + "particles.txt"),
            slurp(base + "dileptons/decaymodes.txt"));
}
void reset_case(uint64_t) { ParticleData::formation_power_ = 0.; }
}  // namespace pbt

// direct decays
PBT_PROP(direct, 500, 20000) {
  const Mode x = c.pick(modes(2));
  const ParticleType &t = *x.t;
  const double ml = x.b->type().particle_types()[0]->mass(), m0 = t.mass();
  const double m = c.one_of({c.real(0.5 * ml, m0 + 1), c.real(2 * ml, 3 * ml),
                             m0});
  c.note() << t.name() << " m=" << m;
  const double r = sq(ml / m), G0 = t.width_at_pole() * x.b->weight();
  const double want = m <= 2 * ml ? 0
                                  : G0 * std::pow(m0 / m, 3) *
                                        std::sqrt(1 - 4 * r) * (1 + 2 * r);
  PBT_CLOSE(c, x.b->type().width(m0, G0, m), want, 1e-9, 1e-30,
            "dilepton width");
  PBT_CLOSE(c, t.partial_width(m, x.b), want, 1e-9, 1e-30, "partial width");
  c.nontrivial();
}

// Dalitz decays
PBT_PROP(dalitz_decays, 300, 10000) {
  const Mode x = c.pick(modes(3));
  const ParticleType &t = *x.t;
  const Dalitz d = dalitz_of(x.b->type());
  const double ml = d.l->mass(), thr = d.other->mass() + 2 * ml;
  const double top = t.mass() + 10 * t.width_at_pole();
  const double m = t.is_stable() ? t.mass()
                                 : c.one_of({c.real(thr * 0.9, top), t.mass(),
                                             c.real(thr, t.mass())});
  c.note() << t.name() << " m=" << m;
  const double M = c.one_of({c.real(2.001 * ml, std::max(2.001 * ml, m - d.other->mass())),
                             c.logreal(2.001 * ml, 2)});
  PBT_CLOSE(c,
            ThreeBodyDecayDilepton::diff_width(m, ml, M, d.other->mass(),
                                               d.other, &t),
            dalitz(&t, d.other, ml, m, M), 1e-7, 1e-25,
            "differential width at the dilepton mass " << M);
  const double w = x.b->type().width(t.mass(), t.width_at_pole() *
                                                   x.b->weight(), m);
  if (t.is_stable()) {
    PBT_CLOSE(c, w, t.width_at_pole() * x.b->weight(), 1e-12, 0, "width");
    return;
  }
  const double want = dalitz_width(&t, d.other, ml, m);
  PBT_CLOSE(c, w, want, 0.02,
            3e-3 * dalitz_width(&t, d.other, ml, t.mass()), "width");
  c.nontrivial();
}

// during a time step
PBT_PROP(shine, 600, 20000) {
  ParticleData::formation_power_ = c.flip() ? 0. : c.real(0.5, 3);
  Particles list;
  std::vector<ParticleData> l;
  const size_t n = 1 + c.below(4);
  for (size_t i = 0; i < n; i++) l.push_back(list.insert(particle(c)));
  const double dt = c.logreal(1e-3, 10);
  c.note() << "dt=" << dt;
  kit::seed(c.seed32());
  DecayActionsFinderDilepton finder;
  {
    Recorder photons("Photons"), collisions("Collisions");
    finder.shine(list, &photons, dt);
    finder.shine(list, &collisions, dt);
    finder.shine_final(list, &collisions, false);
    PBT_CHECK(c, photons.all.empty() && collisions.all.empty(),
              "dileptons in another output");
  }
  Recorder out("Dileptons");
  finder.shine(list, &out, dt);
  size_t k = 0;
  for (const auto &p : l) {
    double all;
    size_t open;
    const auto w = widths(p, all, open);
    const double scale = p.xsec_scaling_factor();
    if (p.type().is_stable() || p.is_core() || w.size() == open || scale == 0)
      continue;
    const double tau = dt * std::sqrt(1 - p.momentum().velocity().sqr());
    for (const auto &x : w) {
      PBT_CHECK(c, k < out.all.size(), "no decay of " << p.type().name()
                                                      );
      decay(c, p, *x.first, x.second, tau * x.second * scale / hbarc,
            out.all[k++]);
      c.nontrivial();
    }
  }
  PBT_CHECK(c, k == out.all.size(),
            out.all.size() << " decays, expected " << k);
}

// at the end
PBT_PROP(final_decays, 600, 20000) {
  Particles list;
  std::vector<ParticleData> l;
  const size_t n = 1 + c.below(4);
  for (size_t i = 0; i < n; i++) l.push_back(list.insert(particle(c)));
  const bool only = c.flip();
  kit::seed(c.seed32());
  DecayActionsFinderDilepton finder;
  Recorder out("Dileptons");
  finder.shine_final(list, &out, only);
  size_t k = 0;
  for (const auto &p : l) {
    double all;
    size_t open;
    const auto w = widths(p, all, open);
    if ((only && p.type().is_stable()) || p.is_core()) continue;
    for (const auto &x : w) {
      PBT_CHECK(c, k < out.all.size(), "no decay of " << p.type().name());
      decay(c, p, *x.first, x.second, x.second / all, out.all[k++]);
      c.nontrivial();
    }
  }
  PBT_CHECK(c, k == out.all.size(),
            out.all.size() << " decays, expected " << k);
}

// many decays of one particle
PBT_PROP(distribution, 60, 1500) {
  const ParticleData p = particle(c, false);
  double all = 0;
  size_t open = 0;
  const auto w = widths(p, all, open);
  if (w.empty()) c.discard();
  Particles list;
  const int n = 4000;
  for (int i = 0; i < n; i++) list.insert(p);
  kit::seed(c.seed32());
  Recorder out("Dileptons");
  DecayActionsFinderDilepton().shine_final(list, &out, false);
  PBT_CHECK(c, out.all.size() == n * w.size(), "number of decays");
  c.nontrivial();
  const double m = p.momentum().abs();
  for (size_t k = 0; k < w.size(); k++) {
    const auto &type = w[k].first->type();
    std::vector<double> ct, phi, lct, mass;
    double sum = 0;
    for (int i = 0; i < n; i++) {
      const Record &r = out.all[i * w.size() + k];
      sum += r.weight / n;
      FourVector pair, lepton;
      for (const auto &x : r.out) {
        const FourVector q =
            x.momentum().lorentz_boost(p.momentum().velocity());
        if (!x.type().is_lepton()) continue;
        pair += q;
        if (x.pdgcode().get_decimal() > 0) lepton = q;
      }
      const bool two = type.particle_number() == 2;
      const ThreeVector d =
          two ? lepton.threevec() : pair.threevec();
      if (d.abs() < 1e-9) continue;
      ct.push_back(0.5 + 0.5 * d.x3() / d.abs());
      phi.push_back(0.5 + std::atan2(d.x2(), d.x1()) / (2 * M_PI));
      if (!two) {
        const Dalitz z = dalitz_of(type);
        const double ml = z.l->mass(), M = pair.abs();
        mass.push_back((M - 2 * ml) / (m - z.other->mass() - 2 * ml));
        const ThreeVector q = lepton.lorentz_boost(pair.velocity()).threevec();
        lct.push_back(0.5 + 0.5 * q.x3() / q.abs());
      }
    }
    auto flat = [&](const std::vector<double> &v, const char *what) {
      const double d =
          stat_::ks(v, [](double x) { return std::clamp(x, 0., 1.); });
      PBT_CHECK(c, d < stat_::ks_limit(v.size()),
                what << ": KS distance " << d);
    };
    flat(ct, "polar angle");
    flat(phi, "azimuthal angle");
    if (mass.empty()) continue;
    flat(mass, "dilepton mass");
    flat(lct, "polar angle of the lepton");
    // implicit Monte Carlo integration over the mass, where the tail of the
    // distribution of the weights allows it
    const Dalitz z = dalitz_of(type);
    const double ml = z.l->mass(), top = m - z.other->mass();
    auto second = [&](ref::L x) {
      const double M = static_cast<double>(std::exp(x));
      return static_cast<ref::L>(M * sq(dalitz(&p.type(), z.other, ml, m, M)));
    };
    const double I1 = dalitz_width(&p.type(), z.other, ml, m);
    const double I2 = static_cast<double>(
        ref::integrate(second, std::log(2 * ml), std::log(top), 200));
    const double rel =
        std::sqrt(std::max(0., I2 * (top - 2 * ml) / (I1 * I1) - 1) / n);
    PBT_CLOSE(c, sum * all, I1, 8 * rel + 1e-3, 0, "sum of the weights");
    c.label("Dalitz");
  }
}

// no dilepton decays of other forms
PBT_PROP(construction, 200, 3000) {
  auto pick = [&]() -> ParticleTypePtr {
    return &ParticleType::find(PdgCode(c.one_of<std::string>(
        {"11", "-11", "13", "-13", "111", "22", "221", "2212", "211"})));
  };
  const ParticleTypePtr a = pick(), b = pick(), d = pick();
  auto code = [](ParticleTypePtr t) { return t->pdgcode().get_decimal(); };
  auto pair = [&](ParticleTypePtr x, ParticleTypePtr y) {
    return x->is_lepton() && code(x) == -code(y);
  };
  c.note() << a->name() << " " << b->name() << " " << d->name();
  {
    bool thrown = false;
    try {
      TwoBodyDecayDilepton t({a, b}, 0);
      PBT_CHECK(c, t.is_dilepton_decay(), "not a dilepton decay");
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown == !pair(a, b),
              "pair " << (thrown ? "refused" : "accepted"));
  }
  const bool ok = pair(a, b) || pair(a, d) || pair(b, d);
  PBT_CHECK(c, is_dilepton(a->pdgcode(), b->pdgcode()) == pair(a, b) &&
                   has_lepton_pair(a->pdgcode(), b->pdgcode(),
                                   d->pdgcode()) == ok,
            "recognized as a lepton pair");
  c.nontrivial(ok || pair(a, b));
  bool thrown = false;
  try {
    ThreeBodyDecayDilepton t(&ParticleType::find(PdgCode("223")), {a, b, d}, 0);
    PBT_CHECK(c, t.is_dilepton_decay(), "not a dilepton decay");
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  const bool other = !(a->is_lepton() && b->is_lepton() && d->is_lepton());
  PBT_CHECK(c, thrown == !(ok && other),
            "Dalitz decay " << (thrown ? "refused" : "accepted"));
}
PBT_MAIN
