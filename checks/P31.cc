// P31: Pauli blocking
#include <cmath>
#include <map>

#include "collide.h"
#include "params.h"
#include "pbt.h"
#include "smash/action.h"
#include "smash/constants.h"
#include "smash/decayaction.h"
#include "smash/freeforallaction.h"
#include "smash/particles.h"
#include "smash/pauliblocking.h"
#include "smash/scatteraction.h"
#include "smash/wallcrossingaction.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;

namespace {
double sq(double x) { return x * x; }
std::string num(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
struct Radii {
  double sigma = 1., cut = 2.2, space = 1.86, mom = 0.08;
};
// fraction of a Gaussian, cut and normalized, that is within a sphere around
// a point at distance r of its center
double overlap(const Radii &a, double r) {
  static const double x[8] = {0.0950125098376374, 0.2816035507792589,
                              0.4580167776572274, 0.6178762444026438,
                              0.7554044083550030, 0.8656312023878318,
                              0.9445750230732326, 0.9894009349916499};
  static const double w[8] = {0.1894506104550685, 0.1826034150449236,
                              0.1691565193950025, 0.1495959888165767,
                              0.1246289712555339, 0.0951585116824928,
                              0.0622535239386479, 0.0271524594117541};
  auto gauss = [&](auto f, double lo, double hi) {
    double sum = 0.;
    const int n = 4;
    for (int k = 0; k < n; k++) {
      const double h = (hi - lo) / n, m = lo + (k + 0.5) * h;
      for (int i = 0; i < 8; i++)
        sum += 0.5 * h * w[i] * (f(m + 0.5 * h * x[i]) + f(m - 0.5 * h * x[i]));
    }
    return sum;
  };
  auto radial = [&](double s) {
    return s * s * std::exp(-0.5 * sq(s / a.sigma));
  };
  auto part = [&](double s) {
    const double f = 0.5 * (1 + (sq(a.space) - s * s - r * r) / (2 * s * r));
    return radial(s) * std::min(1., std::max(0., f));
  };
  const double all = gauss(radial, 0., a.cut);
  double in = 0.;
  if (r < a.space) in += gauss(radial, 0., std::min(a.cut, a.space - r));
  const double lo = std::abs(a.space - r), hi = std::min(a.cut, a.space + r);
  if (hi > lo) in += gauss(part, lo, hi);
  return in / all;
}
double phase_volume(const Radii &a) {
  return 2 * sq(4. / 3. * M_PI) * std::pow(a.space * a.mom, 3) /
         std::pow(2 * M_PI * hbarc, 3);
}
std::unique_ptr<PauliBlocker> blocker(const Radii &a, int ensembles, int test,
                                      bool defaults) {
  kit::Params par;
  par.sigma = a.sigma;
  par.ensembles = ensembles;
  par.testparticles = test;
  const std::string s =
      defaults ? "{Collision_Term: {Pauli_Blocking: {}}}"
               : "{Collision_Term: {Pauli_Blocking: {Gaussian_Cutoff: " +
                     num(a.cut) + ", Spatial_Averaging_Radius: " +
                     num(a.space) + ", Momentum_Averaging_Radius: " +
                     num(a.mom) + "}}}";
  return std::make_unique<PauliBlocker>(kit::config(s), par.make());
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }
}  // namespace pbt

// The phase-space density against its definition
PBT_PROP(density, 6000, 300000) {
  Radii a;
  const bool defaults = c.below(6) == 0;
  a.sigma = c.flip() ? 1. : c.uniform(0.4, 2.);
  if (!defaults) {
    a.space = c.uniform(0.5, 4.);
    a.cut = a.space * c.uniform(1.02, 2.) + 0.2;
    a.mom = c.logreal(0.03, 1.);
  }
  const int ensembles = static_cast<int>(c.count(1, 3)),
            test = static_cast<int>(c.count(1, 30));
  const auto pb = blocker(a, ensembles, test, defaults);
  c.note() << "radii " << a.sigma << " " << a.cut << " " << a.space << " "
           << a.mom << " ensembles " << ensembles << " testparticles " << test;
  static const auto all = kit::hadrons();
  const ParticleTypePtr type = c.pick(all);
  const ThreeVector r = kit::position3(c), p = kit::momentum3(c, 1.);
  std::vector<Particles> list(static_cast<size_t>(ensembles));
  ParticleList disregard;
  const double range = a.space + a.cut, step = range / 30;
  // the density, that with the tabulated values in the order of the known
  // finding, and the accuracy of a linear interpolation
  double sum = 0., known = 0., tol = 0.;
  bool border = false;
  int hits = 0, other = 0;
  const size_t n = c.count(1, 12);
  for (size_t i = 0; i < n; i++) {
    const size_t e = c.below(static_cast<uint64_t>(ensembles));
    // there is an antiparticle, an isospin partner or the same
    ParticleTypePtr t = type;
    if (c.below(5) == 0) t = c.pick(all);
    if (c.below(8) == 0 && type->has_antiparticle())
      t = type->get_antiparticle();
    if (c.below(8) == 0) t = c.pick(type->iso_multiplet()->get_states());
    ParticleData d{*t};
    const double dp = c.below(8) == 0 ? 0. : a.mom * c.uniform(0., 1.6),
                 dr = c.below(8) == 0 ? 0. : range * c.uniform(0., 1.2);
    d.set_4momentum(t->mass(), p + kit::direction(c) * dp);
    d.set_4position(FourVector(c.uniform(0., 5.), r + kit::direction(c) * dr));
    const ParticleData &in = list[e].insert(d);
    const bool skip = c.below(6) == 0;
    if (skip) disregard.push_back(in);
    if (std::abs(dp - a.mom) < 1e-9) border = true;
    if (skip || t != type || dp > a.mom) {
      other++;
      continue;
    }
    if (std::abs(dr - range) < 1e-9) border = true;
    if (dr > range) continue;
    hits++;
    const double x = overlap(a, dr);
    sum += x;
    const double lo = std::floor(dr / step) * step;
    const double w0 = overlap(a, lo), w1 = overlap(a, lo + step),
                 rest = dr / step - std::floor(dr / step);
    const bool last = lo + 1.5 * step > range;
    double wrong = last ? 0. : w0 * rest + w1 * (1 - rest);
    // on a node both neighbors are possible
    if (rest < 1e-9 || rest > 1 - 1e-9) border = border || dr > 0;
    known += wrong;
    tol += last ? 1.01 * w0 : 1e-9;
    const double lin = w0 + (w1 - w0) * rest;
    tol += 1.5 * std::abs(lin - x) + 1e-4 * w0;
    // curvature changes at the edge of the sphere
    if (std::abs(dr - std::abs(a.space - a.cut)) < 2 * step ||
        std::abs(dr - a.space) < 2 * step)
      tol += 2e-3;
  }
  if (border) return;
  const double f = pb->phasespace_dens(r, p, list, type->pdgcode(), disregard);
  const double unit = 1 / phase_volume(a) / ensembles / test;
  const double have = f / unit;
  c.label("skipped particles", !disregard.empty());
  c.label("default radii", defaults);
  c.label("several ensembles", ensembles > 1);
  c.comparisons++;
  c.nontrivial(hits > 0 && other > 0);
  if (std::abs(have - sum) < tol + 1e-9) return;
  if (std::abs(have - known) < 1e-6 * (1 + known)) {
    c.label("known: order of interpolation");
    return;
  }
  pbt::fail(pbt::Fmt() << "density " << have << " instead of " << sum
                       << " in units of one particle, tolerance " << tol);
}

// Each outgoing baryon blocks with the density it finds, others do not
PBT_PROP_OPT(blocked, 500, 20000, 30, true) {
  Radii a;
  a.space = c.uniform(1., 2.);
  a.cut = a.space + c.uniform(0.1, 1.);
  a.mom = c.uniform(0.3, 1.);
  const int ensembles = static_cast<int>(c.count(1, 2));
  // a density of the order of one
  const int test = std::max(
      1, static_cast<int>(c.uniform(0.3, 3.) / phase_volume(a)));
  const auto pb = blocker(a, ensembles, test, false);
  static const auto all = kit::hadrons();
  std::vector<Particles> list(static_cast<size_t>(ensembles));
  const size_t no = c.count(1, 3);
  std::vector<ParticleTypePtr> types;
  for (size_t i = 0; i < no; i++)
    types.push_back(
        c.flip() ? c.pick(all)
                 : &ParticleType::find(PdgCode::from_decimal(
                       c.one_of<int>({2212, 2112, -2212, 2224, 3122}))));
  const ThreeVector r = kit::position3(c);
  const double t = c.uniform(0., 5.);
  ParticleList in, out;
  std::unique_ptr<Action> act;
  const int kind = static_cast<int>(c.below(4));
  if (kind == 0) {
    // elastic scattering, where the incoming particles are not in the way
    ParticleData x{ParticleType::find(0x2212)}, y{*types[0]};
    for (ParticleData *d : {&x, &y}) {
      // (with a relative velocity)
      d->set_4momentum(d->type().mass(), kit::direction(c) *
                                             (d == &x ? c.uniform(0.05, 0.15)
                                                      : c.uniform(0.3, 0.5)));
      d->set_4position(FourVector(t, r));
      d->set_formation_time(0.);
      in.push_back(list[0].insert(*d));
    }
    auto s = std::make_unique<ScatterAction>(in[0], in[1], 0.);
    s->add_collision(std::make_unique<CollisionBranch>(
        in[0].type(), in[1].type(), 10., ProcessType::Elastic));
    act = std::move(s);
  } else {
    for (size_t i = 0; i < no; i++) {
      ParticleData d{*types[i]};
      d.set_4momentum(types[i]->mass(), kit::momentum3(c, 0.3));
      d.set_4position(FourVector(t, r));
      if (kind == 1) in.push_back(list[0].insert(d));
      out.push_back(d);
    }
    if (kind == 1) {
      // a particle crossing the wall of a box
      in.erase(in.begin() + 1, in.end());
      out.erase(out.begin() + 1, out.end());
      act = std::make_unique<WallcrossingAction>(in[0], out[0], 0.);
    } else {
      act = std::make_unique<FreeforallAction>(ParticleList{}, out, t);
    }
  }
  const size_t n = c.count(0, 12);
  for (size_t i = 0; i < n; i++) {
    ParticleData d{*(c.flip() ? c.pick(types)
                              : &ParticleType::find(0x2212))};
    d.set_4momentum(d.type().mass(), kit::momentum3(c, 0.3));
    d.set_4position(
        FourVector(t, r + kit::direction(c) * c.uniform(0., a.space)));
    list[c.below(list.size())].insert(d);
  }
  act->generate_final_state();
  double pass = 1.;
  size_t baryons = 0;
  for (const ParticleData &q : act->outgoing_particles()) {
    if (!q.type().pdgcode().is_baryon() || kind == 1) continue;
    baryons++;
    const double f = pb->phasespace_dens(
        q.position().threevec(), q.momentum().threevec(), list, q.pdgcode(),
        act->incoming_particles());
    pass *= 1 - std::min(1., f);
  }
  const int trials = 4000;
  int blocked = 0;
  const ParticleList before = act->outgoing_particles();
  for (int i = 0; i < trials; i++)
    blocked += act->is_pauli_blocked(list, *pb);
  PBT_CHECK(c,
            stat_::count_surprise(static_cast<double>(blocked), trials,
                                  1 - pass) < stat_::kSurprise,
            "blocked " << blocked << " of " << trials << ", expected "
                       << trials * (1 - pass));
  PBT_CHECK(c, before.size() == act->outgoing_particles().size(),
            "the question changes the action");
  for (size_t i = 0; i < before.size(); i++)
    PBT_CHECK(c,
              before[i].momentum() == act->outgoing_particles()[i].momentum() &&
                  before[i].position() == act->outgoing_particles()[i].position(),
              "the question changes the action");
  c.label(kind == 0   ? "elastic"
          : kind == 1 ? "wall"
                      : "arbitrary particles");
  c.label("certainly blocked", pass == 0.);
  c.nontrivial(baryons > 0 && pass < 1);
}

PBT_MAIN
