// P30: initial conditions for hydrodynamics
#include <cmath>
#include <map>

#include "params.h"
#include "pbt.h"
#include "smash/action.h"
#include "smash/collidermodus.h"
#include "smash/constants.h"
#include "smash/dynamicfluidfinder.h"
#include "smash/energymomentumtensor.h"
#include "smash/fluidizationaction.h"
#include "smash/freeforallaction.h"
#include "smash/hypersurfacecrossingfinder.h"
#include "smash/icparameters.h"
#include "smash/lattice.h"
#include "smash/particles.h"
#include "smash/processbranch.h"
#include "smashkit.h"

using namespace smash;

namespace {
double sq(double x) { return x * x; }
std::string num(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
const std::vector<ProcessType> &process_types() {
  static const std::vector<ProcessType> l{
      ProcessType::None,
      ProcessType::Elastic,
      ProcessType::TwoToOne,
      ProcessType::TwoToTwo,
      ProcessType::TwoToThree,
      ProcessType::TwoToFour,
      ProcessType::TwoToFive,
      ProcessType::Decay,
      ProcessType::Wall,
      ProcessType::Thermalization,
      ProcessType::Fluidization,
      ProcessType::FluidizationNoRemoval,
      ProcessType::Bremsstrahlung,
      ProcessType::StringSoftSingleDiffractiveAX,
      ProcessType::StringSoftSingleDiffractiveXB,
      ProcessType::StringSoftDoubleDiffractive,
      ProcessType::StringSoftAnnihilation,
      ProcessType::StringSoftNonDiffractive,
      ProcessType::StringHard,
      ProcessType::MultiParticleThreeMesonsToOne,
      ProcessType::MultiParticleThreeToTwo,
      ProcessType::MultiParticleFourToTwo,
      ProcessType::MultiParticleFiveToTwo,
      ProcessType::Freeforall};
  return l;
}
// which switch a process belongs to, or -1
int kind(ProcessType t) {
  switch (static_cast<int>(t)) {
    case 1:
      return 0;
    case 5:
      return 1;
    case 2:
    case 3:
    case 4:
    case 13:
    case 15:
      return 2;
    case 41:
    case 42:
    case 43:
    case 44:
    case 45:
      return 3;
    case 46:
      return 4;
  }
  return t == ProcessType::MultiParticleThreeMesonsToOne ||
                 t == ProcessType::MultiParticleThreeToTwo ||
                 t == ProcessType::MultiParticleFourToTwo ||
                 t == ProcessType::MultiParticleFiveToTwo
             ? 2
             : -1;
}
ParticleData particle(pbt::Case &c, double t, const ThreeVector &r) {
  static const auto all = kit::hadrons();
  const ParticleTypePtr type = c.pick(all);
  ParticleData p{*type};
  const double m = type->is_stable()
                       ? type->mass()
                       : type->mass() * c.uniform(1., 1.2);
  p.set_4momentum(m, kit::momentum3(c, 1.5));
  p.set_4position(FourVector(t, r));
  switch (c.below(3)) {
    case 0:
      p.set_formation_time(t - c.uniform(0., 3.));
      break;
    case 1:
      p.set_slow_formation_times(t - c.uniform(0., 2.),
                                 t + c.uniform(0., 3.));
      p.set_cross_section_scaling_factor(c.flip() ? 0. : c.uniform(0., 0.99));
      break;
    default:
      p.set_slow_formation_times(t - c.uniform(1., 2.),
                                 t - c.uniform(0., 1.));
  }
  HistoryData h;
  h.collisions_per_particle = static_cast<int>(c.below(4));
  h.process_type = c.pick(process_types());
  h.id_process = static_cast<int>(c.below(100));
  h.time_last_collision = t - (c.below(4) ? c.uniform(0., 5.) : 0.);
  p.set_history(std::move(h));
  if (c.below(6) == 0) p.fluidize();
  return p;
}
// energy-momentum tensor of an ideal fluid, lower row index first
EnergyMomentumTensor fluid(double e, double p, const ThreeVector &v) {
  const double g = 1 / std::sqrt(1 - v.sqr());
  const FourVector u(g, v * g);
  EnergyMomentumTensor::tmn_type T;
  T.fill(0.);
  for (int i = 0; i < 4; i++)
    for (int j = i; j < 4; j++)
      T[static_cast<size_t>(EnergyMomentumTensor::tmn_index(i, j))] =
          (e + p) * u[i] * u[j] - (i != j ? 0. : i == 0 ? p : -p);
  return EnergyMomentumTensor(T);
}
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }
}  // namespace pbt

// crossings of the hypersurface of constant proper time
PBT_PROP(hypersurface, 8000, 300000) {
  const double tau = c.logreal(0.1, 10.);
  const double rap = c.flip() ? 0. : c.logreal(0.1, 5.),
               pt = c.flip() ? 0. : c.logreal(0.1, 3.);
  const double t0 = c.below(3) == 0 ? -c.uniform(0., 5.) : c.uniform(0., 12.),
               dt = c.logreal(0.01, 40.);
  const size_t n = c.count(1, 6);
  Particles list;
  std::vector<FourVector> beam;
  for (size_t i = 0; i < n; i++) {
    double z = c.uniform(-5., 5.);
    // close to the hypersurface
    if (t0 > tau && c.flip())
      z = (c.flip() ? 1 : -1) *
          std::sqrt(std::max(0., t0 * t0 - sq(tau * c.uniform(0.7, 1.1))));
    list.insert(particle(
        c, t0, ThreeVector(c.uniform(-3., 3.), c.uniform(-3., 3.), z)));
  }
  const size_t nb = c.flip() ? 0 : c.count(0, n);
  for (size_t i = 0; i < nb; i++)
    beam.push_back(FourVector(c.uniform(1.1, 10.), 0., 0.,
                              (c.flip() ? 1 : -1) * c.uniform(0., 1.)));
  FluidizationAction::remove_particle_ = true;
  const HyperSurfaceCrossActionsFinder finder(tau, rap, pt);
  const ParticleList plist = list.copy_to_vector();
  std::map<int, ActionPtr> found;
  for (auto &a : finder.find_actions_in_cell(plist, dt, 1., beam)) {
    PBT_CHECK(c, a->incoming_particles().size() == 1, "one particle each");
    const int id = a->incoming_particles()[0].id();
    PBT_CHECK(c, !found.count(id), "crosses twice");
    found[id] = std::move(a);
  }
  PBT_CHECK(c, finder.find_actions_with_neighbors(plist, plist, dt, beam)
                   .empty() &&
                   finder.find_actions_with_surrounding_particles(
                             plist, list, dt, beam)
                       .empty(),
            "actions with neighbors");
  size_t hits = 0;
  for (const ParticleData &p : plist) {
    const bool frozen = static_cast<size_t>(p.id()) < beam.size() &&
                        p.get_history().collisions_per_particle == 0;
    const ThreeVector v = frozen ? beam[static_cast<size_t>(p.id())].velocity()
                                 : p.velocity();
    const double vz = v.x3();
    const double lo = 1e-9;
    if (1 - vz * vz < 1e-6) continue;
    // z = a + vz t, t^2 - z^2 = tau^2 with the larger solution
    const double a = p.position().x3() - vz * t0;
    const double ts = (a * vz + std::sqrt(a * a + (1 - vz * vz) * tau * tau)) /
                      (1 - vz * vz);
    const double tend = t0 + dt;
    const double eps = lo * (1 + std::abs(ts) + std::abs(a)) / (1 - vz * vz);
    if (std::abs(ts - t0) < eps || std::abs(ts - tend) < eps ||
        std::abs(tend) < lo)
      continue;
    const double y = std::atanh(p.momentum().x3() / p.momentum().x0());
    const double ptp = std::hypot(p.momentum().x1(), p.momentum().x2());
    if (std::abs(std::abs(y) - rap) < 1e-9 || std::abs(ptp - pt) < 1e-9)
      continue;
    const bool cross = tend >= 0 && !p.is_core() && ts > t0 && ts < tend &&
                       (rap == 0 || std::abs(y) < rap) &&
                       (pt == 0 || ptp < pt);
    PBT_CHECK(c, bool(found.count(p.id())) == cross,
              kit::show(p) << (cross ? " crosses " : " does not cross ") << tau
                           << " at " << ts << " in [" << t0 << ", " << tend
                           << "]");
    if (!cross) continue;
    hits++;
    Action &act = *found[p.id()];
    PBT_CHECK(c, act.get_type() == ProcessType::Fluidization, "type");
    PBT_CLOSE(c, act.time_of_execution(), ts, 0., eps, "time of the crossing");
    PBT_CHECK(c, act.outgoing_particles().size() == 1, "outgoing particle");
    const FourVector x = act.outgoing_particles()[0].position();
    PBT_CLOSE(c, x.x0(), ts, 0., eps, "time of the crossing");
    const ThreeVector want = p.position().threevec() + v * (ts - t0);
    PBT_CHECK(c, (x.threevec() - want).abs() < 2 * eps + 1e-9,
              "crossing at " << kit::show(x) << " instead of "
                             << kit::show(want));
    PBT_CLOSE(c, x.tau(), tau, 1e-6,
              1e-7 + 4 * eps * (std::abs(x.x0()) + std::abs(x.x3())) / tau,
              "proper time of the crossing");
    PBT_CHECK(c, act.incoming_particles()[0].momentum() == p.momentum() &&
                     act.outgoing_particles()[0].momentum() == p.momentum(),
              "momentum");
    act.generate_final_state();
    PBT_CHECK(c, act.outgoing_particles().empty(), "particle not removed");
    PBT_CLOSE(c, act.check_conservation(1), 0., 0., 0., "conservation");
    c.label("frozen Fermi motion", frozen);
    c.label("from outside the light cone",
            std::abs(p.position().x3()) > std::abs(t0));
    c.label("from negative times", t0 < 0);
  }
  c.label("cuts", rap > 0 || pt > 0);
  c.nontrivial(hits > 0);
}

// dynamic fluidization by the energy density
PBT_PROP(dynamic, 6000, 200000) {
  const std::array<double, 3> l{c.uniform(4., 20.), c.uniform(4., 20.),
                                c.uniform(4., 20.)};
  std::array<int, 3> n;
  std::array<double, 3> o;
  for (size_t i = 0; i < 3; i++) {
    n[i] = 2 + static_cast<int>(c.below(3));
    o[i] = -l[i] / 2;
  }
  RectangularLattice<EnergyMomentumTensor> lattice(
      l, n, o, false, LatticeUpdate::EveryTimestep);
  InitialConditionParameters ic;
  const double threshold = c.logreal(0.05, 2.), kernel = c.logreal(0.01, 0.5);
  ic.type = FluidizationType::Dynamic;
  ic.energy_density_threshold = threshold;
  ic.min_time = c.uniform(0., 3.);
  ic.max_time = *ic.min_time + c.uniform(0., 10.);
  ic.formation_time_fraction = c.below(3) == 0 ? 0. : c.uniform(0., 1.5);
  ic.smearing_kernel_at_0 = kernel;
  ic.num_fluid_cells = n[0];
  ic.delay_initial_elastic = c.flip();
  const FluidizableProcessesBitSet allowed(
      c.flip() ? 31 : static_cast<unsigned>(c.below(32)));
  ic.fluidizable_processes = allowed;
  std::vector<double> eps(lattice.size());
  for (size_t i = 0; i < lattice.size(); i++) {
    eps[i] = c.below(5) == 0 ? 0. : c.logreal(0.01, 5.);
    if (eps[i] > 0)
      lattice[i] = fluid(eps[i], eps[i] * c.uniform(0., 0.33),
                         kit::direction(c) * c.uniform(0., 0.8));
  }
  const double t0 = c.uniform(0., 14.), dt = c.logreal(0.01, 3.);
  Particles list;
  const size_t np = c.count(1, 6);
  std::vector<size_t> where;
  for (size_t i = 0; i < np; i++) {
    ThreeVector r;
    size_t node = 0, stride = 1;
    bool in = true;
    for (size_t k = 0; k < 3; k++) {
      const double w = l[k] / n[k];
      const int cell = static_cast<int>(
          c.below(static_cast<uint64_t>(n[k]) + (c.below(8) == 0 ? 1 : 0)));
      r[static_cast<int>(k)] = o[k] + w * (cell + c.uniform(0.01, 0.99));
      in = in && cell < n[k];
      node += stride * static_cast<size_t>(cell);
      stride *= static_cast<size_t>(n[k]);
    }
    list.insert(particle(c, t0, r));
    where.push_back(in ? node : SIZE_MAX);
  }
  std::map<int32_t, double> background;
  for (size_t i = 0; i < np; i++)
    if (c.below(3) == 0)
      background[static_cast<int32_t>(i)] = c.uniform(0., 2 * threshold);
  FluidizationAction::remove_particle_ = false;
  const DynamicFluidizationFinder finder(lattice, background, ic);
  const ParticleList plist = list.copy_to_vector();
  std::map<int, ActionPtr> found;
  for (auto &a : finder.find_actions_in_cell(plist, dt, 1., {})) {
    PBT_CHECK(c, a->incoming_particles().size() == 1, "one particle each");
    const int id = a->incoming_particles()[0].id();
    PBT_CHECK(c, !found.count(id), "fluidized twice");
    found[id] = std::move(a);
  }
  PBT_CHECK(c,
            finder.find_actions_with_neighbors(plist, plist, dt, {}).empty() &&
                finder
                    .find_actions_with_surrounding_particles(plist, list, dt,
                                                             {})
                    .empty(),
            "actions with neighbors");
  size_t hits = 0;
  for (const ParticleData &p : plist) {
    const size_t node = where[static_cast<size_t>(p.id())];
    const HistoryData h = p.get_history();
    const int k = kind(h.process_type);
    const bool process =
        k >= 0 && allowed[static_cast<size_t>(k)] &&
        !(k == 0 && h.collisions_per_particle == 1 && *ic.delay_initial_elastic);
    PBT_CHECK(c, finder.is_process_fluidizable(h) == process,
              "process " << static_cast<int>(h.process_type));
    const double need = threshold + p.pole_mass() * kernel;
    const double have = (node == SIZE_MAX ? 0. : eps[node]) +
                        (background.count(p.id()) ? background[p.id()] : 0.);
    if (std::abs(have - need) < 1e-4 * need) continue;
    const bool above = node != SIZE_MAX && have >= need;
    PBT_CHECK(c, finder.above_threshold(p) == above,
              "energy density " << have << " is not " << (above ? "above " : "below ")
                                << need);
    const double start =
        p.begin_formation_time() +
        *ic.formation_time_fraction *
            (p.formation_time() - p.begin_formation_time());
    if (std::abs(start - t0 - dt) < 1e-9) continue;
    const bool want = t0 + dt >= *ic.min_time && t0 <= *ic.max_time &&
                      !p.is_core() && start < t0 + dt && process && above;
    PBT_CHECK(c, bool(found.count(p.id())) == want,
              kit::show(p) << (want ? " has" : " has not") << " to fluidize");
    if (!want) continue;
    hits++;
    Action &a = *found[p.id()];
    PBT_CHECK(c, a.get_type() == ProcessType::FluidizationNoRemoval, "type");
    const bool formed = 1 - p.xsec_scaling_factor() <= really_small;
    PBT_CLOSE(c, a.time_of_execution(), formed ? t0 : std::max(t0, start),
              1e-12, 1e-12, "time of fluidization");
    a.generate_final_state();
    PBT_CHECK(c, a.outgoing_particles().size() == 1, "particle removed");
    const ParticleData &q = a.outgoing_particles()[0];
    PBT_CHECK(c, q.is_core() && q.id() == p.id() &&
                     q.type() == p.type() && q.momentum() == p.momentum() &&
                     q.position() == p.position(),
              "the core particle " << kit::show(q) << " was " << kit::show(p));
    a.check_conservation(1);
    c.label("not formed", !formed);
    c.label("background", background.count(p.id()) > 0);
  }
  c.nontrivial(hits > 0);
}

// at the end: core particles are removed, or the corona moved back
PBT_PROP(final, 4000, 100000) {
  RectangularLattice<EnergyMomentumTensor> lattice(
      {2., 2., 2.}, {2, 2, 2}, {-1., -1., -1.}, false,
      LatticeUpdate::EveryTimestep);
  InitialConditionParameters ic;
  ic.energy_density_threshold = 0.5;
  ic.min_time = 0.;
  ic.max_time = 100.;
  ic.formation_time_fraction = 1.;
  ic.smearing_kernel_at_0 = 0.1;
  ic.num_fluid_cells = 2;
  ic.delay_initial_elastic = true;
  ic.fluidizable_processes = FluidizableProcessesBitSet().set();
  const std::map<int32_t, double> background;
  const DynamicFluidizationFinder finder(lattice, background, ic);
  const double t = c.uniform(0., 50.);
  const bool core = c.flip();
  Particles list;
  const size_t n = c.count(0, 8);
  size_t cores = 0;
  for (size_t i = 0; i < n; i++) {
    ParticleData p = particle(c, t, kit::position3(c));
    if (!core && p.is_core()) {
      ParticleData q(p.type());
      q.set_4momentum(p.momentum());
      q.set_4position(p.position());
      q.set_formation_time(p.formation_time());
      q.set_history(p.get_history());
      p = q;
    }
    cores += p.is_core();
    list.insert(p);
  }
  const ActionList actions = finder.find_final_actions(list);
  size_t i = 0;
  for (const ParticleData &p : list) {
    const HistoryData h = p.get_history();
    if (cores > 0) {
      if (!p.is_core()) continue;
    } else if (h.collisions_per_particle == 0 || h.time_last_collision == t) {
      continue;
    }
    PBT_CHECK(c, i < actions.size(), "particle without action");
    Action &a = *actions[i++];
    PBT_CHECK(c, a.get_type() == ProcessType::Freeforall &&
                     a.incoming_particles().size() == 1 &&
                     a.incoming_particles()[0].id() == p.id() &&
                     a.outgoing_particles().empty(),
              "the particle has to be removed");
    PBT_CLOSE(c, a.time_of_execution(), t, 0., 0., "time of the removal");
    if (cores > 0) continue;
    PBT_CHECK(c, i < actions.size(), "particle only removed");
    Action &b = *actions[i++];
    PBT_CHECK(c, b.get_type() == ProcessType::Freeforall &&
                     b.incoming_particles().empty() &&
                     b.outgoing_particles().size() == 1,
              "the particle has to be put back");
    const double tl = h.time_last_collision;
    PBT_CHECK(c, b.time_of_execution() >= tl &&
                     b.time_of_execution() <= tl + 0.0100001,
              "moved back to " << b.time_of_execution() << " instead of "
                               << tl);
    b.generate_final_state();
    const ParticleData &q = b.outgoing_particles()[0];
    PBT_CHECK(c, q.type() == p.type() && q.momentum() == p.momentum(),
              "another particle");
    PBT_CLOSE(c, q.position().x0(), b.time_of_execution(), 1e-12, 1e-12,
              "time of the particle");
    const ThreeVector r = p.position().threevec() -
                          (t - b.time_of_execution()) * p.velocity();
    PBT_CHECK(c, (q.position().threevec() - r).abs() < 1e-9 * (1 + r.abs()),
              "position " << kit::show(q.position()));
  }
  PBT_CHECK(c, i == actions.size(), "superfluous actions");
  c.label(cores ? "core" : "corona only");
  c.nontrivial(i > 0);
}

// one of the lists of an action of arbitrary particles has to be empty
PBT_PROP(freeforall, 1000, 20000) {
  ParticleList in, out;
  const size_t ni = c.below(3), no = c.below(3);
  for (size_t i = 0; i < ni; i++)
    in.push_back(particle(c, c.uniform(0., 10.), kit::position3(c)));
  for (size_t i = 0; i < no; i++)
    out.push_back(particle(c, c.uniform(0., 10.), kit::position3(c)));
  const double t = c.uniform(0., 10.);
  std::unique_ptr<FreeforallAction> a;
  const bool refused = throws(
      [&]() { a = std::make_unique<FreeforallAction>(in, out, t); });
  PBT_CHECK(c, refused == (ni > 0 && no > 0), "two lists");
  if (refused) return;
  a->generate_final_state();
  PBT_CHECK(c, a->outgoing_particles().size() == no, "outgoing particles");
  for (size_t i = 0; i < no; i++) {
    const ParticleData &q = a->outgoing_particles()[i], &p = out[i];
    PBT_CLOSE(c, q.position().x0(), t, 1e-12, 1e-12, "time");
    PBT_CLOSE(c, q.formation_time(), p.position().x0(), 0., 0., "formation");
    const ThreeVector r = p.position().threevec() +
                          (t - p.position().x0()) * p.velocity();
    PBT_CHECK(c, (q.position().threevec() - r).abs() < 1e-9 * (1 + r.abs()),
              "position");
  }
  c.nontrivial(no > 0);
}

// the configuration
PBT_PROP(configuration, 1500, 40000) {
  kit::Params par;
  par.sigma = c.flip() ? 1. : c.uniform(0.3, 3.);
  const auto ep = par.make();
  std::string s;
  bool valid = true;
  auto value = [&](const char *key, double def, double lo, double hi) {
    if (c.below(3) == 0) return def;
    const double x = c.below(12) == 0 ? -c.uniform(0.1, 1.) : c.uniform(lo, hi);
    s += std::string(", ") + key + ": " + num(x);
    return x;
  };
  const bool dynamic = c.flip();
  double thr = 0, tmin = 0, tmax = 0, frac = 0, rap = 0, pt = 0, tau = -1,
         low = 0, scale = 0;
  int cells = 100;
  unsigned processes = 31;
  bool delay = true;
  if (dynamic) {
    thr = value("Energy_Density_Threshold", 0.5, 0.1, 2.);
    tmin = value("Minimum_Time", 0., 0., 60.);
    tmax = value("Maximum_Time", 100., 0., 150.);
    frac = value("Formation_Time_Fraction", 1., 0., 2.);
    if (c.below(20)) {
      cells = static_cast<int>(c.below(10));
      s += ", Fluidization_Cells: " + std::to_string(cells);
    }
    if (c.flip()) {
      delay = c.flip();
      s += std::string(", Delay_Initial_Elastic: ") +
           (delay ? "True" : "False");
    }
    if (c.flip()) {
      processes = 0;
      static const char *names[] = {"Elastic", "Decay", "Inelastic",
                                    "SoftString", "HardString"};
      s += ", Fluidizable_Processes: [";
      for (unsigned i = 0; i < 5; i++)
        if (c.flip()) {
          s += std::string(processes ? ", " : "") + names[i];
          processes |= 1u << i;
        }
      if (!processes) {
        s += "Decay";
        processes = 2;
      }
      s += "]";
    }
    valid = thr > 0 && tmax >= tmin && tmin >= 0 && cells >= 2 && frac >= 0;
  } else {
    if (c.flip()) {
      tau = c.uniform(0.1, 10.);
      s += ", Proper_Time: " + num(tau);
    } else {
      low = c.flip() ? 0.5 : c.uniform(0.1, 2.);
      if (low != 0.5) s += ", Lower_Bound: " + num(low);
      scale = c.flip() ? 1. : c.uniform(0.1, 2.);
      if (scale != 1.) s += ", Proper_Time_Scaling: " + num(scale);
    }
    rap = value("Rapidity_Cut", 0., 0.1, 3.);
    pt = value("pT_Cut", 0., 0.1, 3.);
    valid = rap >= 0 && pt >= 0;
  }
  FluidizationAction::remove_particle_ = dynamic;
  const std::string text =
      "{Modi: {Collider: {Projectile: {Particles: {2212: 1}}, Target: "
      "{Particles: {2212: 1}}, E_Kin: 10, Initial_Conditions: {Type: " +
      std::string(dynamic ? "Dynamic" : "Constant_Tau") + s + "}}}}";
  c.note() << text;
  std::unique_ptr<ColliderModus> m;
  const bool refused = throws([&]() {
    m = std::make_unique<ColliderModus>(kit::config(text), ep);
  });
  PBT_CHECK(c, refused != valid,
            (valid ? "valid input refused: " : "invalid input accepted: ")
                << text);
  c.label(dynamic ? "dynamic" : "constant tau");
  c.label("invalid", !valid);
  c.nontrivial(valid);
  if (!valid) return;
  const InitialConditionParameters &ic = m->IC_parameters();
  PBT_CHECK(c, FluidizationAction::remove_particle_ == !dynamic,
            "whether particles are removed");
  PBT_CHECK(c, m->is_IC_for_hybrid(), "initial conditions");
  if (!dynamic) {
    PBT_CHECK(c, ic.type == FluidizationType::ConstantTau, "type");
    if (tau > 0) {
      PBT_CLOSE(c, ic.proper_time.value(), tau, 1e-15, 0., "proper time");
    } else {
      PBT_CHECK(c, !ic.proper_time.has_value(), "proper time");
      PBT_CLOSE(c, ic.lower_bound.value(), low, 1e-15, 0., "lower bound");
      PBT_CLOSE(c, ic.proper_time_scaling.value(), scale, 1e-15, 0., "scaling");
    }
    PBT_CLOSE(c, ic.rapidity_cut.value(), rap, 1e-15, 0., "rapidity cut");
    PBT_CLOSE(c, ic.pT_cut.value(), pt, 1e-15, 0., "pT cut");
    return;
  }
  PBT_CHECK(c, ic.type == FluidizationType::Dynamic, "type");
  PBT_CLOSE(c, ic.energy_density_threshold.value(), thr, 1e-15, 0., "threshold");
  PBT_CLOSE(c, ic.min_time.value(), tmin, 1e-15, 0., "minimum time");
  PBT_CLOSE(c, ic.max_time.value(), tmax, 1e-15, 0., "maximum time");
  PBT_CLOSE(c, ic.formation_time_fraction.value(), frac, 1e-15, 0., "fraction");
  PBT_CHECK(c, ic.num_fluid_cells.value() == cells, "cells");
  PBT_CHECK(c, ic.delay_initial_elastic.value() == delay, "delay");
  PBT_CHECK(c, ic.fluidizable_processes.value().to_ulong() == processes,
            "processes");
  PBT_CLOSE(c, ic.smearing_kernel_at_0.value(),
            std::pow(2 * M_PI * par.sigma * par.sigma, -1.5), 1e-12, 0.,
            "Gaussian of width " << par.sigma << " at its center");
  // the lattice covers what light can reach and is only built in time
  if (cells > 10) return;
  const DensityParameters dens(ep);
  std::vector<Particles> ensembles(1);
  const size_t np = c.count(0, 5);
  for (size_t i = 0; i < np; i++)
    ensembles[0].insert(particle(c, 0., kit::position3(c)));
  double side = std::max(tmin, 40.);
  double t = c.uniform(0., 40.);
  auto expect = std::make_unique<RectangularLattice<EnergyMomentumTensor>>(
      std::array<double, 3>{2 * side, 2 * side, 2 * side},
      std::array<int, 3>{cells, cells, cells},
      std::array<double, 3>{-side, -side, -side}, false,
      LatticeUpdate::EveryTimestep);
  for (int step = 0; step < 8; step++) {
    t += c.uniform(0., 12.);
    m->build_fluidization_lattice(t, ensembles, dens);
    const auto &lat = m->fluid_lattice();
    if (t >= tmin && t <= tmax) {
      if (t > side) side += 5;
      expect = std::make_unique<RectangularLattice<EnergyMomentumTensor>>(
          std::array<double, 3>{2 * side, 2 * side, 2 * side},
          std::array<int, 3>{cells, cells, cells},
          std::array<double, 3>{-side, -side, -side}, false,
          LatticeUpdate::EveryTimestep);
      update_lattice_accumulating_ensembles(
          expect.get(), LatticeUpdate::EveryTimestep, DensityType::Hadron,
          dens, ensembles, false);
    }
    for (size_t i = 0; i < 3; i++) {
      PBT_CLOSE(c, lat.lattice_sizes()[i], 2 * side, 1e-12, 0., "size");
      PBT_CLOSE(c, lat.origin()[i], -side, 1e-12, 0., "origin");
      PBT_CHECK(c, lat.n_cells()[i] == cells, "cells");
    }
    for (size_t i = 0; i < lat.size(); i++)
      for (size_t k = 0; k < 10; k++)
        PBT_CLOSE(c, lat[i][k], (*expect)[i][k], 1e-9, 1e-12,
                  "energy-momentum tensor");
  }
}

PBT_MAIN
