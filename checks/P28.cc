// P28: from the configuration to the parameters of the experiment, and its
// bookkeeping of energies
#include <cmath>
#include <iomanip>
#include <sstream>

#include "params.h"
#include "pbt.h"
#include "smash/clock.h"
#include "smash/constants.h"
#include "smash/experiment.h"
#include "smash/particles.h"
#include "smash/potentials.h"
#include "smash/quantumnumbers.h"
#include "smashkit.h"

using namespace smash;

namespace {
bool with_dprime() { return pbt::options().seed % 2 == 0; }

// a section of a configuration
struct Section {
  pbt::Case &c;
  std::vector<std::string> keys;
  // a key, given or not
  template <typename T>
  T operator()(const std::string &name, T fallback, T given, bool always) {
    if (!always && c.flip()) return fallback;
    std::ostringstream o;
    o << std::setprecision(17) << std::boolalpha << name << ": " << given;
    keys.push_back(o.str());
    return given;
  }
  std::string yaml(const std::string &name) const {
    std::string r;
    for (const auto &k : keys) r += (r.empty() ? "" : ", ") + k;
    return name + ": {" + r + "}";
  }
};
template <typename E>
E choice(pbt::Case &c, Section &s, const char *key, E fallback,
         std::vector<std::pair<const char *, E>> l) {
  if (c.flip()) return fallback;
  const auto &x = l[c.below(l.size())];
  s.keys.push_back(std::string(key) + ": \"" + x.first + "\"");
  return x.second;
}
ParticleData particle(pbt::Case &c, double pmax = 2) {
  const auto &all = ParticleType::list_all();
  const ParticleType &t = all[c.below(all.size())];
  ParticleData p{t};
  double m = t.mass();
  if (!t.is_stable() && c.flip()) m += c.uniform(0, 0.5);
  p.set_4momentum(m, kit::momentum3(c, pmax));
  p.set_4position(FourVector(c.uniform(0, 5), kit::position3(c, 5)));
  return p;
}
std::vector<Particles> ensembles(pbt::Case &c, double &energy, size_t &n) {
  std::vector<Particles> r(1 + c.below(3));
  energy = 0;
  n = 0;
  for (auto &e : r) {
    const size_t k = c.count(0, 6);
    for (size_t i = 0; i < k; i++) {
      const auto p = particle(c);
      energy += p.momentum().x0();
      n++;
      e.insert(p);
    }
  }
  return r;
}
double sq(double x) { return x * x; }
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  if (with_dprime())
    kit::load_reduced({"Δ", "ρ", "Λ", "d", "d'"},
                      "d 1.8756 0 + 1000010020\n"
                      "d' 1.8856 0.100 - 1000010021\n",
                      "d'\n1. 1 N N\n");
  else
    kit::load_reduced({"Δ", "ρ", "Λ"});
}
void reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }
}  // namespace pbt

// the parameters
PBT_PROP(parameters, 3000, 60000) {
  Section gen{c, {}}, ct{c, {}}, out{c, {}};
  std::vector<std::string> top;
  bool bad = false;
  auto positive = [&](double x) {
    if (c.below(40)) return x;
    bad = true;
    return c.one_of({0., -x});
  };
  const int ntest = gen("Testparticles", 1, 1 + static_cast<int>(c.below(20)),
                        false);
  if (c.below(30) == 0 && ntest == 1 && gen.keys.empty()) {
    gen("Testparticles", 1, -static_cast<int>(c.below(3)), true);
    bad = true;
  }
  const auto modus =
      c.one_of<const char *>({"Collider", "Box", "Sphere", "List", "ListBox"});
  const bool box = std::string(modus) == "Box",
             list_box = std::string(modus) == "ListBox";
  gen("Modus", std::string(), std::string(modus), true);
  // also of those modi which are not used
  const double L = c.logreal(1, 100);
  {
    std::string m = "Modi: {";
    for (const char *x : {"Collider", "Box", "Sphere", "List", "ListBox"}) {
      if (x != std::string(modus) && c.below(3)) continue;
      const double l = x == std::string(modus) ? L : c.logreal(1, 100);
      m += pbt::Fmt() << std::setprecision(17) << x
                      << (x == std::string("Collider") ? ": {Sqrtsnn: "
                          : x == std::string("List")   ? ": {Shift_Id: "
                          : x == std::string("Sphere") ? ": {Radius: "
                                                       : ": {Length: ")
                      << (x == std::string("List") ? 1. : l) << "}, ";
    }
    top.push_back(m + "}");
  }
  const double length = box || list_box ? L : -1;
  double dt_max = 5;
  if (length > 0 && c.below(20)) dt_max = length / 10;
  const double dt = positive(c.logreal(1e-3, dt_max));
  const bool has_dt = c.flip() || dt <= 0;
  if (has_dt) gen("Delta_Time", 1., dt, true);
  if (length > 0 && (has_dt ? dt : 1.) > length / 10) bad = true;
  const double end = positive(c.logreal(10, 300));
  gen("End_Time", 0., end, true);
  const int ens = gen("Ensembles", 1, 1 + static_cast<int>(c.below(9)), false);
  const auto derivatives = choice<DerivativesMode>(
      c, gen, "Derivatives_Mode", DerivativesMode::CovariantGaussian,
      {{"Covariant Gaussian", DerivativesMode::CovariantGaussian},
       {"Finite difference", DerivativesMode::FiniteDifference},
       {"Off", DerivativesMode::Off}});
  const auto fields = choice<FieldDerivativesMode>(
      c, gen, "Field_Derivatives_Mode", FieldDerivativesMode::ChainRule,
      {{"Chain Rule", FieldDerivativesMode::ChainRule},
       {"Direct", FieldDerivativesMode::Direct}});
  const auto smearing = choice<SmearingMode>(
      c, gen, "Smearing_Mode", SmearingMode::CovariantGaussian,
      {{"Covariant Gaussian", SmearingMode::CovariantGaussian},
       {"Discrete", SmearingMode::Discrete},
       {"Triangular", SmearingMode::Triangular}});
  const double sigma = gen("Gaussian_Sigma", 1., c.uniform(0.2, 3), false),
               cut = gen("Gauss_Cutoff_In_Sigma", 4., c.uniform(1, 6), false),
               weight = gen("Discrete_Weight", 1. / 3, c.uniform(0.2, 1), false),
               range = gen("Triangular_Range", 2., c.uniform(1, 4), false);

  // output
  std::vector<double> times;
  double interval = end;
  switch (c.below(3)) {
    case 0: {
      std::string l;
      const size_t n = 1 + c.below(5);
      for (size_t i = 0; i < n; i++) {
        times.push_back(c.uniform(0.1, 10));
        l += pbt::Fmt() << std::setprecision(17) << (i ? ", " : "[")
                        << times.back();
      }
      out.keys.push_back("Output_Times: " + l + "]");
      if (c.below(10) == 0) {
        out("Output_Interval", 1., 1., true);
        bad = true;
      }
      std::sort(times.begin(), times.end());
      break;
    }
    case 1:
      interval = positive(c.logreal(0.01, 30));
      out("Output_Interval", end, interval, true);
      break;
    default:;
  }
  const bool participants =
      c.below(4) == 0 && c.flip() &&
      (out.keys.push_back("Thermodynamics: {Only_Participants: true}"), true);
  const bool vdf = c.below(4) == 0, skyrme = !vdf && c.below(4) == 0;
  if (vdf)
    top.push_back("Potentials: {VDF: {Sat_rhoB: 0.16, Powers: [2], Coeffs: "
                  "[100]}}");
  if (skyrme)
    top.push_back("Potentials: {Skyrme: {Skyrme_A: -209.2, Skyrme_B: 156.4, "
                  "Skyrme_Tau: 1.35}}");
  if (participants && (vdf || skyrme)) bad = true;

  // photons and dileptons need an output and the production
  for (bool photons : {true, false}) {
    const bool o = c.below(6) == 0, s = c.below(6) == 0 || (o && c.below(3)),
               a = c.flip(), b = photons && c.flip();
    if (o)
      out.keys.push_back(std::string(photons ? "Photons" : "Dileptons") +
                         ": {Format: [\"Oscar2013\"]}");
    if (s)
      ct.keys.push_back(
          photons ? pbt::Fmt() << std::boolalpha
                               << "Photons: {Fractional_Photons: 1"
                               << (a ? ", 2to2_Scatterings: true" : "")
                               << (b ? ", Bremsstrahlung: true" : "") << "}"
                  : pbt::Fmt() << std::boolalpha << "Dileptons: {Decays: "
                               << (a ? "true" : "false") << "}");
    if (o && !s) bad = true;
    if (!o && s && (a || b)) bad = true;
  }

  // collisions
  const auto criterion = choice<CollisionCriterion>(
      c, ct, "Collision_Criterion", CollisionCriterion::Covariant,
      {{"Geometric", CollisionCriterion::Geometric},
       {"Stochastic", CollisionCriterion::Stochastic},
       {"Covariant", CollisionCriterion::Covariant}});
  const bool stochastic = criterion == CollisionCriterion::Stochastic;
  const double scale =
      ct("Cross_Section_Scaling", 1., c.uniform(0.1, 3), false);
  double max_xs = with_dprime() ? 2000 : 200, cell = 2.5;
  if (c.below(3) == 0 && (!stochastic || c.below(8) == 0)) {
    max_xs = ct("Maximum_Cross_Section", 0., c.uniform(10, 500), true);
    bad = bad || stochastic;
  }
  if (c.below(3) == 0 && (stochastic || c.below(8) == 0)) {
    cell = ct("Fixed_Min_Cell_Length", 0., c.uniform(0.5, 5), true);
    bad = bad || !stochastic;
  }
  const double low = ct("Elastic_NN_Cutoff_Sqrts", 1.98, c.uniform(1.8, 2.2),
                        false),
               life = ct("Resonance_Lifetime_Modifier", 1., c.uniform(0.1, 3),
                         false);
  const bool two_one = ct("Two_to_One", true, false, false),
             strings = ct("Strings", !box, c.flip(), false),
             weak = ct("Ignore_Minimum_Decay_Width_For_Decays_At_The_End",
                       false, true, false),
             initial = ct("Decay_Initial_Particles", true, false, false);
  const auto nnbar = choice<NNbarTreatment>(
      c, ct, "NNbar_Treatment", NNbarTreatment::Strings,
      {{"no annihilation", NNbarTreatment::NoAnnihilation},
       {"resonances", NNbarTreatment::Resonances},
       {"two to five", NNbarTreatment::TwoToFive},
       {"strings", NNbarTreatment::Strings}});
  ReactionsBitSet two_two;
  two_two.set();
  if (c.flip()) {
    two_two.reset();
    two_two[IncludedReactions::Elastic] = true;
    two_two[IncludedReactions::NN_to_NR] = true;
    ct.keys.push_back("Included_2to2: [\"Elastic\", \"NN_to_NR\"]");
  }
  MultiParticleReactionsBitSet multi;
  if (c.flip()) {
    multi[IncludedMultiParticleReactions::NNbar_5to2] = true;
    ct.keys.push_back("Multi_Particle_Reactions: [\"NNbar_5to2\"]");
  }
  bool threshold = false;
  if (c.flip()) {
    threshold = c.flip();
    top.push_back(std::string("Lattice: {Potentials_Affect_Thresholds: ") +
                  (threshold ? "true" : "false") + "}");
  }
  std::string yaml = gen.yaml("General") + "\n" +
                     ct.yaml("Collision_Term") + "\n" + out.yaml("Output") +
                     "\n";
  for (const auto &t : top) yaml += t + "\n";
  c.note() << yaml;
  auto cfg = kit::config(yaml);
  std::optional<ExperimentParameters> made;
  bool refused = false;
  try {
    made.emplace(create_experiment_parameters(cfg));
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  cfg.clear();
  c.label(bad ? "refused" : "accepted");
  PBT_CHECK(c, refused == bad, (refused ? "refused" : "accepted"));
  if (refused) return;
  c.nontrivial();
  const ExperimentParameters &p = *made;
  PBT_CLOSE(c, p.labclock->current_time(), 0, 0, 0, "start");
  PBT_CLOSE(c, p.labclock->timestep_duration(), has_dt ? std::min(dt, end) : 1.,
            0, 1e-6, "time step");
  p.labclock->reset(0, false);
  {
    UniformClock *k = dynamic_cast<UniformClock *>(p.labclock.get());
    PBT_CHECK(c, k, "the clock is not uniform");
    k->set_timestep_duration(2 * end);
    PBT_CLOSE(c, k->next_time(), end, 0, 1e-6, "end");
  }
  p.outputclock->reset(0, true);
  if (!times.empty()) {
    for (size_t i = 0; i <= times.size(); i++) {
      PBT_CLOSE(c, p.outputclock->next_time(),
                i < times.size() ? times[i] : end + 1, 1e-12, 0,
                "output time " << i);
      ++*p.outputclock;
    }
  } else {
    PBT_CLOSE(c, p.outputclock->next_time(), std::min(interval, end), 0, 2e-6,
              "output interval");
  }
  PBT_CHECK(c, p.n_ensembles == ens, "ensembles " << p.n_ensembles);
  PBT_CHECK(c, p.testparticles == ntest, "test particles " << p.testparticles);
  PBT_CHECK(c, p.derivatives_mode == derivatives &&
                   p.field_derivatives_mode == fields &&
                   p.smearing_mode == smearing,
            "modes");
  PBT_CHECK(c, (p.rho_derivatives_mode ==
                RestFrameDensityDerivativesMode::On) == vdf,
            "derivatives of the rest frame density");
  PBT_CHECK(c, p.gaussian_sigma == sigma && p.gauss_cutoff_in_sigma == cut &&
                   p.discrete_weight == weight && p.triangular_range == range,
            "smearing");
  PBT_CHECK(c, p.coll_crit == criterion && p.two_to_one == two_one &&
                   p.included_2to2 == two_two && p.included_multi == multi &&
                   p.strings_switch == strings && p.nnbar_treatment == nnbar,
            "collision term");
  PBT_CHECK(c, p.res_lifetime_factor == life && p.low_snn_cut == low &&
                   p.fixed_min_cell_length == cell && p.scale_xs == scale,
            "numbers of the collision term");
  PBT_CHECK(c, p.potential_affect_threshold == threshold,
            "potentials and thresholds");
  PBT_CHECK(c, p.only_participants == participants, "participants");
  PBT_CHECK(c,
            p.do_non_strong_decays == weak &&
                p.decay_initial_particles == initial,
            "decays");
  PBT_CLOSE(c, p.box_length, length, 0, 0, "length of the box");
  PBT_CLOSE(c, p.maximum_cross_section, max_xs * scale, 1e-12, 0,
            "maximum cross section");
}

// the energy of the mean field
PBT_PROP(mean_field, 1500, 40000) {
  kit::Params par;
  par.testparticles = 1 + static_cast<int>(c.below(5));
  par.ensembles = 1 + static_cast<int>(c.below(4));
  const int kind = static_cast<int>(c.below(3));
  const bool coulomb = c.flip();
  double A = 0, B = 0, tau = 0, sat = 0.16;
  std::vector<double> b, C;
  std::ostringstream y;
  y << std::setprecision(17) << "Potentials: {Use_Potentials_Outside_Lattice: "
    << "true";
  if (kind == 1) {
    A = c.uniform(-300, 300);
    B = c.uniform(-300, 300);
    tau = c.uniform(1.05, 3);
    y << ", Skyrme: {Skyrme_A: " << A << ", Skyrme_B: " << B
      << ", Skyrme_Tau: " << tau << "}";
  } else if (kind == 2) {
    sat = c.uniform(0.1, 0.2);
    const size_t n = 1 + c.below(4);
    y << ", VDF: {Sat_rhoB: " << sat << ", Powers: [";
    for (size_t i = 0; i < n; i++) {
      b.push_back(c.uniform(1.1, 5));
      C.push_back(c.uniform(-300, 300));
      y << (i ? ", " : "") << b[i];
    }
    y << "], Coeffs: [";
    for (size_t i = 0; i < n; i++) y << (i ? ", " : "") << C[i];
    y << "]}";
  }
  if (coulomb) y << ", Coulomb: {R_Cut: 5}";
  y << "}";
  c.note() << y.str();
  const Potentials pot(kit::config(y.str()), DensityParameters(par.make()));
  std::array<double, 3> l, o;
  std::array<int, 3> n;
  double V = 1;
  for (int i = 0; i < 3; i++) {
    l[i] = c.uniform(1, 20);
    o[i] = c.uniform(-10, 10);
    n[i] = 1 + static_cast<int>(c.below(4));
    V *= l[i] / n[i];
  }
  RectangularLattice<DensityOnLattice> j(l, n, o, false,
                                         LatticeUpdate::EveryTimestep);
  RectangularLattice<std::pair<ThreeVector, ThreeVector>> em(
      l, n, o, false, LatticeUpdate::EveryTimestep);
  double want = 0, size = 0;
  for (auto &node : j) {
    if (c.below(4) == 0) continue;
    double rho = 0, j0 = 0;
    for (int sign : {1, -1}) {
      if (c.flip()) continue;
      const double r = c.uniform(0.01, 1);
      const ThreeVector v = kit::direction(c) * c.uniform(0, 0.9);
      const FourVector u = FourVector(1, v) * (sign * r / std::sqrt(1 - v.sqr()));
      if (sign > 0)
        node.add_to_jmu_pos(u);
      else
        node.add_to_jmu_neg(u);
      rho += sign * r;
      j0 += u.x0();
    }
    const double x = std::abs(rho);
    if (x < 1e-6) {
      if (j0 != 0) c.discard();
      continue;
    }
    auto add = [&](double e) {
      want += V * e;
      size += std::abs(V * e);
    };
    if (kind == 1) {
      add(1e-3 * A / 2 * x * x / nuclear_density);
      add(1e-3 * B / (tau + 1) * x * std::pow(x / nuclear_density, tau));
    }
    for (size_t i = 0; i < b.size(); i++) {
      const double f = 1e-3 * C[i] * std::pow(x / sat, b[i] - 2) / sat;
      add(f * j0 * j0);
      add(-f * (b[i] - 1) / b[i] * x * x);
    }
  }
  for (auto &f : em) {
    f = {kit::direction(c) * c.uniform(0, 2), kit::direction(c) * c.uniform(0, 2)};
    if (coulomb) {
      const double e = 0.5 * hbarc * V * (f.first.sqr() + f.second.sqr());
      want += e;
      size += e;
    }
  }
  c.nontrivial(size > 0);
  const auto ep = par.make();
  const double factor = par.testparticles * par.ensembles;
  PBT_CLOSE(c, calculate_mean_field_energy(pot, j, &em, ep), factor * want, 0,
            1e-8 * factor * size + 1e-12, "mean field energy");
  if (!coulomb)
    PBT_CLOSE(c, calculate_mean_field_energy(pot, j, nullptr, ep),
              factor * want, 0, 1e-8 * factor * size + 1e-12,
              "mean field energy without fields");
}

// what is reported
PBT_PROP(reports, 1500, 40000) {
  double e, e0;
  size_t n, n0;
  const auto now = ensembles(c, e, n), before = ensembles(c, e0, n0);
  kit::Params par;
  par.testparticles = 1 + static_cast<int>(c.below(5));
  par.ensembles = static_cast<int>(now.size());
  par.box = c.flip() ? -1 : c.uniform(1, 20);
  const double mf = c.flip() ? 0 : c.uniform(-5, 5),
               mf0 = c.flip() ? 0 : c.uniform(-5, 5), t = c.uniform(0, 90),
               b = c.uniform(0, 15);
  const bool hit = c.flip(), cuts = c.flip();
  auto ep = par.make();
  ep.outputclock = std::make_unique<UniformClock>(0., 0.5, 100.);
  ep.outputclock->reset(t, false);
  c.note() << n << " particles, energy " << e << " field " << mf;
  const EventInfo i = fill_event_info(now, mf, b, ep, hit, cuts);
  PBT_CLOSE(c, i.total_kinetic_energy, e, 1e-12, 1e-12, "kinetic energy");
  PBT_CLOSE(c, i.total_mean_field_energy, mf, 0, 0, "field energy");
  PBT_CLOSE(c, i.total_energy, e + mf, 1e-12, 1e-12, "energy");
  PBT_CLOSE(c, i.current_time, t, 0, 1e-6, "time");
  PBT_CLOSE(c, i.impact_parameter, b, 0, 0, "impact parameter");
  PBT_CLOSE(c, i.modus_length, par.box, 0, 0, "length");
  PBT_CHECK(c, i.test_particles == par.testparticles &&
                   i.n_ensembles == par.ensembles,
            "numbers");
  PBT_CHECK(c, i.empty_event == !hit &&
                   i.impose_kinematic_cut_for_SMASH_IC == cuts,
            "flags");
  const uint64_t scatterings = c.below(10000);
  std::istringstream s(format_measurements(
      now, scatterings, QuantumNumbers(before), SystemClock::now(), t, mf,
      mf0));
  std::vector<std::string> w;
  for (std::string x; s >> x;) w.push_back(x);
  PBT_CHECK(c, w.size() >= 9, w.size() << " columns");
  auto column = [&](int k, double want, int digits, const char *what) {
    PBT_CLOSE(c, std::stod(w[k]), want, 1e-9, 0.51 * std::pow(10., -digits),
              what);
  };
  column(0, t, 3, "time");
  column(1, e, 3, "kinetic energy");
  column(2, mf, 3, "mean field energy");
  column(3, e + mf, 3, "energy");
  column(4, n ? (e + mf) / n : 0, 6, "energy per particle");
  if (n)
    column(5, (e - e0 + mf - mf0) / n, 6, "change of the energy per particle");
  else
    PBT_CHECK(c, w[5] == "N/A", "change is " << w[5]);
  PBT_CHECK(c, w[6] == std::to_string(scatterings), "scatterings " << w[6]);
  PBT_CHECK(c, w[7] == std::to_string(n), "particles " << w[7]);
  PBT_CHECK(c, std::stod(w[8]) >= 0 && std::stod(w[8]) < 60, "elapsed time");
  c.nontrivial(n > 1);
}

// lists given from the outside during the evolution
PBT_PROP(lists, 1500, 40000) {
  ParticleList l;
  const size_t n = c.count(0, 6);
  size_t bad = 0;
  for (size_t i = 0; i < n; i++) {
    ParticleData p = particle(c);
    p.set_id(static_cast<int>(c.below(100)));
    p.set_formation_time(p.position().x0() - c.uniform(0, 1));
    p.set_cross_section_scaling_factor(c.flip() ? 1 : c.uniform(0, 1));
    if (c.below(3) == 0) {
      p.set_4momentum(p.type().mass() + c.logreal(1e-5, 1),
                      p.momentum().threevec());
      bad++;
    }
    c.note() << p.type().name() << " " << p.momentum().abs() << " ";
    l.push_back(p);
  }
  const size_t nan = c.below(12) == 0 && n ? c.below(n) : n;
  if (nan < n) {
    if (c.flip())
      l[nan].set_4position(FourVector(NAN, 0, 0, 0));
    else
      l[nan].set_4momentum(FourVector(1, 0, NAN, 0));
  }
  ParticleList made = l;
  bool thrown = false;
  try {
    validate_and_adjust_particle_list(made);
  } catch (const std::exception &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown == (nan < n), "NaN " << (thrown ? "refused" : "accepted"));
  if (thrown) return;
  PBT_CHECK(c, made.size() == n, "size");
  c.nontrivial(bad > 0);
  for (size_t i = 0; i < n; i++) {
    const ParticleData &a = l[i], &b = made[i];
    PBT_CHECK(c, a.type() == b.type() && a.id() == b.id() &&
                     a.position() == b.position() &&
                     a.momentum().threevec() == b.momentum().threevec(),
              "particle " << i << " changed");
    const double m = a.momentum().abs();
    const double want = a.type().is_stable() ? a.type().mass() : m;
    PBT_CLOSE(c, b.momentum().x0(),
              std::sqrt(sq(want) + a.momentum().threevec().sqr()), 1e-12, 2e-6,
              "energy of " << a.type().name());
    PBT_CLOSE(c, b.xsec_scaling_factor(), 1, 0, 0, "scaling");
  }
}

PBT_MAIN
