// P09: resonance decays.
#include <map>

#include "smash/action.h"
#include "smash/decayaction.h"
#include "smash/decayactionsfinder.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/kinematics.h"
#include "smash/particles.h"
#include "smash/constants.h"
#include "smashkit.h"

using namespace smash;

namespace {
std::vector<ParticleTypePtr> res;

double thr_of(const ParticleTypePtrList &t) {
  double s = 0;
  for (auto p : t) s += p->min_mass_kinematic();
  return s;
}
double some_mass(pbt::Case &c, const ParticleType &t) {
  const double lo = t.min_mass_spectral();
  switch (c.below(4)) {
    case 0:
      return std::max(t.mass(), lo + 1e-3);
    case 1:
      return c.uniform(lo + 1e-3, t.mass() + t.width_at_pole());
    default:
      return std::max(lo + 1e-3, t.mass() + t.width_at_pole() *
                                                c.uniform(-0.8, 3.));
  }
}
ParticleData mother(pbt::Case &c, const ParticleType &t, double m) {
  ParticleData p{t};
  p.set_4momentum(m, kit::momentum3(c));
  p.set_4position(FourVector(c.uniform(0., 50.), kit::position3(c)));
  p.set_formation_time(p.position().x0() - c.uniform(0., 3.));
  p.set_history(static_cast<int>(c.below(5)) + 1, 7, ProcessType::Elastic, 0.5,
                {p, p});
  return p;
}
// limit for a Kolmogorov-Smirnov distance, exceeded with P < 2e-10
double ks_limit(size_t n) { return 3.4 / std::sqrt(static_cast<double>(n)); }
double ks_uniform(std::vector<double> u) {
  std::sort(u.begin(), u.end());
  double d = 0;
  const double n = static_cast<double>(u.size());
  for (size_t i = 0; i < u.size(); i++) {
    d = std::max(d, std::fabs(u[i] - static_cast<double>(i) / n));
    d = std::max(d, std::fabs(u[i] - static_cast<double>(i + 1) / n));
  }
  return d;
}
}  // namespace

// one decay: conservation laws, mass shells, positions, times, history
PBT_PROP_OPT(single_decay, 6000, 200000, 30, false) {
  const ParticleType &t = *c.pick(res);
  const double m = some_mass(c, t);
  kit::seed(c.seed32());
  Particles list;
  const size_t others = c.below(4);
  for (size_t i = 0; i < others; i++)
    list.insert(mother(c, ParticleType::find(0x211), 0.138));
  ParticleData p0 = mother(c, t, m);
  const double weight = c.uniform(0.1, 2.);
  if (t.pdgcode().is_heavy_flavor()) p0.set_perturbative_weight(weight);
  const bool core = c.below(4) == 0;
  if (core) p0.fluidize();
  const ParticleData p = list.insert(p0);
  for (size_t i = 0; i < c.below(3); i++)
    list.insert(mother(c, ParticleType::find(0x2212), 0.938));
  const size_t before = list.size();
  c.note() << kit::show(p) << " mass " << m;
  auto branches = t.get_partial_widths(p.momentum(), p.position().threevec(),
                                       WhichDecaymodes::Hadronic);
  if (branches.empty()) c.discard();
  double total = 0;
  for (auto &b : branches) total += b->weight();
  const double delay = c.uniform(0., 2.);
  DecayAction act(p, delay);
  act.add_decays(std::move(branches));
  PBT_CLOSE(c, act.total_width(), total, 1e-12, 0., "total width");
  PBT_CLOSE(c, act.get_total_weight(), total, 1e-12, 0., "total weight");
  PBT_CLOSE(c, act.time_of_execution(), p.position().x0() + delay, 1e-14,
            1e-14, "time of execution");
  // propagate to the decay, as the main loop does
  {
    ParticleData q = list.lookup(p);
    const double dt = act.time_of_execution() - q.position().x0();
    q.set_4position(q.position() + FourVector(dt, q.velocity() * dt));
    list.update_particle(p, q);
  }
  act.update_incoming(list);
  const ParticleData now = act.incoming_particles()[0];
  act.generate_final_state();
  const ParticleList out = act.outgoing_particles();
  // which mode is this?
  const DecayBranch *mode = nullptr;
  for (const auto &b : t.decay_modes().decay_mode_list()) {
    ParticleTypePtrList l;
    for (auto &q : out) l.push_back(&q.type());
    if (b->type().has_particles(l)) mode = b.get();
  }
  PBT_CHECK(c, mode, "daughters are not those of any decay mode");
  PBT_CHECK(c, m >= thr_of(mode->type().particle_types()),
            "decay below threshold");
  PBT_CHECK(c, act.get_type() == ProcessType::Decay, "process type");
  FourVector sum;
  int q = 0, b = 0, s = 0, ch = 0, bo = 0;
  for (auto &d : out) {
    sum += d.momentum();
    q += d.type().charge();
    b += d.type().baryon_number();
    s += d.type().strangeness();
    ch += d.pdgcode().charmness();
    bo += d.pdgcode().bottomness();
    const double e = p.momentum().x0();
    const double md = std::sqrt(std::max(0., d.momentum().sqr()));
    const double tol = 1e-7 * e * e / std::max(md, 1e-3) / 10 + 1e-6;
    if (d.type().is_stable())
      PBT_CLOSE(c, md, d.type().mass(), 0., tol, "daughter is off its mass");
    else
      PBT_CHECK(c, md >= d.type().min_mass_kinematic() - tol,
                d.type().name() << " of mass " << md << " is too light");
    PBT_CHECK(c, d.position() == now.position(),
              "daughter is at " << kit::show(d.position()));
    PBT_CHECK(c, d.formation_time() == act.time_of_execution(),
              "daughter forms at " << d.formation_time());
    PBT_CHECK(c, d.is_core() == core, "core label is not inherited");
    if (d.pdgcode().is_heavy_flavor())
      PBT_CLOSE(c, d.perturbative_weight(), p.perturbative_weight(), 1e-14, 0.,
                "weight");
  }
  const double e = p.momentum().x0();
  for (int k = 0; k < 4; k++)
    PBT_CLOSE(c, sum[k], p.momentum()[k], 0., 1e-8 * e,
              "four-momentum component " << k << " is not conserved");
  PBT_CHECK(c,
            q == t.charge() && b == t.baryon_number() &&
                s == t.strangeness() && ch == t.pdgcode().charmness() &&
                bo == t.pdgcode().bottomness(),
            "charges are not conserved");
  double part = 0;
  for (const auto &w : t.decay_modes().decay_mode_list())
    if (std::fabs(act.get_partial_weight() -
                  t.partial_width(p.momentum().abs(), w.get())) <
        1e-9 * total + 1e-15)
      part = 1;
  PBT_CHECK(c, part > 0, "partial weight is not the width of a mode");
  // the particle list after the decay
  const uint32_t id_process = 100 + static_cast<uint32_t>(c.below(1000));
  const double viol = act.perform(&list, id_process);
  PBT_CHECK(c, viol == 0., "energy violation " << viol);
  PBT_CHECK(c, list.size() == before - 1 + out.size(), "list size");
  PBT_CHECK(c, !list.is_valid(p), "the mother is still there");
  for (auto &d : act.outgoing_particles()) {
    PBT_CHECK(c, list.is_valid(d), "a daughter is not in the list");
    const ParticleData l = list.lookup(d);
    PBT_CHECK(c, l.momentum() == d.momentum() && l.type() == d.type(),
              "list and action disagree");
    const HistoryData h = l.get_history();
    PBT_CHECK(c,
              h.id_process == static_cast<int>(id_process) &&
                  h.process_type == ProcessType::Decay &&
                  h.p1 == t.pdgcode() && h.p2 == PdgCode(0x0) &&
                  h.time_last_collision == act.time_of_execution() &&
                  h.collisions_per_particle >= 1,
              "history of a daughter");
  }
  PBT_CHECK(c, !act.is_valid(list), "the decay can be done twice");
  c.nontrivial(t.decay_modes().decay_mode_list().size() > 1 &&
               p.momentum().sqr3() > 0.);
  c.label("three daughters", out.size() == 3);
  c.label("core", core);
}

// relative frequencies of the decay channels
PBT_PROP_OPT(branching, 40, 2000, 60, false) {
  const ParticleType &t = *c.pick(res);
  const double m = some_mass(c, t);
  kit::seed(c.seed32());
  const ParticleData p = mother(c, t, m);
  c.note() << t.name() << " mass " << m;
  std::map<const DecayType *, double> w;
  double tot = 0;
  std::map<std::multiset<std::string>, double> want, got;
  for (auto &b : t.get_partial_widths(p.momentum(), p.position().threevec(),
                                      WhichDecaymodes::Hadronic)) {
    std::multiset<std::string> names;
    for (auto d : b->type().particle_types()) names.insert(d->name());
    want[names] += b->weight();
    tot += b->weight();
  }
  if (want.size() < 2) c.discard();
  const double n = 1500;
  for (int i = 0; i < n; i++) {
    DecayAction act(p, 0.);
    act.add_decays(t.get_partial_widths(
        p.momentum(), p.position().threevec(), WhichDecaymodes::Hadronic));
    act.generate_final_state();
    std::multiset<std::string> names;
    for (auto &d : act.outgoing_particles()) names.insert(d.type().name());
    got[names]++;
  }
  for (auto &g : got)
    PBT_CHECK(c, want.count(g.first), "channel that is not open");
  for (auto &x : want) {
    const double f = x.second / tot;
    // Bernstein bound, P < 1e-9 per channel
    const double dev = std::sqrt(2 * 21.5 * n * f * (1 - f)) + 21.5 / 3 * 2;
    PBT_CHECK(c, std::fabs(got[x.first] - n * f) <= dev,
              "a channel of fraction " << f << " was taken " << got[x.first]
                                       << " times out of " << n);
  }
  c.nontrivial();
}

// decay angles are isotropic in the rest frame, and three-body decays fill the
// Dalitz plot uniformly
PBT_PROP_OPT(isotropy, 40, 2000, 60, false) {
  const bool three = c.flip();
  std::unique_ptr<DecayType> own;
  const DecayType *type = nullptr;
  ParticleTypePtr tp;
  double m;
  if (three) {
    // the default table has no three-body decays: make some
    tp = c.pick(res);
    ParticleTypePtrList d;
    double sum = 0;
    for (int i = 0; i < 3; i++) {
      d.push_back(&ParticleType::find(PdgCode::from_decimal(
          c.one_of<int>({211, 111, 321, 22, 2212, 221, 11}))));
      sum += d.back()->mass();
    }
    m = sum + (c.flip() ? c.uniform(0.05, 0.5) : c.uniform(0.5, 4.));
    own = std::make_unique<ThreeBodyDecay>(d, 0);
    type = own.get();
  } else {
    std::vector<std::pair<ParticleTypePtr, const DecayBranch *>> l;
    for (auto t : res)
      for (const auto &b : t->decay_modes().decay_mode_list()) {
        bool stable = b->type().particle_number() == 2;
        for (auto d : b->type().particle_types()) stable &= d->is_stable();
        if (stable) l.push_back({t, b.get()});
      }
    const auto &x = c.pick(l);
    tp = x.first;
    type = &x.second->type();
    m = std::max(some_mass(c, *tp), x.second->threshold() + 0.01);
  }
  const ParticleType &t = *tp;
  kit::seed(c.seed32());
  ParticleData p = mother(c, t, m);
  p.set_4momentum(m, kit::velocity(c, 5.) * m);
  c.note() << t.name() << " mass " << m << " daughters "
           << type->particle_types().size();
  std::vector<double> ct, ph, u, v;
  const size_t n = 3000;
  for (size_t i = 0; i < n; i++) {
    DecayAction act(p, 0.);
    act.add_decay(std::make_unique<DecayBranch>(*type, 0.1));
    act.generate_final_state();
    const auto &o = act.outgoing_particles();
    const size_t k = i % o.size();
    const FourVector q = o[k].momentum().lorentz_boost(p.velocity());
    const double a = q.threevec().abs();
    ct.push_back((q.x3() / a + 1) / 2);
    ph.push_back((std::atan2(q.x2(), q.x1()) + M_PI) / 2 / M_PI);
    if (three) {
      const double s12 = (o[0].momentum() + o[1].momentum()).sqr();
      const double s23 = (o[1].momentum() + o[2].momentum()).sqr();
      const double m1 = o[0].type().mass(), m2 = o[1].type().mass(),
                   m3 = o[2].type().mass(), r = std::sqrt(s12);
      const double e2 = (s12 - m1 * m1 + m2 * m2) / 2 / r,
                   e3 = (m * m - s12 - m3 * m3) / 2 / r;
      const double p2 = std::sqrt(std::max(0., e2 * e2 - m2 * m2)),
                   p3 = std::sqrt(std::max(0., e3 * e3 - m3 * m3));
      const double lo = (e2 + e3) * (e2 + e3) - (p2 + p3) * (p2 + p3),
                   hi = (e2 + e3) * (e2 + e3) - (p2 - p3) * (p2 - p3);
      if (hi > lo) {
        const double f = (s23 - lo) / (hi - lo);
        PBT_CHECK(c, f > -1e-3 && f < 1 + 1e-3, "outside the Dalitz plot");
        u.push_back(f);
      }
      // cumulative of the invariant mass of 1 and 2
      auto dens = [&](double y) {
        const double ee2 = (y * y - m1 * m1 + m2 * m2) / 2 / y,
                     ee3 = (m * m - y * y - m3 * m3) / 2 / y;
        return std::sqrt(std::max(0., ee2 * ee2 - m2 * m2)) *
               std::sqrt(std::max(0., ee3 * ee3 - m3 * m3)) * y;
      };
      static double key = -1;
      static std::vector<double> cdf;
      const int g = 1000;
      const double a0 = m1 + m2, a1 = m - m3;
      if (key != m + m1 * 7 + m2 * 13 || i == 0) {
        key = m + m1 * 7 + m2 * 13;
        cdf.assign(g + 1, 0.);
        for (int j = 1; j <= g; j++)
          cdf[j] = cdf[j - 1] + dens(a0 + (a1 - a0) * (j - 0.5) / g);
      }
      const double pos = (r - a0) / (a1 - a0) * g;
      const int j = std::min(g - 1, std::max(0, static_cast<int>(pos)));
      v.push_back((cdf[j] + (cdf[j + 1] - cdf[j]) * (pos - j)) / cdf[g]);
    }
  }
  PBT_CHECK(c, ks_uniform(ct) < ks_limit(n), "polar angle is not isotropic: "
                                                 << ks_uniform(ct));
  PBT_CHECK(c, ks_uniform(ph) < ks_limit(n), "azimuth is not uniform");
  if (three) {
    PBT_CHECK(c, ks_uniform(u) < ks_limit(n),
              "Dalitz plot is not uniform: " << ks_uniform(u));
    PBT_CHECK(c, ks_uniform(v) < ks_limit(n) + 0.003,
              "invariant mass of a pair: " << ks_uniform(v));
  }
  c.label(three ? "three-body" : "two-body");
  c.nontrivial();
}

// decay times: exponential with the dilated mean life time
PBT_PROP_OPT(decay_law, 60, 3000, 60, false) {
  const ParticleType &t = *c.pick(res);
  const double m = some_mass(c, t);
  const double factor = c.flip() ? 1. : c.uniform(0.2, 4.);
  kit::seed(c.seed32());
  ParticleData p = mother(c, t, m);
  p.set_4momentum(m, kit::velocity(c, 8.) * m);
  {
    // consistent energy
    const ThreeVector v = p.momentum().threevec() / m;  // velocity as given
    const double g = 1. / std::sqrt(std::max(1e-4, 1. - v.sqr()));
    p.set_4momentum(m, v * (g * m));
  }
  const bool unformed = c.below(3) == 0;
  double wait = 0;
  if (unformed) {
    wait = c.uniform(0.1, 2.);
    p.set_slow_formation_times(p.position().x0() - 0.5,
                               p.position().x0() + wait);
    p.set_cross_section_scaling_factor(c.uniform(0., 0.9));
  }
  double width = 0;
  for (auto &b : t.get_partial_widths(p.momentum(), p.position().threevec(),
                                      WhichDecaymodes::Hadronic))
    width += b->weight();
  if (width <= 0) c.discard();
  const double gamma = p.momentum().x0() / p.momentum().abs();
  const double tau = factor * hbarc / width * gamma;
  const double dt = wait + tau * c.one_of({0.1, 1., 3.});
  c.note() << t.name() << " mass " << m << " gamma " << gamma << " dt " << dt
           << " tau " << tau << " factor " << factor << " unformed " << wait;
  DecayActionsFinder finder(factor, true, true);
  const size_t n = 3000;
  ParticleList l(n, p);
  const auto acts = finder.find_actions_in_cell(l, dt, 1., {});
  const double f = 1 - std::exp(-(dt - wait) / tau);
  const double nn = static_cast<double>(n);
  const double dev = std::sqrt(2 * 21.5 * nn * f * (1 - f)) + 15;
  PBT_CHECK(c, std::fabs(static_cast<double>(acts.size()) - nn * f) <= dev,
            acts.size() << " of " << n << " decays, expected " << nn * f);
  std::vector<double> u;
  for (auto &a : acts) {
    const double td = a->time_of_execution() - p.position().x0() - wait;
    PBT_CHECK(c, td >= -1e-9 && td < dt - wait + 1e-9,
              "decay at " << td << " after formation");
    u.push_back((1 - std::exp(-td / tau)) / f);
    PBT_CLOSE(c, a->get_total_weight(), width, 1e-9, 0., "width of the action");
  }
  if (u.size() > 50)
    PBT_CHECK(c, ks_uniform(u) < ks_limit(u.size()),
              "decay times are not exponential: " << ks_uniform(u));
  c.nontrivial(gamma > 1.01);
  c.label("unformed", unformed);
  c.label("modified life time", factor != 1.);
}

// who decays in a time step and at the end
PBT_PROP(selection, 2000, 60000) {
  const size_t n = c.count(1, 12);
  kit::seed(c.seed32());
  Particles list;
  for (size_t i = 0; i < n; i++) {
    ParticleTypePtr t = kit::species(c);
    if (!t->is_stable()) t = c.pick(res);
    ParticleData p = mother(
        c, *t, t->is_stable() ? t->mass() : some_mass(c, *t));
    if (c.below(4) == 0) {
      HistoryData h;
      // initial particles may have crossed a wall or come from a list
      if (c.flip()) {
        h.process_type = c.pick(std::vector<ProcessType>{
            ProcessType::Wall, ProcessType::Decay, ProcessType::Elastic});
        h.id_process = static_cast<int>(c.below(3));
        h.time_last_collision = c.uniform(0., 10.);
      }
      p.set_history(std::move(h));  // an initial particle
    } else if (c.below(4) == 0) {
      HistoryData h = p.get_history();
      h.process_type = ProcessType::None;
      h.id_process = 0;
      h.collisions_per_particle = 1 + static_cast<int>(c.below(3));
      p.set_history(std::move(h));
    }
    list.insert(p);
  }
  const bool nonstrong = c.flip(), force = c.below(4) != 0;
  const bool initial = c.flip();
  DecayActionsFinder finder(1., nonstrong, force, SpinInteractionType::Off,
                            initial);
  // ... and initial particles may decay unless told otherwise
  DecayActionsFinder plain(1., nonstrong, force);
  PBT_CHECK(c, plain.decay_initial_particles_, "default of the option");
  // everything that may decay in a long step does, once
  std::map<int, int> found;
  for (auto &a : finder.find_actions_in_cell(list.copy_to_vector(), 1e9, 1.,
                                             {})) {
    PBT_CHECK(c, a->incoming_particles().size() == 1, "not a decay");
    found[a->incoming_particles()[0].id()]++;
  }
  for (auto &p : list) {
    const bool may =
        !p.type().is_stable() &&
        (initial || p.get_history().collisions_per_particle > 0);
    const double w = p.type().is_stable() ? 0. : p.type().total_width(
                         p.momentum().abs());
    if (w > 0. || !may)
      PBT_CHECK(c, found[p.id()] == (may ? 1 : 0),
                p.type().name() << " decays " << found[p.id()] << " times");
  }
  std::map<int, int> fin;
  for (auto &a : finder.find_final_actions(list)) {
    fin[a->incoming_particles()[0].id()]++;
    PBT_CLOSE(c, a->time_of_execution(),
              a->incoming_particles()[0].position().x0(), 0., 0.,
              "final decays are immediate");
  }
  size_t unstable = 0;
  for (auto &p : list) {
    const bool modes = !p.type().decay_modes().is_empty();
    const bool want =
        force && modes && (nonstrong || !p.type().is_stable());
    unstable += want;
    // a particle without any width left to decay with stays
    const double w = p.type().is_stable()
                         ? p.type().width_at_pole()
                         : p.type().total_width(p.momentum().abs());
    PBT_CHECK(c, fin[p.id()] == (want && w > 0. ? 1 : 0),
              "final decay of " << p.type().name() << ": " << fin[p.id()]);
  }
  PBT_CHECK(c, finder.find_actions_with_neighbors(list.copy_to_vector(),
                                                  list.copy_to_vector(), 1e9,
                                                  {})
                       .empty() &&
                   finder
                       .find_actions_with_surrounding_particles(
                           list.copy_to_vector(), list, 1e9, {})
                       .empty(),
            "decays that involve neighbours");
  c.nontrivial(unstable > 0 && unstable < list.size());
}

// decaying to the end leaves stable particles and the same conserved totals
PBT_PROP_OPT(cascade, 1500, 40000, 60, false) {
  kit::seed(c.seed32());
  Particles list;
  const size_t n = c.count(1, 6);
  FourVector tot;
  int q = 0, b = 0, s = 0;
  double e = 0;
  for (size_t i = 0; i < n; i++) {
    const ParticleType &t = *c.pick(res);
    const ParticleData p = mother(c, t, some_mass(c, t));
    list.insert(p);
    tot += p.momentum();
    e += p.momentum().x0();
    q += t.charge();
    b += t.baryon_number();
    s += t.strangeness();
  }
  const bool nonstrong = c.flip();
  for (auto &p : list) c.note() << kit::show(p) << "\n";
  DecayActionsFinder finder(1., nonstrong, true);
  uint32_t id = 1;
  for (int round = 0; round < 30; round++) {
    auto acts = finder.find_final_actions(list);
    if (acts.empty()) break;
    for (auto &a : acts) {
      PBT_CHECK(c, a->is_valid(list), "a final decay is outdated");
      a->generate_final_state();
      a->perform(&list, id++);
    }
    PBT_CHECK(c, round < 25, "decays do not come to an end");
  }
  FourVector after;
  for (auto &p : list) {
    PBT_CHECK(c, p.type().is_stable(), p.type().name() << " is left");
    after += p.momentum();
    q -= p.type().charge();
    b -= p.type().baryon_number();
    s -= p.type().strangeness();
  }
  for (int k = 0; k < 4; k++)
    PBT_CLOSE(c, after[k], tot[k], 0., 1e-7 * e, "four-momentum");
  PBT_CHECK(c, q == 0 && b == 0, "charge " << q << " or baryon number " << b
                                           << " lost");
  // decays of species that are stable under the strong interaction may be weak
  if (!nonstrong) PBT_CHECK(c, s == 0, "strangeness " << s << " lost");
  c.nontrivial(list.size() > 2 * n);
}

namespace pbt {
void setup() {
  kit::load_default();
  for (auto t : kit::resonances(4)) res.push_back(t);
}
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN
