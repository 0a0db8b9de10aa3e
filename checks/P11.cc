// P11: free motion, periodic boundaries and expanding space.
#include "params.h"
#include "smash/action.h"
#include "smash/algorithms.h"
#include "smash/boxmodus.h"
#include "smash/configuration.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smash/propagation.h"
#include "smash/wallcrossingaction.h"
#include "smashkit.h"

using namespace smash;

namespace {
ParticleData particle(pbt::Case &c, double t, const ThreeVector &x) {
  const ParticleType &ty = *kit::species(c);
  ParticleData p{ty};
  ThreeVector mom = kit::momentum3(c);
  // now and then along an axis
  if (c.below(4) == 0) {
    const double q = mom.abs();
    mom = ThreeVector(0., 0., 0.);
    mom[c.below(3)] = c.flip() ? q : -q;
  }
  if (ty.mass() == 0. && mom.abs() < 1e-3) mom = ThreeVector(0., 0.1, 0.);
  p.set_4momentum(ty.mass(), mom);
  p.set_4position(FourVector(t, x));
  p.set_formation_time(c.uniform(-1., 5.));
  p.set_cross_section_scaling_factor(c.one_of({1., 0.5, 0.}));
  return p;
}
void give_history(pbt::Case &c, ParticleData &p) {
  if (c.flip())
    p.set_history(static_cast<int>(c.below(4)), 1 + c.below(9),
                  ProcessType::Elastic, c.uniform(0., 1.), ParticleList{});
}
bool untouched(const ParticleData &a, const ParticleData &b) {
  return a.id() == b.id() && a.type() == b.type() &&
         a.momentum() == b.momentum() &&
         a.id_process() == b.id_process() &&
         a.get_history().collisions_per_particle ==
             b.get_history().collisions_per_particle &&
         a.get_history().time_last_collision ==
             b.get_history().time_last_collision;
}
class Counter : public OutputInterface {
 public:
  Counter() : OutputInterface("Counter") {}
  explicit Counter(const std::string &n) : OutputInterface(n) {}
  void at_interaction(const Action &a, const double) override {
    types.push_back(a.get_type());
    ids.push_back(a.incoming_particles()[0].id());
    pos.push_back(a.incoming_particles()[0].position());
    out.push_back(a.outgoing_particles()[0].position());
  }
  std::vector<ProcessType> types;
  std::vector<int> ids;
  std::vector<FourVector> pos, out;
};
}  // namespace

// straight lines, with the momentum (or the beam) velocity
PBT_PROP(straight_line, 6000, 200000) {
  Particles list;
  const size_t n = c.count(0, 8);
  const double to = c.uniform(0., 100.);
  for (size_t i = 0; i < n; i++) {
    ParticleData p = particle(c, c.flip() ? to : c.uniform(-50., to),
                              kit::position3(c, 20.));
    give_history(c, p);
    list.insert(p);
  }
  std::vector<FourVector> beam;
  if (c.flip())
    for (size_t i = 0, m = c.count(0, 8); i < m; i++) {
      const ThreeVector v = kit::velocity(c, 20.);
      const double m0 = c.uniform(0.5, 2.), g = 1 / std::sqrt(1 - v.sqr());
      beam.push_back(FourVector(m0 * g, v * (m0 * g)));
    }
  const ParticleList before = list.copy_to_vector();
  propagate_straight_line(&list, to, beam);
  const ParticleList after = list.copy_to_vector();
  PBT_CHECK(c, after.size() == n, "number of particles");
  size_t frozen = 0;
  for (size_t i = 0; i < n; i++) {
    const auto &a = before[i], &b = after[i];
    PBT_CHECK(c, untouched(a, b), "propagation changes more than positions");
    PBT_CHECK(c,
              b.formation_time() == a.formation_time() &&
                  b.initial_xsec_scaling_factor() ==
                      a.initial_xsec_scaling_factor(),
              "propagation changes the formation");
    PBT_CLOSE(c, b.position().x0(), to, 0., 0., "time");
    const bool f = static_cast<size_t>(a.id()) < beam.size() &&
                   a.get_history().collisions_per_particle == 0;
    frozen += f;
    const FourVector &k = f ? beam[a.id()] : a.momentum();
    for (int j = 1; j < 4; j++) {
      const double v = k[j] / k[0];
      PBT_CLOSE(c, b.position()[j],
                a.position()[j] + v * (to - a.position()[0]), 1e-9, 1e-9,
                "position " << j << " after propagation");
    }
  }
  // in two steps or at once
  const double mid = to + c.uniform(0., 10.), far = mid + c.uniform(0., 10.);
  Particles one, two;
  for (auto &p : after) {
    one.insert(p);
    two.insert(p);
  }
  propagate_straight_line(&one, far, {});
  propagate_straight_line(&two, mid, {});
  propagate_straight_line(&two, far, {});
  const ParticleList l1 = one.copy_to_vector(), l2 = two.copy_to_vector();
  for (size_t i = 0; i < n; i++)
    PBT_CHECK(c, (l1[i].position() - l2[i].position()).abs3() < 1e-9 * 200,
              "two steps differ from one");
  c.label("frozen Fermi motion", frozen > 0);
  c.nontrivial(n > 1);
}

// going back in time, and forth again
PBT_PROP(backwards, 5000, 150000) {
  Particles list;
  const size_t n = c.count(1, 8);
  double first = 1e9;
  for (size_t i = 0; i < n; i++) {
    ParticleData p =
        particle(c, c.uniform(0., 10.), kit::position3(c, 20.));
    first = std::min(first, p.position().x0());
    list.insert(p);
  }
  const double to = first - (c.flip() ? c.uniform(0., 10.) : 0.);
  const ParticleList before = list.copy_to_vector();
  backpropagate_straight_line(&list, to);
  const ParticleList after = list.copy_to_vector();
  for (size_t i = 0; i < n; i++) {
    const auto &a = before[i], &b = after[i];
    PBT_CHECK(c, untouched(a, b), "only positions and formation may change");
    PBT_CLOSE(c, b.position().x0(), to, 0., 0., "time");
    PBT_CLOSE(c, b.formation_time(), a.position().x0(), 0., 0.,
              "particles form where they appeared");
    PBT_CLOSE(c, b.initial_xsec_scaling_factor(), 0., 0., 0.,
              "no interactions before that");
    for (int j = 1; j < 4; j++)
      PBT_CLOSE(c, b.position()[j],
                a.position()[j] + a.momentum()[j] / a.momentum()[0] *
                                      (to - a.position()[0]),
                1e-9, 1e-9, "position " << j);
  }
  // back to where they appeared
  for (auto &p : list) {
    Particles single;
    single.insert(p);
    propagate_straight_line(&single, p.formation_time(), {});
    for (auto &a : before)
      if (a.id() == p.id())
        PBT_CHECK(c,
                  (single.front().position() - a.position()).abs3() < 1e-8,
                  "returning does not undo going back");
  }
  c.nontrivial(n > 1);
}

// wall crossings follow the free trajectory modulo the box length
PBT_PROP(walls, 5000, 150000) {
  const double len = c.logreal(0.5, 40.);
  const double t0 = c.uniform(0., 10.), dt = c.logreal(0.01, 5. * len);
  const WallCrossActionsFinder finder(len);
  Particles list;
  const size_t n = c.count(1, 5);
  for (size_t i = 0; i < n; i++) {
    ThreeVector x;
    for (int k = 0; k < 3; k++)
      x[k] = c.below(8) == 0 ? 0. : c.uniform(0., len) * (1 - 1e-12);
    ParticleData p = particle(c, t0, x);
    give_history(c, p);
    list.insert(p);
  }
  const ParticleList before = list.copy_to_vector();
  auto unfolded = [&](const ParticleData &p, double t, int k) {
    return p.position()[k + 1] +
           p.momentum()[k + 1] / p.momentum()[0] * (t - t0);
  };
  size_t crossings = 0;
  uint32_t id = 1;
  double worst = 0;
  for (size_t i = 0; i < n; i++) {
    // a particle's crossings one after the other
    double last = t0;
    for (int guard = 0;; guard++) {
      PBT_CHECK(c, guard < 60, "crossings do not come to an end");
      ParticleData now = before[i];
      for (auto &p : list)
        if (p.id() == before[i].id()) now = p;
      const double left = t0 + dt - now.position().x0();
      if (left <= 0) break;
      auto acts = finder.find_actions_in_cell({now}, left, 1., {});
      PBT_CHECK(c, acts.size() <= 1, "two crossings at once");
      if (acts.empty()) break;
      auto &a = acts[0];
      PBT_CHECK(c, a->get_type() == ProcessType::Wall, "type of action");
      PBT_CHECK(c, a->is_valid(list), "crossing is outdated");
      const double t = a->time_of_execution();
      PBT_CHECK(c, t >= last - 1e-9 * (1 + len) && t <= t0 + dt + 1e-9,
                "crossing at " << t << " outside of the step, last " << last);
      last = t;
      const FourVector pos = a->outgoing_particles()[0].position();
      PBT_CLOSE(c, pos.x0(), t, 1e-12, 1e-12, "time of the crossing point");
      int at = 0;
      for (int k = 0; k < 3; k++) {
        // the image of the trajectory's point
        const double u = unfolded(before[i], t, k);
        double off = std::fabs(pos[k + 1] - u);
        off = std::fabs(off - len * std::round(off / len));
        worst = std::max(worst, off);
        PBT_CHECK(c, off < 1e-8 * (1 + len + std::fabs(u)),
                  "crossing point " << k << " is off by " << off);
        PBT_CHECK(c, pos[k + 1] > -1e-9 * len && pos[k + 1] < len * (1 + 1e-9),
                  "crossing point outside of the box");
        const double v = now.momentum()[k + 1];
        at += (v > 0 && std::fabs(pos[k + 1]) < 1e-9 * len) ||
              (v < 0 && std::fabs(pos[k + 1] - len) < 1e-9 * len);
      }
      PBT_CHECK(c, at > 0, "the crossing does not end on the entered side");
      a->generate_final_state();
      a->perform(&list, id++);
      crossings++;
    }
  }
  // no particle left the box, nothing but positions changed
  propagate_straight_line(&list, t0 + dt, {});
  const ParticleList after = list.copy_to_vector();
  PBT_CHECK(c, after.size() == n, "particle number");
  for (size_t i = 0; i < n; i++) {
    const ParticleData *b = nullptr;
    for (auto &p : after)
      if (p.id() == before[i].id()) b = &p;
    PBT_CHECK(c, b != nullptr, "a particle lost its id");
    PBT_CHECK(c,
              b->momentum() == before[i].momentum() &&
                  b->get_history().collisions_per_particle ==
                      before[i].get_history().collisions_per_particle &&
                  b->formation_time() == before[i].formation_time(),
              "a wall crossing changes more than the position");
    for (int k = 0; k < 3; k++) {
      PBT_CHECK(c,
                // (wraps of motion slower than 1e-6 c are left to the
                // boundary conditions imposed after each step)
                b->position()[k + 1] > -1e-8 * (1 + len) - 1e-6 * dt &&
                    b->position()[k + 1] < len + 1e-8 * (1 + len) + 1e-6 * dt,
                "left the box: " << b->position()[k + 1] << " of " << len);
      const double u = unfolded(before[i], t0 + dt, k);
      double off = std::fabs(b->position()[k + 1] - u);
      off = std::fabs(off - len * std::round(off / len));
      PBT_CHECK(c, off < 1e-7 * (1 + len + std::fabs(u)),
                "wrong end point, off by " << off);
    }
  }
  PBT_CHECK(c, finder.find_final_actions(list).empty(), "final wall crossings");
  c.nontrivial(crossings > 1);
  c.label("many crossings", crossings > 5);
}

// imposing the boundary after a free step
PBT_PROP(boundary, 4000, 100000) {
  const double len = c.logreal(0.5, 40.);
  Configuration conf = kit::config(
      "Modi:\n  Box:\n    Length: " + std::to_string(len) +
      "\n    Temperature: 0.2\n    Start_Time: 0.0\n"
      "    Initial_Condition: \"peaked momenta\"\n"
      "    Init_Multiplicities:\n      211: 1\n");
  kit::Params par;
  const double length = std::stod(std::to_string(len));
  par.box = length;
  BoxModus box(std::move(conf), par.make());
  PBT_CLOSE(c, box.length(), length, 0., 0., "length");
  Particles list;
  const size_t n = c.count(0, 10);
  for (size_t i = 0; i < n; i++) {
    ThreeVector x;
    for (int k = 0; k < 3; k++) {
      const size_t w = c.below(8);
      x[k] = w == 0   ? 0.
             : w == 1 ? length
             : w == 2 ? -length
             : w == 3 ? length * (1 - 1e-15)
             : w == 4 ? c.uniform(-length, 2 * length) * (1 - 1e-12)
                      : c.uniform(0., length) * (1 - 1e-12);
    }
    ParticleData p = particle(c, 1., x);
    list.insert(p);
  }
  const ParticleList before = list.copy_to_vector();
  OutputsList outs;
  auto counter = std::make_unique<Counter>();
  Counter *seen = counter.get();
  outs.push_back(std::move(counter));
  auto dil = std::make_unique<Counter>("Dileptons"),
       pho = std::make_unique<Counter>("Photons");
  Counter *s1 = dil.get(), *s2 = pho.get();
  outs.push_back(std::move(dil));
  outs.push_back(std::move(pho));
  const int wraps = box.impose_boundary_conditions(&list, outs);
  const ParticleList after = list.copy_to_vector();
  std::vector<int> moved;
  for (size_t i = 0; i < n; i++) {
    const auto &a = before[i], &b = after[i];
    PBT_CHECK(c, untouched(a, b) && a.position()[0] == b.position()[0],
              "more than positions changed");
    bool hit = false;
    for (int k = 1; k < 4; k++) {
      const double x = a.position()[k], y = b.position()[k];
      hit = hit || x < 0 || x >= length;
      PBT_CHECK(c, y >= 0 && y <= length, "not in the box: " << y);
      if (x >= 0 && x < length)
        PBT_CLOSE(c, y, x, 0., 0., "moved without need");
      else
        PBT_CLOSE(c, std::fabs(y - x), length, 1e-12, 0., "moved by a length");
    }
    if (hit) moved.push_back(a.id());
  }
  PBT_CHECK(c, wraps == static_cast<int>(moved.size()) && seen->ids == moved,
            "reported " << wraps << " wraps, output saw " << seen->ids.size()
                        << ", there were " << moved.size());
  for (size_t i = 0; i < seen->ids.size(); i++) {
    PBT_CHECK(c, seen->types[i] == ProcessType::Wall, "type");
    for (size_t j = 0; j < n; j++)
      if (before[j].id() == seen->ids[i])
        PBT_CHECK(c,
                  seen->pos[i] == before[j].position() &&
                      seen->out[i] == after[j].position(),
                  "output of a wrap");
  }
  PBT_CHECK(c, s1->ids.empty() && s2->ids.empty(),
            "wall crossings in dilepton or photon output");
  c.nontrivial(!moved.empty() && moved.size() < n);
}

// any container of numbers
PBT_PROP(enforce, 3000, 50000) {
  const double len = c.logreal(1e-3, 1e3);
  std::vector<double> v;
  for (size_t i = 0, n = c.count(0, 8); i < n; i++)
    v.push_back(c.below(4) == 0
                    ? c.one_of({0., 1., -1., 0.5, 1.5}) * len
                    : c.uniform(-1., 2.) * len * (1 - 1e-12));
  std::vector<double> w = v;
  const bool did = enforce_periodic_boundaries(w.begin(), w.end(), len);
  bool need = false;
  for (size_t i = 0; i < v.size(); i++) {
    const double x = v[i], ref = x < 0 ? x + len : x >= len ? x - len : x;
    need = need || x < 0 || x >= len;
    PBT_CLOSE(c, w[i], ref, 0., 0., "wrapped value of " << x << " in " << len);
  }
  PBT_CHECK(c, did == need, "reports " << did);
  c.nontrivial(need);
}

// expanding metrics
PBT_PROP(expansion, 4000, 100000) {
  const double b = c.one_of({0., 1., 0.}) + c.logreal(1e-4, 2.);
  const double t0 = c.uniform(0., 20.), dt = c.logreal(1e-4, 0.1);
  const ExpansionMode mode = c.one_of(
      {ExpansionMode::NoExpansion, ExpansionMode::MasslessFRW,
       ExpansionMode::MassiveFRW, ExpansionMode::Exponential});
  const ExpansionProperties metric(mode, b);
  const double h = calc_hubble(t0, metric);
  // H = a'/a of the documented scale factors
  auto lna = [&](double t) {
    switch (mode) {
      case ExpansionMode::MasslessFRW:
        return 0.5 * std::log(b * t + 1);
      case ExpansionMode::MassiveFRW:
        return 2. / 3. * std::log(b * t + 1);
      case ExpansionMode::Exponential:
        return 0.5 * b * t * t;
      default:
        return 0.;
    }
  };
  const double e = 1e-4;
  PBT_CLOSE(c, h, (lna(t0 + e) - lna(t0 - e)) / (2 * e), 1e-5, 1e-9,
            "Hubble parameter");
  kit::Params par;
  par.t0 = t0;
  par.dt = dt;
  auto p = par.make();
  const double tick = p.labclock->timestep_duration();
  const double hh = calc_hubble(p.labclock->current_time(), metric);
  Particles list;
  const size_t n = c.count(1, 6);
  for (size_t i = 0; i < n; i++)
    list.insert(particle(c, t0, kit::position3(c, 20.)));
  const ParticleList before = list.copy_to_vector();
  expand_space_time(&list, p, metric);
  size_t i = 0;
  for (auto &q : list) {
    const ParticleData &a = before[i++];
    PBT_CLOSE(c, q.position()[0], a.position()[0], 0., 0., "time");
    for (int k = 1; k < 4; k++) {
      PBT_CLOSE(c, q.position()[k], a.position()[k] * (1 + hh * tick), 1e-10,
                1e-12, "position");
      PBT_CLOSE(c, q.momentum()[k], a.momentum()[k] * (1 - hh * tick), 1e-10,
                1e-12, "momentum");
    }
    const double m = a.type().mass();
    PBT_CLOSE(c, q.momentum()[0],
              std::sqrt(m * m + q.momentum().threevec().sqr()), 1e-10, 0.,
              "energy after expansion");
  }
  c.nontrivial(mode != ExpansionMode::NoExpansion);
}

namespace pbt {
void setup() { kit::load_default(); }
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN
