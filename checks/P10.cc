// P10: how actions are queued, located, sampled and carried out.
#include <map>

#include "ref.h"
#include "smash/action.h"
#include "smash/actions.h"
#include "smash/particles.h"
#include "smash/quantumnumbers.h"
#include "smash/wallcrossingaction.h"
#include "smashkit.h"

using namespace smash;

namespace {
// an action whose final state the test dictates
class TestAction : public Action {
 public:
  TestAction(const ParticleList &in, const ParticleList &out, double t,
             ProcessType type)
      : Action(in, out, t, type) {}
  void generate_final_state() override {}
  double get_total_weight() const override { return 1.; }
  double get_partial_weight() const override { return 1.; }
  void format_debug_output(std::ostream &) const override {}
  void formation() { assign_formation_time_to_outgoing_particles(); }
  void box(double l) { box_length_ = l; }
  void two_body() { sample_2body_phasespace(); }
  void many_body() { sample_manybody_phasespace(); }
  FourVector incoming_momentum() const { return total_momentum(); }
};
ParticleData particle(pbt::Case &c, const ParticleType &t) {
  ParticleData p{t};
  const double m = t.mass();
  ThreeVector mom = kit::momentum3(c);
  if (m == 0 && mom.abs() < 1e-3) mom = ThreeVector(0., 0., 0.1);
  p.set_4momentum(m, mom);
  p.set_4position(FourVector(c.uniform(0., 20.), kit::position3(c)));
  p.set_formation_time(c.uniform(-2., 20.));
  return p;
}
double ks_limit(size_t n) { return 3.4 / std::sqrt(static_cast<double>(n)); }
long double mom(long double s, long double a, long double b) {
  if (s <= a + b) return 0;
  return sqrtl((s - a - b) * (s + a + b) * (s - a + b) * (s + a - b)) /
         (2 * s);
}
// density of the invariant mass of the first n-1 bodies, as cumulative sums
// over a grid: phi_k(M) = int dM' phi_{k-1}(M') p(M; M', m_k)
struct Table {
  double lo, hi;
  std::vector<long double> f;
  long double at(long double x) const {
    if (x <= lo || x >= hi) return x >= hi ? f.back() : 0;
    const long double y = (x - lo) / (hi - lo) * (f.size() - 1);
    const size_t i = std::min(f.size() - 2, static_cast<size_t>(y));
    return f[i] + (f[i + 1] - f[i]) * (y - i);
  }
};
Table phase_space(const std::vector<double> &m, size_t k, double top) {
  // for the first k bodies, tabulated up to invariant mass `top`
  double lo = 0;
  for (size_t i = 0; i < k; i++) lo += m[i];
  Table t{lo, top, {}};
  const int n = 240;
  Table prev{0, 0, {}};
  if (k > 2) prev = phase_space(m, k - 1, top - m[k - 1]);
  for (int i = 0; i <= n; i++) {
    const long double M = lo + (top - lo) * i / n;
    if (k == 2)
      t.f.push_back(mom(M, m[0], m[1]));
    else
      t.f.push_back(M - m[k - 1] <= prev.lo
                        ? 0
                        : ref::integrate(
                              [&](long double x) {
                                return prev.at(x) * mom(M, x, m[k - 1]);
                              },
                              prev.lo, M - m[k - 1], 16));
  }
  return t;
}
}  // namespace

// queue of actions against a sorted model
PBT_PROP(queue, 4000, 200000) {
  const ParticleType &pi = ParticleType::find(0x211);
  ParticleData p{pi};
  p.set_4momentum(0.138, ThreeVector());
  p.set_4position(FourVector(0, 0, 0, 0));
  auto make = [&](double t) {
    return std::make_unique<TestAction>(ParticleList{p}, ParticleList{p}, t,
                                        ProcessType::Elastic);
  };
  std::multiset<double> model;
  std::multiset<const Action *> all;
  ActionList init;
  auto time = [&] {
    return c.below(4) == 0 ? static_cast<double>(c.below(4))
                           : c.uniform(0., 10.);
  };
  for (size_t i = c.count(0, 20); i > 0; i--) {
    const double t = time();
    init.push_back(make(t));
    all.insert(init.back().get());
    model.insert(t);
  }
  Actions q(std::move(init));
  const size_t ops = c.count(1, 40);
  size_t pops = 0;
  for (size_t k = 0; k < ops; k++) {
    const uint64_t op = c.below(8);
    if (op < 3) {
      ActionList l;
      for (size_t i = c.count(0, 5); i > 0; i--) {
        const double t = time();
        l.push_back(make(t));
        all.insert(l.back().get());
        model.insert(t);
      }
      q.insert(std::move(l));
    } else if (op == 3) {
      const double t = time();
      auto a = make(t);
      all.insert(a.get());
      model.insert(t);
      q.insert(std::move(a));
    } else if (op == 4 && c.below(6) == 0) {
      q.clear();
      model.clear();
      all.clear();
    } else if (!model.empty()) {
      PBT_CHECK(c, q.earliest_time() == *model.begin(),
                "earliest time " << q.earliest_time() << " not "
                                 << *model.begin());
      ActionPtr a = q.pop();
      pops++;
      PBT_CHECK(c, a->time_of_execution() == *model.begin(),
                "actions are not in order of time");
      model.erase(model.begin());
      PBT_CHECK(c, all.count(a.get()), "an action is returned twice");
      all.erase(all.find(a.get()));
    } else {
      bool threw = false;
      try {
        q.pop();
      } catch (const std::runtime_error &) {
        threw = true;
      }
      PBT_CHECK(c, threw, "pop from an empty queue");
    }
    PBT_CHECK(c, q.size() == model.size() && q.is_empty() == model.empty(),
              "size " << q.size());
    std::multiset<const Action *> seen;
    for (auto &a : q) seen.insert(a.get());
    PBT_CHECK(c, seen == all, "iteration shows other actions");
  }
  c.nontrivial(pops > 1);
}

// interaction points
PBT_PROP(interaction_point, 6000, 300000) {
  const bool box = c.flip();
  const double len = c.logreal(1., 50.);
  const size_t n = box ? 2 : c.count(1, 5);
  ParticleList in;
  double tmax = 0;
  for (size_t i = 0; i < n; i++) {
    in.push_back(particle(c, *kit::species(c)));
    tmax = std::max(tmax, in.back().position().x0());
  }
  const double t = tmax + (c.flip() ? 0. : c.uniform(0., 5.));
  std::vector<ThreeVector> at(n);
  for (size_t i = 0; i < n; i++) {
    if (box) {
      // inside the box at the time of execution
      at[i] = {c.uniform(0., len), c.uniform(0., len), c.uniform(0., len)};
      const double dt = t - in[i].position().x0();
      in[i].set_4position(FourVector(in[i].position().x0(),
                                     at[i] - in[i].velocity() * dt));
    } else {
      at[i] = in[i].position().threevec() +
              in[i].velocity() * (t - in[i].position().x0());
    }
  }
  TestAction a(in, {}, t, ProcessType::Elastic);
  if (box) a.box(len);
  const FourVector x = a.get_interaction_point();
  PBT_CLOSE(c, x.x0(), t, 0., 0., "time of the interaction point");
  for (int k = 0; k < 3; k++) {
    if (!box) {
      double s = 0;
      for (auto &v : at) s += v[k];
      PBT_CLOSE(c, x[k + 1], s / static_cast<double>(n), 1e-9, 1e-9,
                "interaction point is not the mean position");
    } else {
      // midpoint of the closest images
      double d = at[1][k] - at[0][k];
      if (std::fabs(std::fabs(d) - len / 2) < 1e-9 * len) continue;
      d -= len * std::round(d / len);
      double mid = at[0][k] + d / 2;
      mid -= len * std::floor(mid / len);
      double off = std::fabs(x[k + 1] - mid);
      off = std::min(off, std::fabs(off - len));
      PBT_CHECK(c, off < 1e-8 * (1 + len),
                "interaction point " << x[k + 1] << " is not the midpoint "
                                     << mid << " of " << at[0][k] << " and "
                                     << at[1][k] << " in a box of " << len);
      PBT_CHECK(c, x[k + 1] > -1e-9 * len && x[k + 1] < len * (1 + 1e-9),
                "interaction point outside the box");
    }
  }
  FourVector sum;
  double e = 0;
  for (auto &p : in) {
    sum += p.momentum();
    e += p.momentum().x0();
  }
  for (int k = 0; k < 4; k++) {
    PBT_CLOSE(c, a.total_momentum_of_outgoing_particles()[k], sum[k], 0.,
              1e-12 * e, "total momentum");
  }
  if (sum.sqr() > 1e-6 * e * e)
    PBT_CLOSE(c, a.sqrt_s(), std::sqrt(sum.sqr()), 1e-9, 0., "sqrt(s)");
  kit::seed(c.seed32());
  a.set_stochastic_pos_idx();
  const FourVector y = a.get_interaction_point();
  bool one = false;
  for (auto &p : in) one = one || y == p.position();
  PBT_CHECK(c, one, "stochastic interaction point is at no particle");
  c.nontrivial(n > 1);
  c.label("periodic box", box);
}

// formation times
PBT_PROP(formation, 6000, 300000) {
  const size_t n = c.count(1, 4), k = c.count(1, 4);
  const double t = c.uniform(5., 10.);
  ParticleList in, out;
  double latest = -1e9;
  auto tf = [&] {
    return c.below(3) == 0 ? c.one_of({3., 12.}) : c.uniform(0., 20.);
  };
  for (size_t i = 0; i < n; i++) {
    ParticleData p = particle(c, *kit::species(c));
    p.set_4position(FourVector(t, 0, 0, 0));
    if (c.flip()) {
      const double f = tf();
      p.set_slow_formation_times(f - c.uniform(0., 2.), f);
      p.set_cross_section_scaling_factor(c.one_of({0., 0.25, 0.5, 0.7}));
    } else {
      p.set_formation_time(tf());
    }
    latest = std::max(latest, p.formation_time());
    in.push_back(p);
  }
  // which incoming particles may pass on their formation
  std::vector<const ParticleData *> last;
  bool same = true;
  for (auto &p : in)
    same = same && std::fabs(p.formation_time() - latest) < 1e-6;
  for (auto &p : in)
    if (std::fabs(p.formation_time() - latest) < 1e-6) last.push_back(&p);
  double low = 2;
  for (auto p : last) low = std::min(low, p->initial_xsec_scaling_factor());
  for (size_t i = 0; i < k; i++) {
    ParticleData p{*kit::species(c)};
    if (c.below(3) == 0) {
      const double f = t + c.uniform(0., 5.);
      p.set_slow_formation_times(t, f);
      p.set_cross_section_scaling_factor(c.one_of({0., 0.3, 0.5}));
    }
    out.push_back(p);
  }
  TestAction a(in, out, t, ProcessType::TwoToTwo);
  a.formation();
  for (size_t i = 0; i < k; i++) {
    const ParticleData &q = a.outgoing_particles()[i], &o = out[i];
    const bool fragment = o.initial_xsec_scaling_factor() < 1.;
    if (latest <= t) {
      PBT_CLOSE(c, q.formation_time(), fragment ? o.formation_time() : t, 0.,
                0., "formation time after formed particles");
      PBT_CLOSE(c, q.initial_xsec_scaling_factor(),
                o.initial_xsec_scaling_factor(), 0., 0., "scaling factor");
      continue;
    }
    PBT_CLOSE(c, q.formation_time(),
              fragment ? std::max(o.formation_time(), latest) : latest, 1e-7,
              1e-7, "formation time after unformed particles");
    bool ok = false;
    for (auto l : last) {
      if (same && l->initial_xsec_scaling_factor() > low) continue;
      const double f = l->initial_xsec_scaling_factor();
      ok = ok ||
           std::fabs(q.initial_xsec_scaling_factor() -
                     (fragment ? f * o.initial_xsec_scaling_factor() : f)) <
               1e-12;
    }
    PBT_CHECK(c, ok, "scaling factor " << q.initial_xsec_scaling_factor()
                                       << " is not inherited");
  }
  c.nontrivial(latest > t && n > 1);
  c.label("unformed", latest > t);
}

// growing cross-section scaling factors
PBT_PROP(scaling_factor, 4000, 200000) {
  ParticleData p = particle(c, *kit::species(c));
  const double b = c.uniform(0., 5.), f = b + c.uniform(0., 5.),
               s = c.uniform(0., 1.), power = c.one_of({0., 0.5, 1., 2.});
  p.set_slow_formation_times(b, f);
  p.set_cross_section_scaling_factor(s);
  ParticleData::formation_power_ = power;
  p.set_4position(FourVector(c.uniform(-1., 6.), 0, 0, 0));
  double prev = -1;
  for (int i = 0; i <= 40; i++) {
    const double dt = i * 0.25, now = p.position().x0() + dt;
    const double x = p.xsec_scaling_factor(dt);
    double want;
    if (now >= f)
      want = 1.;
    else if (power <= 0. || now <= b)
      want = s;
    else
      want = s + (1 - s) * std::pow((now - b) / (f - b), power);
    PBT_CLOSE(c, x, want, 1e-12, 1e-12, "scaling factor");
    PBT_CHECK(c, x >= prev - 1e-12, "scaling factor falls");
    prev = x;
  }
  c.nontrivial(power > 0. && f > b);
  ParticleData::formation_power_ = 0.;
}

// two-body final states in the rest frame of the incoming particles
PBT_PROP(two_body, 4000, 150000) {
  kit::seed(c.seed32());
  const auto stable = [&] {
    return &ParticleType::find(PdgCode::from_decimal(c.one_of<int>(
        {211, -211, 111, 2212, 2112, 321, 3122, 22, 11, 221, 3334})));
  };
  ParticleList in = {particle(c, *stable()), particle(c, *stable())};
  const ParticleTypePtr oa = stable(), ob = stable();
  TestAction a(in, {ParticleData{*oa}, ParticleData{*ob}}, 30.,
               ProcessType::TwoToTwo);
  const double s = a.incoming_momentum().abs();
  const double thr = oa->mass() + ob->mass();
  if (std::fabs(s - thr) < 1e-6) c.discard();
  bool threw = false;
  try {
    a.two_body();
  } catch (const Action::InvalidResonanceFormation &) {
    threw = true;
  }
  PBT_CHECK(c, threw == (s < thr), "threshold is not respected: sqrt(s)="
                                       << s << " sum of masses " << thr);
  c.label("below threshold", threw);
  if (threw) return;
  const FourVector x = a.outgoing_particles()[0].momentum(),
                   y = a.outgoing_particles()[1].momentum();
  const double tol = 1e-7 * s;
  PBT_CLOSE(c, x.x0() + y.x0(), s, 0., tol, "energy");
  for (int k = 1; k < 4; k++) PBT_CLOSE(c, x[k], -y[k], 0., tol, "momentum");
  PBT_CLOSE(c, x.sqr(), oa->mass() * oa->mass(), 0., tol * s, "mass shell");
  PBT_CLOSE(c, y.sqr(), ob->mass() * ob->mass(), 0., tol * s, "mass shell");
  c.nontrivial(!(*oa == *ob));
}

// many-body final states
PBT_PROP(many_body, 2000, 80000) {
  kit::seed(c.seed32());
  const size_t n = 2 + c.below(5);
  std::vector<double> m;
  double sum = 0;
  for (size_t i = 0; i < n; i++) {
    m.push_back(c.below(4) == 0 ? 0. : c.one_of({0.138, 0.494, 0.938, 1.876}));
    if (c.below(4) == 0) m.back() = c.uniform(0.01, 3.);
    sum += m.back();
  }
  const double s = sum + (c.flip() ? c.logreal(1e-3, 0.5) : c.uniform(0.2, 5.));
  std::vector<FourVector> p;
  Action::sample_manybody_phasespace_impl(s, m, p);
  PBT_CHECK(c, p.size() == n, "number of momenta");
  FourVector tot;
  for (size_t i = 0; i < n; i++) {
    tot += p[i];
    PBT_CLOSE(c, p[i].sqr(), m[i] * m[i], 0., 1e-9 * s * s, "mass shell");
    PBT_CHECK(c, p[i].x0() >= m[i] - 1e-9 * s, "energy below mass");
  }
  PBT_CLOSE(c, tot.x0(), s, 0., 1e-9 * s, "energy");
  for (int k = 1; k < 4; k++)
    PBT_CLOSE(c, tot[k], 0., 0., 1e-9 * s, "momentum");
  bool threw = false;
  try {
    Action::sample_manybody_phasespace_impl(sum * c.uniform(0.5, 1.), m, p);
  } catch (const Action::StochasticBelowEnergyThreshold &) {
    threw = true;
  }
  PBT_CHECK(c, threw || sum == 0., "final state below threshold");
  c.nontrivial(n > 2);
}

// ... fill phase space
PBT_PROP_OPT(many_body_distribution, 60, 2000, 60, false) {
  kit::seed(c.seed32());
  const size_t n = 3 + c.below(3);
  std::vector<double> m;
  double sum = 0;
  for (size_t i = 0; i < n; i++) {
    m.push_back(c.one_of({0.138, 0.494, 0.938, 1.876}));
    sum += m.back();
  }
  const double s = sum + (c.flip() ? c.logreal(0.02, 0.5) : c.uniform(0.2, 4.));
  // the observed subset: all but one
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; i++) order[i] = i;
  const size_t left_out = c.below(n);
  std::swap(order[left_out], order[n - 1]);
  c.note() << "n=" << n << " sqrt(s)=" << s << " sum of masses " << sum
           << " left out " << left_out;
  std::vector<double> mp(n), x;
  for (size_t i = 0; i < n; i++) mp[i] = m[order[i]];
  const size_t N = 3000;
  std::vector<double> ct;
  for (size_t k = 0; k < N; k++) {
    std::vector<FourVector> p;
    Action::sample_manybody_phasespace_impl(s, m, p);
    FourVector q;
    for (size_t i = 0; i + 1 < n; i++) q += p[order[i]];
    x.push_back(q.abs());
    const FourVector &z = p[left_out];
    ct.push_back(z.threevec().abs() > 0 ? z.x3() / z.threevec().abs() : 0);
  }
  std::sort(x.begin(), x.end());
  std::sort(ct.begin(), ct.end());
  const Table t = phase_space(mp, n - 1, s - mp[n - 1]);
  const int g = 600;
  std::vector<long double> cdf(g + 1, 0);
  for (int i = 1; i <= g; i++) {
    const long double M = t.lo + (t.hi - t.lo) * (i - 0.5L) / g;
    cdf[i] = cdf[i - 1] + t.at(M) * mom(s, M, mp[n - 1]);
  }
  double d = 0, dc = 0;
  size_t k = 0;
  for (int i = 0; i <= g; i++) {
    const double M = t.lo + (t.hi - t.lo) * i / g;
    while (k < N && x[k] <= M) k++;
    d = std::max(d, std::fabs(static_cast<double>(k) / N -
                              static_cast<double>(cdf[i] / cdf[g])));
  }
  for (size_t i = 0; i < N; i++)
    dc = std::max(dc, std::fabs((ct[i] + 1) / 2 - (i + 0.5) / N));
  PBT_CHECK(c, d < ks_limit(N) + 0.005,
            "invariant masses do not follow phase space: distance " << d);
  PBT_CHECK(c, dc < ks_limit(N) + 0.001, "directions are not isotropic");
  c.nontrivial();
}

// carrying out actions on a particle list
PBT_PROP(perform, 5000, 200000) {
  kit::seed(c.seed32());
  Particles list;
  std::map<int, ParticleData> model;
  for (size_t i = c.count(2, 12); i > 0; i--) {
    const ParticleData p = list.insert(particle(c, *kit::species(c)));
    model.emplace(p.id(), p);
  }
  uint32_t id = 0;
  const size_t steps = c.count(1, 8);
  size_t done = 0;
  for (size_t step = 0; step < steps && list.size() >= 2; step++) {
    const auto all = list.copy_to_vector();
    const size_t n = std::min<size_t>(1 + c.below(3), all.size());
    ParticleList in;
    const size_t first = c.below(all.size() - n + 1);
    for (size_t i = 0; i < n; i++) in.push_back(all[first + i]);
    ParticleList out;
    const uint64_t kind = c.below(4);
    ProcessType type = ProcessType::TwoToTwo;
    if (kind == 0 && n == 2) {
      type = ProcessType::Elastic;
      out = in;
      std::swap(out[0], out[1]);
      // exchange momenta between equal masses only via energy conservation:
      // keep the momenta, rotate them instead
      out = in;
    } else if (kind == 1 && n == 1) {
      type = ProcessType::Wall;
      out = in;
      out[0].set_3position(in[0].position().threevec() +
                           ThreeVector(10., 0., 0.));
    } else if (n == 2) {
      // a rearrangement that conserves everything: new particles
      for (auto &p : in) {
        ParticleData q{p.type()};
        q.set_4momentum(p.momentum());
        q.set_4position(p.position());
        out.push_back(q);
      }
      std::swap(out[0], out[1]);
    } else {
      continue;
    }
    const bool breaks = type == ProcessType::TwoToTwo && c.below(4) == 0;
    if (breaks) {
      const FourVector p = out[0].momentum();
      out[0].set_4momentum(FourVector(p.x0() * 1.01 + 0.01, p.threevec()));
    }
    double t = 0;
    for (auto &p : in) t = std::max(t, p.position().x0());
    const double te = t + c.uniform(0., 1.);
    TestAction a(in, out, te, type);
    PBT_CHECK(c, a.is_valid(list), "an action of present particles is invalid");
    id++;
    bool threw = false;
    double viol = 0;
    try {
      viol = a.perform(&list, id);
    } catch (const std::runtime_error &) {
      threw = true;
    }
    PBT_CHECK(c, threw == breaks, (breaks ? "a violation of energy conservation "
                                            "is not noticed"
                                          : "a false violation is reported"));
    if (breaks) return;
    PBT_CHECK(c, viol == 0., "violation " << viol);
    done++;
    const bool replace = type == ProcessType::TwoToTwo;
    PBT_CHECK(c, a.is_valid(list) == (type == ProcessType::Wall),
              "validity after the action");
    PBT_CHECK(c, list.size() == all.size() - in.size() + out.size(), "size");
    for (size_t i = 0; i < out.size(); i++) {
      const ParticleData &o = a.outgoing_particles()[i];
      PBT_CHECK(c, list.is_valid(o), "outgoing particle is not in the list");
      const ParticleData l = list.lookup(o);
      const HistoryData h = l.get_history(), h0 = in[i].get_history();
      PBT_CHECK(c, (l.id() == in[i].id()) == !replace, "identity");
      PBT_CHECK(c, l.momentum() == out[i].momentum() &&
                       l.position() == out[i].position(),
                "listed particle differs");
      if (replace)
        PBT_CHECK(c, !model.count(l.id()), "an id is used again");
      if (type == ProcessType::Wall) {
        PBT_CHECK(c,
                  h.collisions_per_particle == h0.collisions_per_particle &&
                      (h.time_last_collision == h0.time_last_collision ||
                       std::isnan(h0.time_last_collision)) &&
                      h.process_type == h0.process_type && h.p1 == h0.p1 &&
                      h.p2 == h0.p2,
                  "a wall crossing changes the history");
        continue;
      }
      PBT_CHECK(c,
                h.id_process == static_cast<int>(id) &&
                    h.process_type == type && h.time_last_collision == te,
                "history");
      PBT_CHECK(c,
                h.collisions_per_particle ==
                    (replace ? 1 : h0.collisions_per_particle + 1),
                "number of collisions");
      if (replace)
        PBT_CHECK(c, h.p1 == in[0].pdgcode() && h.p2 == in[1].pdgcode(),
                  "parents");
      else
        PBT_CHECK(c, h.p1 == h0.p1 && h.p2 == h0.p2,
                  "an elastic collision changes the parents");
    }
    for (auto &p : in)
      PBT_CHECK(c, list.is_valid(p) == (type == ProcessType::Wall),
                "incoming particle's handle");
    for (auto &p : list) {
      bool touched = false;
      for (auto &o : a.outgoing_particles()) touched |= o.id() == p.id();
      if (!touched) {
        PBT_CHECK(c, model.count(p.id()), "unknown particle");
        PBT_CHECK(c,
                  p.momentum() == model.at(p.id()).momentum() &&
                      p.type() == model.at(p.id()).type(),
                  "a bystander is changed");
      }
    }
    for (auto &p : list) {
      auto it = model.find(p.id());
      if (it == model.end())
        model.emplace(p.id(), p);
      else
        it->second = p;
    }
  }
  c.nontrivial(done > 1);
}

// conserved quantities of lists
PBT_PROP(quantum_numbers, 4000, 200000) {
  Particles list;
  ParticleList v;
  FourVector p;
  int q = 0, i3 = 0, s = 0, ch = 0, bo = 0, b = 0;
  double e = 0;
  for (size_t i = c.count(0, 15); i > 0; i--) {
    const ParticleData d = list.insert(particle(c, *kit::species(c)));
    v.push_back(d);
    p += d.momentum();
    e += d.momentum().x0();
    const PdgCode k = d.pdgcode();
    q += k.charge();
    i3 += k.isospin3();
    s += k.strangeness();
    ch += k.charmness();
    bo += k.bottomness();
    b += k.baryon_number();
  }
  for (const QuantumNumbers &n : {QuantumNumbers(list), QuantumNumbers(v)}) {
    PBT_CHECK(c,
              n.charge() == q && n.isospin3() == i3 && n.strangeness() == s &&
                  n.charmness() == ch && n.bottomness() == bo &&
                  n.baryon_number() == b,
              "sum of charges");
    for (int k = 0; k < 4; k++)
      PBT_CLOSE(c, n.momentum()[k], p[k], 0., 1e-12 * e, "sum of momenta");
  }
  const QuantumNumbers n(list);
  PBT_CHECK(c, n == QuantumNumbers(v) && n.report_deviations(n).empty(),
            "deviation from itself: " << n.report_deviations(n));
  if (v.empty()) return;
  // one particle less, one charge more: noticed
  ParticleList w = v;
  w.pop_back();
  PBT_CHECK(c, n != QuantumNumbers(w), "a lost particle is not noticed");
  PBT_CHECK(c, !n.report_deviations(QuantumNumbers(w)).empty(),
            "a lost particle is not reported");
  const int d[6] = {c.below(6) == 0, c.below(6) == 0, c.below(6) == 0,
                    c.below(6) == 0, c.below(6) == 0, c.below(6) == 0};
  const QuantumNumbers o(p, q + d[0], i3 + d[1], s + d[2], ch + d[3],
                         bo + d[4], b + d[5]);
  const bool differs = d[0] || d[1] || d[2] || d[3] || d[4] || d[5];
  PBT_CHECK(c, (n != o) == differs, "comparison of charges");
  PBT_CHECK(c, n.report_deviations(o).empty() == !differs,
            "report of deviations: " << n.report_deviations(o));
  c.nontrivial(v.size() > 1);
}

namespace pbt {
void setup() {
  kit::load_default();
}
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN
