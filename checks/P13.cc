// P13: which particles collide, and when.
#include <algorithm>
#include <set>

#include "collide.h"
#include "smash/constants.h"
#include "smash/isoparticletype.h"
#include "smash/particles.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionmulti.h"
#include "smash/scatteractionsfinder.h"
#include "smashkit.h"

using namespace smash;
using kit::Setting;

namespace {
using V = std::array<long double, 4>;  // t x y z
V vec(const FourVector &x) { return {x.x0(), x.x1(), x.x2(), x.x3()}; }
long double dot(const V &a, const V &b) {
  return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3];
}
V add(const V &a, const V &b, long double f = 1.) {
  V r;
  for (int i = 0; i < 4; i++) r[i] = a[i] + f * b[i];
  return r;
}

ParticleTypePtr common(pbt::Case &c) {
  return &ParticleType::find(PdgCode::from_decimal(c.one_of<int>(
      {211, -211, 111, 2212, 2112, -2212, 321, -321, 3122, 2224, 113})));
}
ParticleData particle(pbt::Case &c, double t, double l, double pmax = 3.) {
  ParticleData p{*common(c)};
  p.set_4momentum(p.type().mass(), kit::momentum3(c, pmax));
  p.set_4position(FourVector(t, kit::position3(c, l)));
  p.set_formation_time(t - 1.);
  return p;
}
// A pair that passes each other at distance of about b.
std::pair<ParticleData, ParticleData> passing(pbt::Case &c, double t0,
                                              double tmax, double bmax) {
  ParticleData a = particle(c, t0, 5.), b = particle(c, t0, 5.);
  const double t = c.uniform(-0.3 * tmax, 1.3 * tmax);
  const ThreeVector x = kit::position3(c, 5.),
                    d = kit::direction(c) * c.uniform(0., bmax);
  a.set_4position(FourVector(t0, x - a.velocity() * t));
  b.set_4position(FourVector(t0, x + d - b.velocity() * t));
  return {a, b};
}

// Impact parameter in the centre-of-momentum frame and the coordinate times
// of closest approach, from the covariant decomposition of the separation.
struct Approach {
  long double b2;             // squared impact parameter
  long double ta, tb;         // times of closest approach (comp. frame)
  bool defined;
};
Approach approach(const FourVector &xa, const FourVector &pa,
                  const FourVector &xb, const FourVector &pb) {
  const V u = vec(pa), v = vec(pb), d = add(vec(xa), vec(xb), -1.);
  const long double uu = dot(u, u), vv = dot(v, v), uv = dot(u, v),
                    ud = dot(u, d), vd = dot(v, d);
  const long double det = uv * uv - uu * vv;
  Approach r{};
  r.defined = det > 0.;
  if (!r.defined) return r;
  // minimise |d + la*u - lb*v|^2 over both worldlines (stationary point):
  // u.(d + la u - lb v) = 0, v.(d + la u - lb v) = 0
  const long double la = (vv * ud - uv * vd) / det,
                    lb = (uv * ud - uu * vd) / det;
  const V s = add(add(d, u, la), v, -lb);
  r.b2 = -dot(s, s);
  r.ta = la * u[0];
  r.tb = lb * v[0];
  return r;
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  kit::load_reduced({"η", "σ", "ρ", "ω", "Δ", "N(1440)", "Λ", "Σ", "φ", "η'",
                     "d", "t", "He3", "H3L"},
                    "d 1.8756 0 + 1000010020\n"
                    "t 2.8089 0 + 1000010030\n"
                    "He3 2.8084 0 + 1000020030\n"
                    "H3L 2.9934 0 + 1010010030\n",
                    "");
  auto *buf = std::cout.rdbuf(nullptr);
  IsoParticleType::tabulate_integrals(sha256::Hash{}, "");
  std::cout.rdbuf(buf);
}
void pbt::reset_case(uint64_t s) {
  ParticleData::formation_power_ = 0.;
  kit::seed(static_cast<int64_t>(s >> 1)); }

// when two particles are closest
PBT_PROP(collision_time, 6000, 300000) {
  static std::map<CollisionCriterion, std::unique_ptr<ScatterActionsFinder>>
      finders;
  const auto crit = c.flip() ? CollisionCriterion::Geometric
                             : CollisionCriterion::Covariant;
  auto &f = finders[crit];
  if (!f) {
    Setting s;
    s.p.criterion = crit;
    f = s.finder();
  }
  const double t0 = c.uniform(-10., 100.);
  auto pr = passing(c, t0, 10., 3.);
  ParticleData &a = pr.first, &b = pr.second;
  a.set_id(static_cast<int>(c.below(4)));
  b.set_id(4 + static_cast<int>(c.below(4)));
  // frozen Fermi motion: nucleons of the initial nuclei fly with the beam
  std::vector<FourVector> beam;
  if (c.flip()) {
    const size_t n = c.below(9);
    for (size_t i = 0; i < n; i++)
      beam.push_back(
          FourVector(0., 0., 0., 0.) +
          FourVector(std::hypot(0.938, 2.), 0., 0., i % 2 ? 2. : -2.));
  }
  for (auto p : {&a, &b})
    if (c.flip())
      p->set_history(1 + c.below(3), 7, ProcessType::Elastic, t0,
                     ParticleList{});
  FourVector k[2];
  int i = 0, frozen = 0;
  for (auto p : {&a, &b}) {
    const bool fr = p->id() < static_cast<int>(beam.size()) &&
                    p->get_history().collisions_per_particle == 0;
    frozen += fr;
    k[i++] = fr ? beam[p->id()] : p->momentum();
  }
  c.label("frozen Fermi motion", frozen > 0);
  c.label(crit == CollisionCriterion::Geometric ? "geometric" : "covariant");
  const double t = f->collision_time(a, b, 0.1, beam);
  c.note() << a.type().name() << " " << kit::show(a.position()) << " "
           << kit::show(k[0]) << "; " << b.type().name() << " "
           << kit::show(b.position()) << " " << kit::show(k[1]) << "\n";
  if (crit == CollisionCriterion::Geometric) {
    const V va = vec(k[0]), vb = vec(k[1]);
    const V d = add(vec(a.position()), vec(b.position()), -1.);
    long double vv = 0., dv = 0.;
    for (int j = 1; j < 4; j++) {
      const long double w = va[j] / va[0] - vb[j] / vb[0];
      vv += w * w;
      dv += w * d[j];
    }
    const double dve = vv * va[0] * va[0] * vb[0] * vb[0];
    if (dve < 2e-6) {
      // (nearly) no relative motion: no collision, or the exact time
      if (dve < 0.5e-6) PBT_CHECK(c, t < 0., "collision time " << t
                                             << " without relative motion");
      return;
    }
    const double e = static_cast<double>(-dv / vv);
    PBT_CLOSE(c, t, e, 1e-6, 1e-6 / std::sqrt(static_cast<double>(vv)),
              "time of closest approach");
  } else {
    const auto x = approach(a.position(), k[0], b.position(), k[1]);
    const double det = [&] {
      const V u = vec(k[0]), v = vec(k[1]);
      return static_cast<double>(dot(u, v) * dot(u, v) -
                                 dot(u, u) * dot(v, v));
    }();
    const double scale = std::pow(k[0].x0() * k[1].x0(), 2);
    if (det < 1e-8 * scale || det < 1e-9) return;
    const double e = static_cast<double>((x.ta + x.tb) / 2.);
    PBT_CLOSE(c, t, e, 1e-5, 1e-6 * scale / det,
              "time of closest approach in the c.m. frame");
  }
  PBT_CLOSE(c, f->collision_time(b, a, 0.1, beam), t, 1e-9, 1e-9,
            "collision time with the particles exchanged");
  c.nontrivial(t > 0.);
}

// the distance is the impact parameter in the centre-of-momentum frame
PBT_PROP(distance, 6000, 300000) {
  const double t0 = c.uniform(-10., 10.);
  auto pr = passing(c, t0, 10., 3.);
  ParticleData &a = pr.first, &b = pr.second;
  const auto ref = approach(a.position(), a.momentum(), b.position(),
                            b.momentum());
  const V u = vec(a.momentum()), v = vec(b.momentum());
  const double s = (a.momentum() + b.momentum()).sqr();
  const double det = static_cast<double>(dot(u, v) * dot(u, v) -
                                         dot(u, u) * dot(v, v));
  const double pcm2 = det / s;
  // the momentum difference (squared) has to exceed 1e-6 GeV^2
  if (!ref.defined || pcm2 < 1e-5 ||
      (a.momentum().threevec() - b.momentum().threevec()).sqr() < 1e-5)
    c.discard();
  const double e = static_cast<double>(ref.b2);
  auto dist = [&](const ParticleData &x, const ParticleData &y) {
    ScatterAction act(x, y, 0.1);
    return std::make_pair(act.transverse_distance_sqr(),
                          act.cov_transverse_distance_sqr());
  };
  const auto d = dist(a, b);
  const double g = (a.momentum().x0() + b.momentum().x0()) / std::sqrt(s);
  const double tol = 1e-9 * g * g * std::max(1., 1. / pcm2) * 100.;
  c.note() << "b^2 = " << e << ", gamma " << g << ", pcm^2 " << pcm2 << "\n";
  if (tol > 1e-2) c.discard();
  PBT_CLOSE(c, d.first, e, 1e-6, tol, "geometric transverse distance squared");
  PBT_CLOSE(c, d.second, e, 1e-6, tol, "covariant transverse distance squared");
  PBT_CHECK(c, d.first >= 0. && d.second >= 0., "negative squared distance");
  const auto x = dist(b, a);
  PBT_CLOSE(c, x.first, d.first, 1e-9, tol, "exchanged particles");
  PBT_CLOSE(c, x.second, d.second, 1e-9, tol, "exchanged particles");
  // observed from another frame
  const ThreeVector w = kit::direction(c) * c.uniform(0., 0.9);
  ParticleData p = a, q = b;
  p.boost(w);
  q.boost(w);
  const auto y = dist(p, q);
  PBT_CLOSE(c, y.first, e, 1e-5, 100 * tol, "distance in a boosted frame");
  PBT_CLOSE(c, y.second, e, 1e-5, 100 * tol,
            "covariant distance in a boosted frame");
  // and later
  const double dt = c.uniform(-5., 5.);
  for (auto z : {&a, &b}) z->set_4position(z->position() +
      FourVector(dt, z->velocity() * dt));
  const auto l = dist(a, b);
  PBT_CLOSE(c, l.first, e, 1e-5, 10 * tol, "distance at another time");
  PBT_CLOSE(c, l.second, e, 1e-5, 10 * tol,
            "covariant distance at another time");
  c.nontrivial(e > 1e-3 && g > 1.01);
}

namespace {
struct Scene {
  Setting s;
  Particles all;
  double t0, dt;
  std::vector<FourVector> beam;
  std::map<std::pair<int, int>, std::pair<int, double>> expected;
};
constexpr int yes = 1, no = 0, either = 2;

void fill(pbt::Case &c, Scene &sc) {
  Setting &s = sc.s;
  s.p.criterion = c.flip() ? CollisionCriterion::Geometric
                           : CollisionCriterion::Covariant;
  c.label(s.p.criterion == CollisionCriterion::Geometric ? "geometric"
                                                         : "covariant");
  s.within = c.flip();
  s.p.testparticles = c.flip() ? 1 : 1 + static_cast<int>(c.below(6));
  if (c.flip()) {
    s.elastic = c.uniform(1., 150.);
    s.p.two_to_one = false;
    s.p.two_to_two = ReactionsBitSet(1);  // elastic
  } else {
    s.p.two_to_two = ReactionsBitSet().set();
    if (c.flip()) s.p.scale_xs = c.uniform(0.5, 2.);
    s.strategy = c.one_of<const char *>(
        {"BottomUp", "TopDown", "TopDownMeasured"});
    s.more = std::string(", Total_Cross_Section_Strategy: ") + s.strategy;
  }
  s.p.max_xs = c.chance(0.3) ? c.uniform(5., 60.) : 200.;
  ParticleData::formation_power_ = c.one_of({0., 1., 2.});
  sc.t0 = c.uniform(0., 50.);
  sc.dt = c.one_of({0.1, 0.5, 2., 10.});
  const size_t n = c.count(2, 12);
  const double l = c.one_of({1., 3.});
  ParticleList list;
  for (size_t i = 0; i < n;) {
    if (c.flip() && i + 1 < n) {
      auto pr = passing(c, sc.t0, sc.dt, 2.);
      list.push_back(pr.first);
      list.push_back(pr.second);
      i += 2;
    } else {
      list.push_back(particle(c, sc.t0, l));
      i++;
    }
  }
  for (auto &p : list) {
    if (c.below(3) == 0)
      p.set_history(1 + c.below(3), 1 + c.below(3), ProcessType::Elastic,
                    sc.t0 - 1., ParticleList{});
    if (c.flip())
      p.set_belongs_to(c.flip() ? BelongsTo::Projectile : BelongsTo::Target);
    if (c.below(4) == 0) {
      const double f = sc.t0 + c.uniform(-1., 2.) * sc.dt;
      if (c.flip()) {
        p.set_slow_formation_times(f - c.uniform(0., sc.dt), f);
      } else {
        p.set_formation_time(f);
      }
      p.set_cross_section_scaling_factor(c.one_of({0., 0.3, 0.7}));
    }
    sc.all.insert(p);
  }
}

// what the definition of the criterion says about a pair
std::pair<int, double> expect(pbt::Case &c, const Scene &sc,
                              const ParticleData &a, const ParticleData &b,
                              const ScatterActionsFinderParameters &fp) {
  (void)c;
  const auto ha = a.get_history(), hb = b.get_history();
  if (!sc.s.within && ha.collisions_per_particle == 0 &&
      hb.collisions_per_particle == 0 && a.belongs_to() == b.belongs_to() &&
      a.belongs_to() != BelongsTo::Nothing)
    return {no, 0.};
  if (ha.id_process > 0 && ha.id_process == hb.id_process) return {no, 0.};
  const auto ap = approach(a.position(), a.momentum(), b.position(),
                           b.momentum());
  const V u = vec(a.momentum()), v = vec(b.momentum());
  double t;
  const double s = (a.momentum() + b.momentum()).sqr();
  const double pcm2 = static_cast<double>(dot(u, v) * dot(u, v) -
                                          dot(u, u) * dot(v, v)) /
                      s;
  if (pcm2 < 1e-5) return {either, 0.};
  if (sc.s.p.criterion == CollisionCriterion::Geometric) {
    const ThreeVector w = a.velocity() - b.velocity(),
                      d = a.position().threevec() - b.position().threevec();
    if (w.sqr() * std::pow(a.momentum().x0() * b.momentum().x0(), 2) < 1e-5)
      return {either, 0.};
    t = -(d * w) / w.sqr();
  } else {
    t = static_cast<double>((ap.ta + ap.tb) / 2.);
  }
  const double eps = 1e-6;
  if (t < -eps || t > sc.dt + eps) return {no, t};
  if (t < eps || t > sc.dt - eps) return {either, t};
  auto measured = [](const ParticleData &p, const ParticleData &q) {
    const bool n = p.type().is_nucleon(), m = q.type().is_nucleon(),
               pi = p.is_pion(), rho = q.is_pion();
    return (n || pi || p.type().pdgcode().is_kaon()) &&
           (m || rho || q.type().pdgcode().is_kaon()) &&
           ((n || m) || (pi && rho));
  };
  const bool total = sc.s.strategy == "TopDown" ||
                     (sc.s.strategy == "TopDownMeasured" && measured(a, b));
  ScatterAction act(a, b, t, sc.s.isotropic, 1., -1., total);
  if (total) {
    act.set_parametrized_total_cross_section(fp);
  } else {
    act.add_all_scatterings(fp);
  }
  auto scale = [&](const ParticleData &p) {
    // a step in time, or growing as a power between begin and end of formation
    const double now = p.position().x0() + t, f = p.formation_time(),
                 g = p.begin_formation_time();
    const double f0 = p.initial_xsec_scaling_factor();
    if (f <= now) return 1.;
    if (g >= now || ParticleData::formation_power_ <= 0.) return f0;
    return f0 + (1. - f0) * std::pow((now - g) / (f - g),
                                     ParticleData::formation_power_);
  };
  for (auto p : {&a, &b})
    if (std::fabs(p->formation_time() - sc.t0 - t) < 1e-4) return {either, t};
  const double sigma = act.cross_section() * fm2_mb / sc.s.p.testparticles;
  const double area = M_PI * static_cast<double>(ap.b2);
  const double x = sigma * scale(a) * scale(b);
  const double m = sc.s.p.max_xs * fm2_mb / sc.s.p.testparticles;
  const double lim = std::min(x, m);
  if (std::fabs(area - lim) < 1e-4 * (1. + lim)) return {either, t};
  return {area < lim ? yes : no, t};
}

void compare(pbt::Case &c, const Scene &sc, const ActionList &found,
             const std::set<std::pair<int, int>> &pairs, const char *what) {
  std::set<std::pair<int, int>> seen;
  for (auto &a : found) {
    const auto in = a->incoming_particles();
    PBT_CHECK(c, in.size() == 2, what << ": action with " << in.size()
                                      << " incoming particles");
    auto k = std::minmax({in[0].id(), in[1].id()});
    const std::pair<int, int> id(k);
    PBT_CHECK(c, pairs.count(id), what << ": pair " << id.first << " "
                                       << id.second
                                       << " was not to be searched");
    PBT_CHECK(c, seen.insert(id).second,
              what << ": pair " << id.first << " " << id.second
                   << " found twice");
    const auto e = sc.expected.at(id);
    PBT_CHECK(c, e.first != no, what << ": pair " << id.first << " "
                                     << id.second
                                     << " does not meet the criterion");
    if (e.first == yes)
      PBT_CLOSE(c, a->time_of_execution(), sc.t0 + e.second, 1e-7, 1e-5,
                what << ": time of the action");
    for (auto &p : in) {
      const ParticleData *o = nullptr;
      for (auto &q : sc.all)
        if (q.id() == p.id()) o = &q;
      PBT_CHECK(c, o && o->position() == p.position() &&
                       o->momentum() == p.momentum() &&
                       o->type() == p.type(),
                what << ": incoming particle differs from the original");
    }
  }
  for (auto &id : pairs) {
    const auto e = sc.expected.at(id);
    PBT_CHECK(c, e.first != yes || seen.count(id),
              what << ": pair " << id.first << " " << id.second
                   << " meets the criterion at " << e.second
                   << " but was not found");
  }
}
}  // namespace

// every pair that meets the criterion is found once, and no other
PBT_PROP(pairs, 2500, 100000) {
  Scene sc;
  fill(c, sc);
  const auto f = sc.s.finder();
  const auto fp = sc.s.parameters();
  const ParticleList l = sc.all.copy_to_vector();
  int hits = 0;
  for (size_t i = 0; i < l.size(); i++)
    for (size_t j = i + 1; j < l.size(); j++) {
      const auto k = std::minmax({l[i].id(), l[j].id()});
      const auto e = expect(c, sc, l[i], l[j], fp);
      sc.expected[std::pair<int, int>(k)] = e;
      hits += e.first == yes;
    }
  for (auto &p : l)
    c.note() << p.id() << " " << p.type().name() << " x "
             << kit::show(p.position()) << " p " << kit::show(p.momentum())
             << " proc " << p.id_process() << " coll "
             << p.get_history().collisions_per_particle << " form "
             << p.formation_time() << "\n";
  c.note() << "dt " << sc.dt << ", testparticles " << sc.s.p.testparticles
           << ", " << sc.s.yaml() << "\n";
  // split the list into cell, neighbours and the rest
  ParticleList cell, nb;
  for (auto &p : l) (c.flip() ? cell : nb).push_back(p);
  auto key = [](const ParticleData &a, const ParticleData &b) {
    return std::pair<int, int>(std::minmax({a.id(), b.id()}));
  };
  std::set<std::pair<int, int>> in, across;
  for (auto &a : cell)
    for (auto &b : cell)
      if (a.id() != b.id()) in.insert(key(a, b));
  for (auto &a : cell)
    for (auto &b : nb) across.insert(key(a, b));
  ParticleList shuffled = cell;
  for (size_t i = shuffled.size(); i > 1; i--)
    std::swap(shuffled[i - 1], shuffled[c.below(i)]);
  compare(c, sc, f->find_actions_in_cell(shuffled, sc.dt, 0., sc.beam), in,
          "cell");
  compare(c, sc, f->find_actions_with_neighbors(cell, nb, sc.dt, sc.beam),
          across, "neighbors");
  compare(c, sc,
          f->find_actions_with_surrounding_particles(cell, sc.all, sc.dt,
                                                     sc.beam),
          across, "surrounding");
  PBT_CHECK(c, f->find_final_actions(sc.all).empty(), "final scatterings");
  c.nontrivial(hits > 0 && !across.empty());
  c.label("collisions", hits > 0);
  PBT_CLOSE(c, f->max_transverse_distance_sqr(sc.s.p.testparticles),
            sc.s.p.max_xs * fm2_mb * M_1_PI / sc.s.p.testparticles, 1e-12, 0.,
            "maximum distance");
}

// stochastic rates
PBT_PROP(stochastic, 250, 6000) {
  Setting s;
  s.p.criterion = CollisionCriterion::Stochastic;
  s.p.testparticles = 1 + static_cast<int>(c.below(4));
  s.within = c.flip();
  const bool elastic = c.flip();
  if (elastic) {
    s.elastic = c.uniform(1., 150.);
    s.p.two_to_one = false;
    s.p.two_to_two = ReactionsBitSet(1);
  }
  s.warn = c.flip();
  const double t0 = c.uniform(0., 5.), dt = c.uniform(0.01, 0.5);
  ParticleData a = particle(c, t0, 2.), b = particle(c, t0, 2.);
  a.set_id(3);
  b.set_id(8);
  if (c.below(3) == 0) {
    // having just collided does not matter here
    a.set_history(1, 5, ProcessType::Elastic, t0, ParticleList{});
    b.set_history(1, 5, ProcessType::Elastic, t0, ParticleList{});
  }
  bool banned = false;
  if (c.below(4) == 0) {
    a.set_belongs_to(BelongsTo::Projectile);
    b.set_belongs_to(c.flip() ? BelongsTo::Projectile : BelongsTo::Target);
    banned = !s.within && a.belongs_to() == b.belongs_to() &&
             a.get_history().collisions_per_particle == 0;
  }
  ScatterAction act(a, b, 0.1);
  const double m1 = a.momentum().abs(), m2 = b.momentum().abs();
  const double pp = a.momentum().Dot(b.momentum());
  const double v =
      std::sqrt(std::max(0., (pp - m1 * m2) * (pp + m1 * m2))) /
      (a.momentum().x0() * b.momentum().x0());
  PBT_CLOSE(c, act.relative_velocity(), v, 1e-6, 1e-5, "relative velocity");
  const auto f = s.finder();
  if (v < 0.9e-6) {
    // in particular not a probability that is not a number
    for (int i = 0; i < 20; i++) {
      PBT_CHECK(c, f->find_actions_in_cell({a, b}, dt, 1., {}).empty(),
                "collision without relative motion");
    }
    c.label("at relative rest");
    return;
  }
  act.add_all_scatterings(s.parameters());
  const double sigma = act.cross_section() * fm2_mb / s.p.testparticles;
  const double rate = sigma * v * dt;
  c.note() << a.type().name() << b.type().name() << " sigma " << sigma
           << " v " << v << "\n";
  // without a cell there is nothing to find
  PBT_CHECK(c, f->find_actions_in_cell({a, b}, dt, 0., {}).empty() &&
                   f->find_actions_with_neighbors({a}, {b}, dt, {}).empty(),
            "stochastic collision without a cell");
  if (!(rate > 1e-6) || v < 1e-4) c.discard();
  if (!banned && c.below(4) == 0) {
    // too large a probability must not pass unnoticed
    bool thrown = false;
    try {
      auto l = f->find_actions_in_cell({a, b}, dt, rate / 1.01, {});
      PBT_CHECK(c, l.size() == 1, "no collision at probability 1");
    } catch (std::runtime_error &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown == !s.warn, "probability above 1: exception "
                                        << thrown << ", expected " << !s.warn);
    return;
  }
  const double prob = banned ? 0. : c.uniform(0.05, 0.95);
  const double vol = rate / (banned ? 0.5 : prob);
  const int n = pbt::options().thorough ? 20000 : 4000;
  int hits = 0;
  std::vector<double> times;
  for (int i = 0; i < n; i++) {
    auto l = f->find_actions_in_cell(i % 2 ? ParticleList{b, a}
                                           : ParticleList{a, b},
                                     dt, vol, {});
    PBT_CHECK(c, l.size() <= 1, "pair found twice");
    if (!l.empty()) {
      hits++;
      times.push_back((l[0]->time_of_execution() - t0) / dt);
    }
  }
  const double sd = std::sqrt(n * prob * (1. - prob)) + 1e-9;
  PBT_CHECK(c, std::fabs(hits - n * prob) < 6.5 * sd + 1.5 * (prob > 0.),
            hits << " collisions of " << n << " trials, expected "
                 << n * prob << " +- " << sd);
  // uniform in time
  std::sort(times.begin(), times.end());
  double ks = 0.;
  for (size_t i = 0; i < times.size(); i++)
    ks = std::max({ks, std::fabs(times[i] - (i + 0.) / times.size()),
                   std::fabs(times[i] - (i + 1.) / times.size())});
  PBT_CHECK(c, times.empty() || ks * std::sqrt(times.size()) < 3.4,
            "collision times are not uniform: KS " << ks);
  PBT_CHECK(c, times.empty() || (times[0] >= 0. && times.back() < 1.),
            "collision outside of the time step");
  c.nontrivial(!banned);
  c.label(banned ? "same nucleus" : "allowed");
}

// groups of more than two particles
PBT_PROP(groups, 400, 10000) {
  Setting s;
  s.p.criterion = CollisionCriterion::Stochastic;
  s.p.testparticles = 1 + static_cast<int>(c.below(2));
  s.p.two_to_one = false;
  s.p.two_to_two = ReactionsBitSet(1);
  s.elastic = 1e-12;
  s.within = c.flip();
  s.warn = c.below(4) != 0;
  for (auto i : {Meson_3to1, Deuteron_3to2, A3_Nuclei_4to2, NNbar_5to2})
    s.p.multi[i] = c.flip();
  if (s.p.multi[NNbar_5to2]) s.p.nnbar = NNbarTreatment::TwoToFive;
  const double t0 = c.uniform(0., 5.), dt = c.uniform(0.01, 0.5);
  const int kind = static_cast<int>(c.below(3));
  const size_t n = (kind ? 3 : 4) + c.below(4);
  ParticleList l;
  for (size_t i = 0; i < n; i++) {
    ParticleData p{ParticleType::find(PdgCode::from_decimal(
        kind == 0   ? c.one_of<int>({111, 211, -211})
        : kind == 1 ? c.one_of<int>({2212, 2112, 211, 2212, 2112,
                                         s.warn ? -2212 : 2112})
                    : c.one_of<int>({111, 211, -211, 221, 2212, 2112, 3122})))};
    p.set_4momentum(p.type().mass(), kit::momentum3(c, kind ? 0.5 : 2.));
    p.set_4position(FourVector(t0, kit::position3(c, 2.)));
    p.set_formation_time(t0 - 1.);
    p.set_id(static_cast<int>(10 * i + c.below(10)));
    if (c.below(4) == 0)
      p.set_history(1, 5, ProcessType::Elastic, t0, ParticleList{});
    p.set_belongs_to(
        c.one_of({BelongsTo::Projectile, BelongsTo::Projectile,
                  kind == 2 ? BelongsTo::Target : BelongsTo::Projectile,
                  kind == 0 ? BelongsTo::Nothing : BelongsTo::Projectile}));
    c.note() << p.type().name() << p.id() << " ";
    l.push_back(p);
  }
  std::set<std::vector<int>> must, may;
  const double vol = 1e-5;
  bool large = false;
  for (unsigned m = 0; m < (1u << n); m++) {
    ParticleList g;
    bool pions = true;
    std::set<BelongsTo> nuclei;
    bool unscattered = true;
    for (size_t i = 0; i < n; i++)
      if (m >> i & 1) {
        g.push_back(l[i]);
        pions = pions && l[i].is_pion();
        nuclei.insert(l[i].belongs_to());
        unscattered =
            unscattered && l[i].get_history().collisions_per_particle == 0;
      }
    const bool search =
        g.size() == 3   ? s.p.multi[Meson_3to1] || s.p.multi[Deuteron_3to2]
        : g.size() == 4 ? s.p.multi[A3_Nuclei_4to2]
                        : g.size() == 5 && s.p.multi[NNbar_5to2] && pions;
    if (!search) continue;
    if (!s.within && nuclei.size() == 1 &&
        !nuclei.count(BelongsTo::Nothing) && unscattered)
      continue;
    ScatterActionMulti act(g, 0.);
    act.add_possible_reactions(dt, vol, s.p.multi);
    const double prob = act.get_total_weight() /
                        std::pow(s.p.testparticles, g.size() - 1.);
    std::vector<int> ids;
    for (auto &p : g) ids.push_back(p.id());
    if (prob > 1) must.insert(ids);
    if (prob > 0) may.insert(ids);
    large = large || prob > 1;
    if (prob > 0) c.label(pbt::Fmt() << g.size());
  }
  c.nontrivial(!must.empty());
  for (size_t i = n; i > 1; i--) std::swap(l[i - 1], l[c.below(i)]);
  const auto f = s.finder();
  if (!s.warn && large) {
    bool thrown = false;
    try {
      f->find_actions_in_cell(l, dt, vol, {});
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown, "probability above 1 not refused for "
                             << must.begin()->size() << " particles");
    return;
  }
  std::set<std::vector<int>> found;
  for (const auto &a : f->find_actions_in_cell(l, dt, vol, {})) {
    std::vector<int> ids;
    for (const auto &p : a->incoming_particles()) ids.push_back(p.id());
    if (ids.size() == 2) continue;
    std::sort(ids.begin(), ids.end());
    PBT_CHECK(c, found.insert(ids).second, "group found twice");
    PBT_CHECK(c, may.count(ids), "group " << ids.size()
                                          << " which must not react");
    PBT_CHECK(c, a->time_of_execution() >= t0 &&
                     a->time_of_execution() <= t0 + dt,
              "outside of the time step");
  }
  for (const auto &g : must)
    PBT_CHECK(c, found.count(g), "group of " << g.size() << " not found");
  PBT_CHECK(c, f->find_actions_in_cell(l, dt, 0., {}).empty(),
            "group found without a cell");
}

// contradictory configurations are refused
PBT_PROP(configuration, 1500, 40000) {
  Setting s;
  s.p.criterion = c.one_of<CollisionCriterion>(
      {CollisionCriterion::Geometric, CollisionCriterion::Stochastic,
       CollisionCriterion::Covariant});
  s.p.two_to_two = c.below(3) == 0 ? ReactionsBitSet(1)
                                   : ReactionsBitSet(c.below(1024));
  if (c.flip())
    s.p.multi = MultiParticleReactionsBitSet(c.below(1 << s.p.multi.size()));
  s.p.nnbar = c.one_of<NNbarTreatment>(
      {NNbarTreatment::NoAnnihilation, NNbarTreatment::Resonances,
       NNbarTreatment::TwoToFive, NNbarTreatment::Strings});
  const auto strategy = c.one_of<const char *>(
      {"BottomUp", "TopDown", "TopDownMeasured"});
  s.more = std::string(", Total_Cross_Section_Strategy: ") + strategy;
  bool charm = false;
  if (c.below(4) == 0) {
    const double x = c.uniform(-0.5, 1.5), y = c.uniform(-0.5, 1.5);
    s.more += pbt::Fmt() << ", Heavy_Flavor: {AQM_Charm_Suppression: " << x
                         << ", AQM_Bottom_Suppression: " << y << "}";
    charm = x < 0. || x > 1. || y < 0. || y > 1.;
  }
  const bool five = s.p.multi[NNbar_5to2],
             two_five = s.p.nnbar == NNbarTreatment::TwoToFive;
  const bool bad =
      charm ||
      (s.p.multi.any() && s.p.criterion != CollisionCriterion::Stochastic) ||
      (s.p.multi[Deuteron_3to2] &&
       (s.p.two_to_two[PiDeuteron_to_pidprime] ||
        s.p.two_to_two[NDeuteron_to_Ndprime])) ||
      five != two_five ||
      (s.p.nnbar == NNbarTreatment::Resonances && !s.p.two_to_two[NNbar]) ||
      (std::string(strategy) != "BottomUp" && s.p.two_to_two[Elastic] &&
       s.p.two_to_two.count() == 1);
  c.note() << s.yaml() << " 2to2 " << s.p.two_to_two << " multi "
           << s.p.multi << "\n";
  bool refused = false;
  std::unique_ptr<ScatterActionsFinder> f;
  try {
    f = s.finder();
  } catch (std::invalid_argument &) {
    refused = true;
  }
  PBT_CHECK(c, refused == bad, "configuration " << (refused ? "" : "not ")
                                                << "refused");
  if (f) PBT_CHECK(c, !f->is_constant_elastic_isotropic(),
                   "many species are not a constant-cross-section gas");
  c.nontrivial();
  c.label(bad ? "contradictory" : "valid");
}

PBT_MAIN
