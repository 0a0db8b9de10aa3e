// P15: reactions of three, four and five particles.
#include <algorithm>
#include <map>
#include <set>

#include "collide.h"
#include "ref.h"
#include "smash/constants.h"
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/kinematics.h"
#include "smash/quantumnumbers.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionmulti.h"
#include "smashkit.h"

using namespace smash;
using kit::Setting;

namespace {
using L = long double;
const char *particles =
    "π  0.138   7.7e-9    -      111      211\n"
    "η  0.548   1.31e-6   -      221\n"
    "η' 0.958   1.96e-4   -      331\n"
    "ω  0.783   8.49e-3   -      223\n"
    "φ  1.019   4.25e-3   -      333\n"
    "K  0.494   0         -      321 311\n"
    "N  0.938   0         +      2112 2212\n"
    "Λ  1.116   0         +      3122\n"
    "d  1.8756  0         +      1000010020\n"
    "t  2.8089  0         +      1000010030\n"
    "He3 2.8084 0         +      1000020030\n"
    "H3L 2.9934 0         +      1010010030\n";
const char *decays =
    "ω\n0.893 1 π⁺ π⁻ π⁰\n\n"
    "φ\n0.152 1 π⁺ π⁻ π⁰\n0.5 1 K⁺ K̅⁻\n0.348 1 K⁰ K̅⁰\n\n"
    "η'\n0.426 0 π⁺ π⁻ η\n0.228 0 π⁰ π⁰ η\n0.346 0 π⁺ π⁻ π⁰\n\n";

enum Species {
  pip, pim, piz, eta, p, n, ap, an, la, ala, kp, nspecies
};
const int code[nspecies] = {211,   -211, 111,   221,  2212, 2112,
                            -2212, -2112, 3122, -3122, 321};
ParticleTypePtr type(int s) {
  return &ParticleType::find(PdgCode::from_decimal(code[s]));
}
int conj(int s) {
  static const int c[nspecies] = {pim, pip, piz, eta, ap, an,
                                  p,   n,   ala, la,  -1};
  return c[s];
}
using Bag = std::map<int, int>;  // multiset of species
bool pion(int s) { return s <= piz; }
bool nucleon(int s) { return s >= p && s <= an; }

struct Reaction {
  std::string out;
  double sym;      // identical incoming particles
  int forward[2];  // PDG codes (decimal) of the outgoing particles
  ParticleTypePtr one;
};
std::string label(const ParticleTypePtrList &l) {
  std::vector<std::string> v;
  for (auto t : l) v.push_back(t->name());
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto &s : v) r += (r.empty() ? "" : " ") + s;
  return r;
}
double symmetry(const Bag &b) {
  double f = 1.;
  for (auto &e : b) f *= ref::fact(e.second);
  return f;
}
// which reactions exist for these particles, as documented
struct Out {
  ParticleTypePtrList types;
};
std::vector<ParticleTypePtrList> reactions(const Bag &b, int size,
                                           MultiParticleReactionsBitSet on) {
  std::vector<ParticleTypePtrList> r;
  auto find = [](const char *s) { return &ParticleType::find(PdgCode(s)); };
  auto count = [&](int s) { return b.count(s) ? b.at(s) : 0; };
  if (size == 3 && on[Meson_3to1]) {
    if (b == Bag{{pip, 1}, {pim, 1}, {piz, 1}}) {
      r.push_back({find("223")});
      r.push_back({find("333")});
    }
    if (b == Bag{{pip, 1}, {pim, 1}, {eta, 1}} || b == Bag{{piz, 2}, {eta, 1}})
      r.push_back({find("331")});
  }
  auto cluster = [&](const Bag &parts, ParticleTypePtr nucleus) {
    Bag rest = b;
    for (auto &e : parts)
      if ((rest[e.first] -= e.second) < 0) return;
    for (auto &e : rest)
      if (e.second && (pion(e.first) || nucleon(e.first)))
        r.push_back({type(e.first), nucleus});
  };
  if (size == 3 && on[Deuteron_3to2]) {
    cluster({{p, 1}, {n, 1}}, find("1000010020"));
    cluster({{ap, 1}, {an, 1}}, find("-1000010020"));
  }
  if (size == 4 && on[A3_Nuclei_4to2]) {
    cluster({{p, 1}, {n, 2}}, find("1000010030"));
    cluster({{p, 2}, {n, 1}}, find("1000020030"));
    cluster({{p, 1}, {n, 1}, {la, 1}}, find("1010010030"));
    cluster({{ap, 1}, {an, 2}}, find("-1000010030"));
    cluster({{ap, 2}, {an, 1}}, find("-1000020030"));
    cluster({{ap, 1}, {an, 1}, {ala, 1}}, find("-1010010030"));
  }
  if (size == 5 && on[NNbar_5to2] &&
      b == Bag{{pip, 2}, {pim, 2}, {piz, 1}}) {
    r.push_back({type(p), type(ap)});
    r.push_back({type(n), type(an)});
  }
  (void)count;
  return r;
}

// n-body phase space, d^3p/((2pi)^3 2E), times (2pi)^4 delta^4
L lambda(L a, L b, L c) { return (a - b - c) * (a - b - c) - 4 * b * c; }
L phi2(L s, L m1, L m2) {
  const L l = lambda(s, m1 * m1, m2 * m2);
  return l > 0 ? sqrtl(l) / (8 * M_PIl * s) : 0;
}
// integral over an invariant mass squared between thresholds
template <class F>
L over(L lo, L hi, int panels, F f) {
  if (hi <= lo) return 0;
  const L a = lo * lo, b = hi * hi;
  return ref::integrate(
      [&](L th) {
        const L x = sinl(th) * sinl(th), m2 = a + (b - a) * x;
        return f(m2) * (b - a) * 2 * sinl(th) * cosl(th) / (2 * M_PIl);
      },
      0, M_PI_2l, panels);
}
L phi3(L s, L m1, L m2, L m3, int panels = 4) {
  return over(m1 + m2, sqrtl(s) - m3, panels, [&](L q) {
    return phi2(s, sqrtl(q), m3) * phi2(q, m1, m2);
  });
}
L phi4(L s, const std::vector<L> &m) {
  const L w = sqrtl(s);
  return over(m[0] + m[1], w - m[2] - m[3], 4, [&](L q) {
    return phi2(q, m[0], m[1]) *
           over(m[2] + m[3], w - sqrtl(q), 4, [&](L r) {
             return phi2(s, sqrtl(q), sqrtl(r)) * phi2(r, m[2], m[3]);
           });
  });
}
L phi5(L s, L m) {
  const L w = sqrtl(s);
  return over(2 * m, w - 3 * m, 3, [&](L q) {
    return phi2(q, m, m) * over(3 * m, w - sqrtl(q), 3, [&](L r) {
             return phi2(s, sqrtl(q), sqrtl(r)) * phi3(r, m, m, m);
           });
  });
}
L phi(L s, const ParticleTypePtrList &l) {
  std::vector<L> m;
  for (auto t : l) m.push_back(t->mass());
  if (m.size() == 3) return phi3(s, m[0], m[1], m[2]);
  if (m.size() == 4) return phi4(s, m);
  return phi5(s, m[0]);
}
// The five-pion phase space is documented to be taken from a fit; the fit is
// the specification, and it has to resemble the real phase space.
L phi5_fit(L s) {
  const L s0 = 25 * 0.138L * 0.138L;
  return 2.1018e-10L * powl(s - s0, 5) * powl(1 + s / s0, -1.982L);
}

ParticleList make(pbt::Case &c, const std::vector<int> &species) {
  // thermal-like momenta, from non-relativistic to relativistic
  const double scale = c.one_of({0.05, 0.3, 1.});
  const ThreeVector v =
      c.flip() ? ThreeVector() : kit::direction(c) * c.uniform(0., 0.9);
  const double t = c.uniform(0., 10.);
  ParticleList l;
  int id = 0;
  for (int s : species) {
    ParticleData d{*type(s)};
    d.set_4momentum(d.type().mass(),
                    kit::direction(c) * c.uniform(0.05, 1.) * scale);
    d.boost_momentum(v);
    d.set_4position(FourVector(t, kit::position3(c, 1.)));
    d.set_formation_time(t - 1.);
    d.set_id(id++);
    l.push_back(d);
  }
  return l;
}
std::vector<int> some(pbt::Case &c) {
  static const std::vector<std::vector<int>> good = {
      {pip, pim, piz},         {pip, pim, eta},
      {piz, piz, eta},         {pip, p, n},
      {piz, ap, an},           {p, p, n},
      {n, p, n},               {ap, p, n},
      {an, p, n},              {ap, an, an},
      {ap, an, p},             {ap, an, n},
      {pim, p, n, n},          {pip, p, p, n},
      {p, p, n, n},            {p, n, n, n},
      {p, p, p, n},            {ap, p, n, n},
      {an, p, p, n},           {piz, ap, an, an},
      {p, ap, ap, an},         {n, ap, an, an},
      {ap, ap, an, an},        {la, p, n, pip},
      {la, p, n, n},           {la, p, n, p},
      {la, p, n, ap},          {ala, ap, an, p},
      {ala, ap, an, an},       {ala, ap, an, piz},
      {pip, pim, pip, pim, piz}};
  std::vector<int> s;
  if (c.chance(0.75)) {
    s = good[c.below(good.size())];
    if (c.below(5) == 0) s[c.below(s.size())] = c.below(nspecies);
  } else {
    const size_t k = c.count(2, 5);
    for (size_t i = 0; i < k; i++) s.push_back(c.below(nspecies));
  }
  for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[c.below(i)]);
  return s;
}
double energy(const ParticleList &l) {
  FourVector t;
  for (auto &q : l) t += q.momentum();
  return t.abs();
}
std::map<std::string, double> probabilities(const ParticleList &l, double dt,
                                            double vol,
                                            MultiParticleReactionsBitSet on) {
  ScatterActionMulti act(l, 0.1);
  act.add_possible_reactions(dt, vol, on);
  std::map<std::string, double> r;
  for (auto &b : act.reaction_channels()) {
    ParticleTypePtrList t;
    for (auto q : b->particle_types()) t.push_back(&*q);
    r[label(t)] += b->weight();
  }
  return r;
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  kit::load(particles, decays);
  auto *buf = std::cout.rdbuf(nullptr);
  IsoParticleType::tabulate_integrals(sha256::Hash{}, "");
  std::cout.rdbuf(buf);
}
void pbt::reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }

// which sets react, and at which rate: detailed balance with the forward
// reaction
PBT_PROP(detailed_balance, 3000, 60000) {
  const auto species = some(c);
  Bag bag;
  for (int s : species) bag[s]++;
  const int size = species.size();
  const ParticleList in = make(c, species);
  const double e = energy(in), dt = c.uniform(0.01, 1.),
               vol = c.uniform(1., 20.);
  MultiParticleReactionsBitSet on;
  on.set();
  if (c.below(3) == 0) on = MultiParticleReactionsBitSet(c.below(16));
  const auto got = probabilities(in, dt, vol, on);
  const auto expected = reactions(bag, size, on);
  c.note() << "sqrt(s) = " << e << " GeV, multi " << on << ":";
  for (auto &q : in) c.note() << " " << q.type().name();
  c.note() << "\n";
  std::set<std::string> names;
  double ee = 1., mass_sum = 0., gin = 1.;
  ParticleTypePtrList tin;
  for (auto &q : in) {
    ee *= 2. * q.momentum().x0();
    mass_sum += q.type().mass();
    gin *= q.type().spin() + 1;
    tin.push_back(&q.type());
  }
  std::map<std::string, double> want, tol;
  for (auto &out : expected) {
    double w, rel;
    if (out.size() == 1) {
      const ParticleType &r = *out[0];
      const double gamma = r.get_partial_width(e, tin);
      w = M_PI * gamma * r.spectral_function(e) * (r.spin() + 1) * 2.;
      // 1/(4 EEE) = 2/prod(2E)
      rel = 1e-5;
    } else {
      // the forward reaction
      ParticleData x{*out[0]}, y{*out[1]};
      const double mx = out[0]->mass(), my = out[1]->mass();
      const double k = smash::pCM(e, mx, my);
      x.set_4momentum(mx, ThreeVector(0, 0, k));
      y.set_4momentum(my, ThreeVector(0, 0, -k));
      Setting s;
      s.p.criterion = CollisionCriterion::Stochastic;
      s.p.two_to_one = false;
      s.p.two_to_two = ReactionsBitSet();
      s.p.two_to_two[NNbar] = size == 5;
      s.p.multi.set();
      s.p.nnbar = size == 5 ? NNbarTreatment::TwoToFive
                            : NNbarTreatment::NoAnnihilation;
      double sigma = 0.;
      if (e > mx + my + 1e-9) {
        ScatterAction fwd(x, y, 0.1);
        fwd.add_all_scatterings(s.parameters());
        ParticleTypePtrList sorted = tin;
        for (auto &b : fwd.collision_channels()) {
          ParticleTypePtrList t;
          for (auto q : b->particle_types()) t.push_back(&*q);
          if (label(t) == label(sorted)) sigma += b->weight();
        }
      }
      sigma *= fm2_mb / (hbarc * hbarc);  // GeV^-2
      const double l = e > mx + my ? static_cast<double>(lambda(
                                         e * e, mx * mx, my * my))
                                   : 0.;
      w = l * sigma / (4. * M_PI * e * e) * (out[0]->spin() + 1) *
          (out[1]->spin() + 1) / gin;
      rel = size == 3 ? 1e-5 : size == 4 ? 0.03 : 1e-6;
    }
    double ps = static_cast<double>(phi(e * e, tin));
    if (size == 5) {
      const double fit = static_cast<double>(phi5_fit(e * e));
      // fitted above the nucleon-antinucleon threshold
      if (e > 1.88 && e < 6.)
        PBT_CLOSE(c, fit, ps, 0.3, 0., "five-pion phase space");
      ps = fit;
    }
    w *= symmetry(bag) / ee / ps * dt *
         std::pow(vol, 1 - size) * std::pow(hbarc, 3 * size - 4);
    want[label(out)] += w;
    tol[label(out)] = rel;
    names.insert(label(out));
  }
  // close to the threshold the elliptic integrals lose accuracy
  const double near =
      1e-13 / std::pow(std::max(1e-4, (e - mass_sum) / mass_sum), 3);
  if (e - mass_sum < 1e-3) c.discard();
  for (auto &g : got)
    PBT_CHECK(c, names.count(g.first) || g.second == 0.,
              "unexpected reaction to " << g.first << ", probability "
                                        << g.second);
  for (auto &w : want) {
    const double g = got.count(w.first) ? got.at(w.first) : 0.;
    PBT_CLOSE(c, g, w.second, tol[w.first] + near, 1e-30,
              "probability of the reaction to " << w.first);
    c.label(pbt::Fmt() << size << " to "
                       << 1 + (w.first.find(' ') != std::string::npos),
            w.second > 0.);
  }
  c.nontrivial(!want.empty());
}

// symmetries and scaling
PBT_PROP(symmetries, 3000, 60000) {
  auto species = some(c);
  const ParticleList in = make(c, species);
  const double dt = c.uniform(0.01, 1.), vol = c.uniform(1., 20.);
  // without relative motion there is no phase space to divide by
  FourVector sum;
  double mass = 0.;
  for (auto &q : in) {
    sum += q.momentum();
    mass += q.type().mass();
  }
  if (sum.abs() - mass < 1e-3 * mass) c.discard();
  MultiParticleReactionsBitSet on;
  on.set();
  const auto a = probabilities(in, dt, vol, on);
  auto equal = [&](const std::map<std::string, double> &b, double f,
                   const char *what) {
    PBT_CHECK(c, a.size() == b.size(), what << ": " << a.size() << " and "
                                            << b.size() << " reactions");
    for (auto &e : a) {
      PBT_CHECK(c, b.count(e.first), what << ": no reaction to " << e.first);
      PBT_CLOSE(c, b.at(e.first), e.second * f, 2e-6, 1e-300,
                what << ": reaction to " << e.first);
    }
  };
  ParticleList x = in;
  for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[c.below(i)]);
  equal(probabilities(x, dt, vol, on), 1., "permuted particles");
  equal(probabilities(in, 2. * dt, vol, on), 2., "doubled time step");
  equal(probabilities(in, dt, 2. * vol, on), std::pow(2., 1. - in.size()),
        "doubled volume");
  // antiparticles
  bool ok = true;
  ParticleList y;
  for (size_t i = 0; i < in.size(); i++) {
    if (conj(species[i]) < 0) {
      ok = false;
      break;
    }
    ParticleData d{*type(conj(species[i]))};
    d.set_4momentum(in[i].momentum());
    d.set_4position(in[i].position());
    y.push_back(d);
  }
  if (ok) {
    const auto b = probabilities(y, dt, vol, on);
    std::vector<double> u, v;
    for (auto &e : a) u.push_back(e.second);
    for (auto &e : b) v.push_back(e.second);
    std::sort(u.begin(), u.end());
    std::sort(v.begin(), v.end());
    PBT_CHECK(c, u.size() == v.size(), "antiparticles react differently");
    for (size_t i = 0; i < u.size(); i++)
      PBT_CLOSE(c, v[i], u[i], 1e-9, 1e-300, "reaction of the antiparticles");
  }
  for (auto &e : a)
    PBT_CHECK(c, e.second >= 0. && std::isfinite(e.second),
              "probability " << e.second << " of " << e.first);
  // reactions outside of the configuration
  for (int bit = 0; bit < 4; bit++) {
    MultiParticleReactionsBitSet one;
    one[bit] = 1;
    const auto b = probabilities(in, dt, vol, one);
    for (auto &e : b)
      PBT_CHECK(c, a.count(e.first) && a.at(e.first) == e.second,
                "switch " << bit << " alone changes " << e.first);
    const bool mine = (bit == Meson_3to1 && a.size() &&
                       a.begin()->first.find(' ') == std::string::npos) ||
                      (bit == Deuteron_3to2 && in.size() == 3 && a.size() &&
                       a.begin()->first.find(' ') != std::string::npos) ||
                      (bit == A3_Nuclei_4to2 && in.size() == 4) ||
                      (bit == NNbar_5to2 && in.size() == 5);
    PBT_CHECK(c, (mine ? a.size() : 0) == b.size(),
              "switch " << bit << " alone allows " << b.size()
                        << " reactions");
  }
  c.nontrivial(!a.empty());
}

// final states
PBT_PROP(final_state, 3000, 60000) {
  const auto species = some(c);
  ParticleList in = make(c, species);
  MultiParticleReactionsBitSet on;
  on.set();
  ScatterActionMulti act(in, c.uniform(0., 1.));
  act.add_possible_reactions(0.1, 1., on);
  if (act.reaction_channels().empty() || !(act.get_total_weight() > 0.))
    c.discard();
  act.set_stochastic_pos_idx();
  const auto channels = probabilities(in, 0.1, 1., on);
  FourVector tot;
  for (auto &q : in) tot += q.momentum();
  std::map<std::string, int> seen;
  const int reps = 200;
  double sum = 0.;
  for (auto &e : channels) sum += e.second;
  PBT_CLOSE(c, act.get_total_weight(), sum, 1e-12, 0., "total probability");
  for (int i = 0; i < reps; i++) {
    act.generate_final_state();
    const auto &out = act.outgoing_particles();
    ParticleTypePtrList t;
    FourVector sum_p;
    for (auto &q : out) {
      t.push_back(&q.type());
      sum_p += q.momentum();
      bool at = false;
      for (auto &r : in) at = at || r.position() == q.position();
      PBT_CHECK(c, at, "product at no incoming particle's position");
      const double m = q.effective_mass();
      if (out.size() == 1) {
        PBT_CLOSE(c, m, tot.abs(), 1e-7, 1e-7, "mass");
      } else {
        PBT_CLOSE(c, m, q.type().mass(), 1e-6, 1e-6 * q.momentum().x0(),
                  "mass of " << q.type().name());
      }
      PBT_CLOSE(c, q.formation_time(), act.time_of_execution(), 1e-12, 0.,
                "formation time");
    }
    const std::string k = label(t);
    PBT_CHECK(c, channels.count(k), "final state " << k);
    PBT_CLOSE(c, act.get_partial_weight(), channels.at(k), 1e-9, 0.,
              "partial probability of " << k);
    seen[k]++;
    for (int j = 0; j < 4; j++)
      PBT_CLOSE(c, sum_p[j], tot[j], 1e-9, 1e-8 * tot.x0(), "momentum");
    const QuantumNumbers a(in), b(out);
    PBT_CHECK(c, a.charge() == b.charge() &&
                     a.baryon_number() == b.baryon_number() &&
                     a.strangeness() == b.strangeness(),
              k << ": quantum numbers changed");
  }
  for (auto &e : channels) {
    const double pr = e.second / sum, sd = std::sqrt(reps * pr * (1 - pr));
    PBT_CHECK(c, std::fabs(seen[e.first] - reps * pr) < 7 * sd + 4,
              e.first << " " << seen[e.first] << " times of " << reps
                      << ", expected " << reps * pr);
  }
  c.nontrivial(channels.size() > 1);
}

// the finder tries every set once, with the right probability
PBT_PROP(finder, 200, 4000) {
  std::vector<int> species = some(c);
  for (int tries = 20; species.size() < 3; species = some(c))
    if (!tries--) c.discard();
  ParticleList in = make(c, species);
  Setting s;
  s.p.criterion = CollisionCriterion::Stochastic;
  s.p.two_to_one = false;
  s.p.two_to_two = ReactionsBitSet();
  const size_t size = species.size();
  s.p.multi = MultiParticleReactionsBitSet();
  s.p.multi[Meson_3to1] = s.p.multi[Deuteron_3to2] = size == 3;
  s.p.multi[A3_Nuclei_4to2] = size == 4;
  s.p.multi[NNbar_5to2] = size == 5;
  // no annihilation of the two nucleons of a larger set
  s.p.nnbar = size == 5 ? NNbarTreatment::TwoToFive
                                  : NNbarTreatment::NoAnnihilation;
  s.p.testparticles = 1 + static_cast<int>(c.below(3));
  s.within = c.flip();
  s.warn = c.flip();
  const int where = c.below(3);
  bool nucleus = c.below(4) == 0, collided = false;
  if (nucleus) {
    collided = c.flip();
    for (auto &q : in)
      q.set_belongs_to(where == 0 ? BelongsTo::Projectile
                                  : BelongsTo::Target);
    if (collided)
      in[c.below(in.size())].set_history(1, 3, ProcessType::Elastic, 0.,
                                         ParticleList{});
  }
  for (auto &q : in) c.note() << q.type().name() << " ";
  const bool banned = nucleus && !collided && !s.within;
  const double dt = c.uniform(0.01, 0.5);
  // spectators that react with nobody
  for (int extra = c.below(3); extra; extra--) {
    ParticleData k{*type(kp)};
    k.set_4momentum(k.type().mass(), kit::momentum3(c, 1.));
    k.set_4position(in[0].position());
    k.set_formation_time(in[0].formation_time());
    k.set_id(20 + extra);
    in.push_back(k);
  }
  ParticleList core(in.begin(), in.begin() + species.size());
  double sum1 = 0.;
  for (auto &e : probabilities(core, dt, 1., s.p.multi)) sum1 += e.second;
  // sub-lists must not react: keep only sets where that is the case
  for (size_t mask = 1; mask + 1 < (1u << species.size()); mask++) {
    ParticleList sub;
    for (size_t i = 0; i < species.size(); i++)
      if (mask >> i & 1) sub.push_back(in[i]);
    if (sub.size() >= 3 && !probabilities(sub, dt, 1., s.p.multi).empty())
      c.discard();
  }
  if (!(sum1 > 1e-30)) c.discard();
  const double prob = c.uniform(0.05, 0.95);
  const double power = static_cast<double>(species.size()) - 1.;
  const double unit = std::pow(
      sum1 / std::pow(s.p.testparticles, power), 1. / power);
  double vol = unit * std::pow(prob, -1. / power);
  const auto f = s.finder();
  if (!(vol > 1e-5)) c.discard();
  if (!banned && c.below(4) == 0) {
    bool thrown = false;
    try {
      const auto l = f->find_actions_in_cell(in, dt, unit * 0.99, {});
      PBT_CHECK(c, l.size() == 1, "no reaction at probability 1");
    } catch (std::runtime_error &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown != s.warn, "probability above 1: exception "
                                       << thrown);
    return;
  }
  const int reps = pbt::options().thorough ? 10000 : 1000;
  int hits = 0;
  for (int i = 0; i < reps; i++) {
    ParticleList l = in;
    std::rotate(l.begin(), l.begin() + i % l.size(), l.end());
    const auto found = f->find_actions_in_cell(l, dt, vol, {});
    PBT_CHECK(c, found.size() <= 1, "set of particles found twice");
    for (auto &a : found) {
      PBT_CHECK(c, a->incoming_particles().size() == species.size(),
                "reaction of " << a->incoming_particles().size());
      const double t = a->time_of_execution() - in[0].position().x0();
      PBT_CHECK(c, t >= 0. && t < dt, "reaction at " << t);
      hits++;
    }
  }
  const double q = banned ? 0. : prob, sd = std::sqrt(reps * q * (1 - q));
  PBT_CHECK(c, std::fabs(hits - reps * q) < 7 * sd + 1e-6,
            hits << " reactions of " << reps << ", expected " << reps * q);
  PBT_CHECK(c, f->find_actions_with_neighbors(core, in, dt, {}).empty(),
            "reaction with a neighbour cell");
  c.nontrivial(!banned);
  c.label(pbt::Fmt() << species.size() << " particles");
}

// phase-space integral of three particles
PBT_PROP(phase_space, 1000, 20000) {
  std::vector<int> sp;
  for (int i = 0; i < 3; i++) sp.push_back(c.below(nspecies));
  ParticleList in = make(c, sp);
  ScatterActionMulti act(in, 0.1);
  std::vector<L> m;
  L sum = 0;
  for (auto &q : in) {
    m.push_back(q.type().mass());
    sum += m.back();
  }
  const double e = static_cast<double>(sum) *
                   (1. + (c.flip() ? c.uniform(0.01, 3.)
                                   : c.logreal(1e-3, 10.)));
  const L want = phi3(static_cast<L>(e) * e, m[0], m[1], m[2], 40) * 128 *
                 powl(M_PIl, 3) * e * e;
  PBT_CLOSE(c, act.calculate_I3(e), static_cast<double>(want), 1e-6,
            1e-11, "three-body phase-space integral");
  PBT_CHECK(c, act.calculate_I3(static_cast<double>(sum) * 0.99) == 0.,
            "phase space below the threshold");
  c.nontrivial();
}

PBT_MAIN
