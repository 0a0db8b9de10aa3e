// P12: which reactions two particles can undergo, and with which cross
// sections (without string excitation).
#include <fstream>
#include <map>
#include <set>

#include "params.h"
#include "ref.h"
#include "smash/clebschgordan.h"
#include "smash/constants.h"
#include "smash/crosssections.h"
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/kinematics.h"
#include "smash/parametrizations.h"
#include "smash/pow.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinder.h"
#include "smashkit.h"

using namespace smash;

namespace {
void load_reference();
constexpr double mb = hbarc * hbarc / fm2_mb;  // GeV^-2 -> mb

struct Knobs {
  kit::Params p;
  double elastic = -1., additional = 0.;
  bool aqm = true;
  std::string strategy = "BottomUp";
  ScatterActionsFinderParameters make() const {
    auto cfg = kit::config(
        pbt::Fmt() << std::setprecision(17)
                   << "Collision_Term: {Only_Warn_For_High_Probability: true, "
                      "Pseudoresonance: None, Total_Cross_Section_Strategy: "
                   << strategy << ", Elastic_Cross_Section: " << elastic
                   << ", Additional_Elastic_Cross_Section: " << additional
                   << ", Use_AQM: " << (aqm ? "true" : "false") << "}");
    ScatterActionsFinderParameters r(cfg, p.make());
    cfg.clear();
    return r;
  }
};

using Channels = std::map<std::string, double>;
std::string key(ParticleTypePtrList l) {
  std::vector<std::string> n;
  for (auto t : l) n.push_back(t->name());
  std::sort(n.begin(), n.end());
  std::string r;
  for (auto &s : n) r += (r.empty() ? "" : " ") + s;
  return r;
}
ParticleTypePtrList outgoing(const CollisionBranch &b) {
  ParticleTypePtrList r;
  for (auto t : b.particle_types()) r.push_back(&*t);
  return r;
}

struct Pair {
  ParticleTypePtr a, b;
  double ma, mb, sqrts;
  ParticleData pa() const { return make(a, ma, 1.); }
  ParticleData pb() const { return make(b, mb, -1.); }
  double pcm() const { return smash::pCM(sqrts, ma, mb); }

 private:
  ParticleData make(ParticleTypePtr t, double m, double sign) const {
    ParticleData p{*t};
    p.set_4momentum(m, ThreeVector(0., 0., sign * pcm()));
    return p;
  }
};
struct Outcome {
  Channels all;
  double total = 0., sum = 0.;
  std::vector<std::pair<ParticleTypePtrList,
                        std::pair<double, ProcessType>>>
      list;
};
Outcome react(const ParticleData &a, const ParticleData &b, const Knobs &k,
              bool topdown = false) {
  const auto fp = k.make();
  ScatterAction act(a, b, 0., false, 1., -1., topdown);
  if (topdown) act.set_parametrized_total_cross_section(fp);
  act.add_all_scatterings(fp);
  Outcome o;
  for (const auto &c : act.collision_channels()) {
    const auto l = outgoing(*c);
    o.list.push_back({l, {c->weight(), c->get_type()}});
    o.all[(c->get_type() == ProcessType::Elastic ? "el: " : "") + key(l)] +=
        c->weight();
    o.sum += c->weight();
  }
  o.total = act.cross_section();
  return o;
}
Outcome react(const Pair &p, const Knobs &k, bool topdown = false) {
  return react(p.pa(), p.pb(), k, topdown);
}

ParticleTypePtrList &pool() {
  static ParticleTypePtrList l;
  if (l.empty())
    for (const auto &t : ParticleType::list_all())
      if (t.is_hadron() || t.is_nucleus()) l.push_back(&t);
  return l;
}
bool nucleus_or_light(ParticleTypePtr t) { return t->is_stable(); }
double mass(pbt::Case &c, ParticleTypePtr t) {
  if (t->is_stable() || c.below(3) == 0) return t->mass();
  const double lo = t->min_mass_kinematic();
  return c.uniform(lo + 1e-3, std::max(lo + 2e-3,
                                       t->mass() + 2 * t->width_at_pole()));
}
ParticleTypePtr pick_species(pbt::Case &c) {
  if (c.chance(0.7))
    return &ParticleType::find(PdgCode::from_decimal(c.one_of<int>(
        {211, -211, 111, 2212, 2112, -2212, -2112, 321, 311, -321, -311, 3122,
         3222, 3212, 3112, -3122, 2224, 2214, 2114, 1114, -2214, 3322, 3312})));
  return pool()[c.below(pool().size())];
}
Pair pair(pbt::Case &c) {
  Pair p;
  p.a = pick_species(c);
  p.b = pick_species(c);
  p.ma = mass(c, p.a);
  p.mb = mass(c, p.b);
  p.sqrts = p.ma + p.mb + (c.flip() ? c.uniform(0.002, 1.5)
                                    : c.logreal(2e-3, 4.));
  c.label(p.a->is_nucleus() || p.b->is_nucleus() ? "nuclei"
          : p.a->is_meson() && p.b->is_meson()   ? "MM"
          : p.a->is_meson() || p.b->is_meson()   ? "MB"
                                                 : "BB");
  c.note() << p.a->name() << "(" << p.ma << ") + " << p.b->name() << "("
           << p.mb << "), sqrt(s) = " << p.sqrts << "\n";
  return p;
}
Knobs knobs(pbt::Case &c) {
  Knobs k;
  if (c.flip()) k.p.two_to_two = ReactionsBitSet(c.below(1024));
  k.p.two_to_one = !c.chance(0.25);
  k.p.nnbar = c.one_of<NNbarTreatment>(
      {NNbarTreatment::NoAnnihilation, NNbarTreatment::Resonances,
       NNbarTreatment::TwoToFive});
  if (c.chance(0.3))
    k.p.multi = MultiParticleReactionsBitSet(c.below(1 << k.p.multi.size()));
  if (c.chance(0.3)) k.p.scale_xs = c.uniform(0.1, 3.);
  if (c.chance(0.3)) k.additional = c.uniform(0., 20.);
  if (c.chance(0.2)) k.elastic = c.uniform(0., 50.);
  if (c.chance(0.2)) k.p.low_snn = c.uniform(1.8, 3.);
  k.aqm = c.flip();
  return k;
}
std::string show(const Channels &x) {
  pbt::Fmt f;
  for (auto &e : x) f << e.first << ": " << e.second << "; ";
  return f;
}
void same(pbt::Case &c, const Channels &x, const Channels &y, double rel,
          const char *what) {
  std::set<std::string> keys;
  for (auto &e : x) keys.insert(e.first);
  for (auto &e : y) keys.insert(e.first);
  for (auto &k : keys) {
    const double u = x.count(k) ? x.at(k) : 0., v = y.count(k) ? y.at(k) : 0.;
    PBT_CHECK(c, std::abs(u - v) <= rel * std::max(u, v) + 2e-6,
              what << ": channel " << k << " has " << u
                         << " mb, but " << v << " mb expected");
  }
}
ParticleTypePtr conj(ParticleTypePtr t) {
  return t->has_antiparticle() ? &*t->get_antiparticle() : t;
}
ParticleTypePtr mirror(ParticleTypePtr t) {
  for (auto s : t->iso_multiplet()->get_states())
    if (s->isospin3() == -t->isospin3() &&
        s->antiparticle_sign() == t->antiparticle_sign())
      return &*s;
  return {};
}
template <class F>
Channels mapped(const Outcome &o, F f) {
  Channels r;
  for (auto &ch : o.list) {
    auto l = ch.first;
    for (auto &t : l) {
      t = f(t);
      if (!t) return {};
    }
    r[(ch.second.second == ProcessType::Elastic ? "el: " : "") + key(l)] +=
        ch.second.first;
  }
  return r;
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  std::vector<std::string> names = {
      "η",       "σ",       "ρ",        "ω",       "φ",       "h₁(1170)",
      "K*(892)", "N(1440)", "N(1535)",  "Δ",       "Δ(1620)", "Λ",
      "Σ",       "Ξ",       "Ω⁻",       "Λ(1405)", "Λ(1520)", "Σ(1385)",
      "Ξ(1530)", "d",       "d'",       "t",       "He3",     "H3L",
      "D",       "Λc",      "D*(2007)"};
  const auto all = kit::default_multiplets();
  uint64_t s = pbt::options().seed;
  for (int i = 0; i < 5; i++)
    names.push_back(all[pbt::splitmix(s) % all.size()]);
  kit::load_reduced(names,
                    "d 1.8756 0 + 1000010020\n"
                    "t 2.8089 0 + 1000010030\n"
                    "He3 2.8084 0 + 1000020030\n"
                    "H3L 2.9934 0 + 1010010030\n"
                    "d' 1.8856 0.100 - 1000010021\n",
                    "d'\n1. 1 N N\n");
  auto *buf = std::cout.rdbuf(nullptr);
  IsoParticleType::tabulate_integrals(sha256::Hash{}, "");
  std::cout.rdbuf(buf);
  load_reference();
}
void pbt::reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }

PBT_PROP(channels, 3000, 60000) {
  const Pair p = pair(c);
  const Knobs k = knobs(c);
  const Outcome o = react(p, k);
  int elastic = 0;
  for (auto &ch : o.list) {
    const auto &l = ch.first;
    const double w = ch.second.first;
    PBT_CHECK(c, std::isfinite(w) && w >= 0,
              "the cross section of " << key(l) << " is " << w);
    int q = 0, b = 0, s = 0, ch4 = 0, bot = 0;
    double thr = 0.;
    for (auto t : l) {
      q += t->charge();
      b += t->baryon_number();
      s += t->strangeness();
      ch4 += t->pdgcode().charmness();
      bot += t->pdgcode().bottomness();
      thr += t->min_mass_kinematic();
    }
    PBT_CHECK(
        c,
        q == p.a->charge() + p.b->charge() &&
            b == p.a->baryon_number() + p.b->baryon_number() &&
            s == p.a->strangeness() + p.b->strangeness() &&
            ch4 == p.a->pdgcode().charmness() + p.b->pdgcode().charmness() &&
            bot == p.a->pdgcode().bottomness() + p.b->pdgcode().bottomness(),
        "the channel to " << key(l) << " breaks a charge");
    if (ch.second.second == ProcessType::Elastic) {
      elastic++;
      PBT_CHECK(c, key(l) == key({p.a, p.b}),
                "the elastic channel changes the particles");
    } else {
      PBT_CHECK(c, key(l) != key({p.a, p.b}),
                "an inelastic channel with the incoming particles");
      PBT_CHECK(c, w <= 1e-9 || thr <= p.sqrts + 1e-9,
                "the channel to " << key(l) << " with " << w
                           << " mb is closed: it needs " << thr << " GeV");
    }
  }
  PBT_CLOSE(c, o.total, o.sum, 1e-12, 1e-12,
            "the total is not the sum of the channels");
  const bool same_sign_nn =
      p.a->is_nucleon() && p.b->is_nucleon() &&
      p.a->antiparticle_sign() == p.b->antiparticle_sign();
  const bool may = k.p.two_to_two[IncludedReactions::Elastic] &&
                   !(same_sign_nn && p.sqrts < k.p.low_snn);
  PBT_CHECK(c, elastic <= may, "there is elastic scattering");
  if (may && (k.elastic > 0. || k.additional > 0.))
    PBT_CHECK(c, elastic == 1, "there is no elastic scattering");
  c.nontrivial(o.list.size() > 2);
}

PBT_PROP(symmetries, 2500, 50000) {
  const Pair p = pair(c);
  Knobs k = knobs(c);
  const Outcome o = react(p, k);
  // exchange
  same(c, react(p.pb(), p.pa(), k).all, o.all, 1e-9, "exchanged");
  // another frame
  const ThreeVector v = kit::velocity(c, 5.);
  ParticleData ba = p.pa(), bb = p.pb();
  ba.boost_momentum(v);
  bb.boost_momentum(v);
  same(c, react(ba, bb, k).all, o.all, 2e-4, "boosted");
  // antiparticles
  Pair q = p;
  q.a = conj(p.a);
  q.b = conj(p.b);
  same(c, react(q, k).all, mapped(o, conj), 3e-4, "charge conjugate");
  // isospin flipped
  q.a = mirror(p.a);
  q.b = mirror(p.b);
  if (q.a && q.b) {
    // (not of resonance formation: the decay tables break isospin)
    k.p.two_to_one = false;
    if (k.p.nnbar == NNbarTreatment::Resonances)
      k.p.nnbar = NNbarTreatment::NoAnnihilation;
    const auto m = mapped(react(p, k), mirror);
    if (!m.empty()) same(c, react(q, k).all, m, 3e-4, "isospin mirror");
  }
  c.nontrivial(o.list.size() > 2 && q.a && (q.a != p.a || q.b != p.b));
}

// reactions switched on one by one add up to those switched on together
PBT_PROP(switches, 1500, 30000) {
  const Pair p = pair(c);
  Knobs k = knobs(c);
  k.p.nnbar = NNbarTreatment::NoAnnihilation;
  const Outcome o = react(p, k);
  const ReactionsBitSet all = k.p.two_to_two;
  Channels sum, single[10];
  Knobs one = k;
  one.p.two_to_two.reset();
  for (size_t i = 0; i < all.size(); i++) {
    if (!all[i]) continue;
    Knobs x = k;
    x.p.multi.reset();
    x.p.two_to_one = false;
    x.p.two_to_two.reset();
    x.p.two_to_two.set(i);
    const Outcome xo = react(p, x);
    single[i] = xo.all;
    for (auto &e : xo.all) sum[e.first] += e.second;
    for (auto &ch : xo.list) {
      // every switch governs its reactions only
      int kaon = 0, delta = 0, nucleon = 0, hyperon = 0, d = 0, dp = 0, pi = 0,
          res = 0, all_n = 0, out_d = 0;
      const auto count = [&](ParticleTypePtr t, bool out) {
        kaon += t->is_kaon();
        delta += t->is_Delta();
        nucleon += t->is_nucleon();
        hyperon += t->pdgcode().is_hyperon();
        d += t->is_deuteron();
        dp += t->is_dprime();
        pi += t->is_pion();
        res += t->is_baryon() && !t->is_stable();
        all_n++;
        out_d += out && (t->is_deuteron() || t->is_dprime());
      };
      count(p.a, false);
      count(p.b, false);
      for (auto t : ch.first) count(t, true);
      bool ok = false;
      switch (i) {
        case IncludedReactions::Elastic:
          ok = ch.second.second == ProcessType::Elastic;
          break;
        case IncludedReactions::NN_to_NR:
          ok = nucleon == 3 && res == 1;
          break;
        case IncludedReactions::NN_to_DR:
          ok = nucleon == 2 && res == 2 && delta >= 1;
          break;
        case IncludedReactions::KN_to_KN:
          ok = nucleon == 2 && kaon == 2;
          break;
        case IncludedReactions::KN_to_KDelta:
          ok = nucleon == 1 && kaon == 2 && delta == 1;
          break;
        case IncludedReactions::Strangeness_exchange:
          ok = nucleon == 1 && kaon == 1 && hyperon == 1 && pi == 1;
          break;
        case IncludedReactions::PiDeuteron_to_NN:
          ok = nucleon == 2 && pi == 1 && d == 1;
          break;
        case IncludedReactions::PiDeuteron_to_pidprime:
          ok = pi == 2 && d == 1 && dp == 1;
          break;
        case IncludedReactions::NDeuteron_to_Ndprime:
          ok = nucleon == 2 && d == 1 && dp == 1;
          break;
      }
      PBT_CHECK(c, ok && all_n == 4,
                "switch " << i << " alone gives the channel " << key(ch.first));
    }
  }
  if (k.p.two_to_one) {
    one.p.two_to_one = true;
    one.p.multi.reset();
    const Outcome xo = react(p, one);
    for (auto &ch : xo.list)
      PBT_CHECK(c, ch.first.size() == 1 &&
                       ch.second.second == ProcessType::TwoToOne,
                "Two_to_One alone gives the channel " << key(ch.first));
    for (auto &e : xo.all) sum[e.first] += e.second;
  }
  for (size_t i = 0; i < k.p.multi.size(); i++) {
    if (!k.p.multi[i]) continue;
    Knobs x = one;
    x.p.two_to_one = false;
    x.p.multi.reset();
    x.p.multi.set(i);
    const Outcome xo = react(p, x);
    for (auto &ch : xo.list)
      PBT_CHECK(c,
                (i == IncludedMultiParticleReactions::Deuteron_3to2 &&
                 ch.first.size() == 3) ||
                    (i == IncludedMultiParticleReactions::A3_Nuclei_4to2 &&
                     ch.first.size() == 4),
                "multi-particle switch " << i << " alone gives "
                                         << key(ch.first));
    for (auto &e : xo.all) sum[e.first] += e.second;
  }
  same(c, o.all, sum, 1e-9, "sum over the switches");
  c.nontrivial(o.list.size() > 2);
}

// scaling, additional and constant elastic cross sections
PBT_PROP(scaling, 1500, 30000) {
  const Pair p = pair(c);
  Knobs k = knobs(c);
  if (k.p.nnbar == NNbarTreatment::Resonances)
    k.p.nnbar = NNbarTreatment::NoAnnihilation;
  Knobs base = k;
  base.p.scale_xs = 1.;
  base.additional = 0.;
  base.p.low_snn = 0.;
  const Outcome b = react(p, base), o = react(p, k);
  Channels expect;
  for (auto &e : b.all) expect[e.first] = e.second * k.p.scale_xs;
  const std::string el = "el: " + key({p.a, p.b});
  const bool cut = p.a->is_nucleon() && p.b->is_nucleon() &&
                   p.a->antiparticle_sign() == p.b->antiparticle_sign() &&
                   p.sqrts < k.p.low_snn;
  if (cut)
    expect.erase(el);
  else if (k.p.two_to_two[IncludedReactions::Elastic])
    expect[el] += k.additional * k.p.scale_xs;
  same(c, o.all, expect, 1e-9, "scaled");
  if (k.elastic >= 0 && k.p.two_to_two[IncludedReactions::Elastic])
    PBT_CLOSE(c, b.all.count(el) ? b.all.at(el) : 0., k.elastic, 1e-12, 1e-12,
              "constant elastic cross section");
  // unformed particles: the weight is scaled down
  const auto fp = k.make();
  ParticleData x = p.pa(), y = p.pb();
  const double fx = c.unit(), fy = c.unit();
  x.set_cross_section_scaling_factor(fx);
  y.set_cross_section_scaling_factor(fy);
  x.set_slow_formation_times(-1., 5.);
  y.set_slow_formation_times(-1., 5.);
  ScatterAction act(x, y, 0.);
  act.add_all_scatterings(fp);
  PBT_CLOSE(c, act.cross_section(), o.sum, 1e-9, 1e-9, "cross section");
  PBT_CLOSE(c, act.get_total_weight(),
            o.sum * x.xsec_scaling_factor() * y.xsec_scaling_factor(), 1e-9,
            1e-12, "weight of unformed particles");
  c.nontrivial(o.list.size() > 2 && (k.p.scale_xs != 1. || k.additional > 0.));
}

// parametrized total cross sections ("TopDown")
PBT_PROP(top_down, 1500, 30000) {
  const Pair p = pair(c);
  Knobs k = knobs(c);
  if (k.p.two_to_two == ReactionsBitSet(1)) k.p.two_to_two.set();
  k.strategy = "TopDown";
  if (k.p.nnbar == NNbarTreatment::Resonances)
    k.p.nnbar = NNbarTreatment::NoAnnihilation;
  const auto fp = k.make();
  const double expected =
      CrossSections({p.pa(), p.pb()}, p.sqrts, {}).parametrized_total(fp);
  PBT_CHECK(c, expected >= 0, "the parametrized total is negative");
  const Outcome o = react(p, k, true), u = react(p, k);
  PBT_CLOSE(c, o.total, expected, 1e-9, 1e-9, "the total cross section");
  PBT_CLOSE(c, o.sum, expected, 1e-9, 1e-9, "the sum of the channels");
  if (u.sum > 2e-6) {
    Channels scaled;
    for (auto &e : u.all) scaled[e.first] = e.second * expected / u.sum;
    same(c, o.all, scaled, 1e-9, "rescaled to the parametrization");
  } else if (u.sum < 5e-7) {
    PBT_CHECK(c, expected == 0. || (o.all.size() >= 1 &&
                                    o.all.count("el: " + key({p.a, p.b}))),
              "no elastic channel fills the parametrized cross section");
  }
  // measured pairs are blind to the order, to conjugation and to isospin flips
  for (int i = 0; i < 3; i++) {
    Pair q = p;
    if (i == 0) {
      std::swap(q.a, q.b);
      std::swap(q.ma, q.mb);
    } else {
      q.a = i == 1 ? conj(p.a) : mirror(p.a);
      q.b = i == 1 ? conj(p.b) : mirror(p.b);
      if (!q.a || !q.b) continue;
    }
    PBT_CLOSE(c,
              CrossSections({q.pa(), q.pb()}, q.sqrts, {})
                  .parametrized_total(fp),
              expected, 1e-9, 1e-9,
              "parametrized total with " << (i == 0   ? "exchanged"
                                             : i == 1 ? "conjugate"
                                                      : "mirrored")
                                         << " particles");
  }
  c.nontrivial(u.list.size() > 1);
}

// a + b -> R is the Breit-Wigner formula, for every R that couples to a b
PBT_PROP(formation, 1500, 30000) {
  const Pair p = pair(c);
  Knobs k;
  k.p.two_to_two.reset();
  const Outcome o = react(p, k);
  Channels expect;
  const ParticleData a = p.pa(), b = p.pb();
  const double pc = p.pcm();
  for (const auto &t : ParticleType::list_all()) {
    if (t.is_stable() || t.charge() != p.a->charge() + p.b->charge() ||
        t.baryon_number() != p.a->baryon_number() + p.b->baryon_number() ||
        t.strangeness() != p.a->strangeness() + p.b->strangeness())
      continue;
    const double in = t.get_partial_in_width(p.sqrts, a, b);
    if (in <= 0) continue;
    const double x = (p.a == p.b ? 2. : 1.) * (t.spin() + 1.) /
                     ((p.a->spin() + 1.) * (p.b->spin() + 1.)) * 2. * M_PI *
                     M_PI / (pc * pc) * t.spectral_function(p.sqrts) * in * mb;
    if (x > 1e-6) expect[t.name()] = x;
  }
  same(c, o.all, expect, 1e-8, "resonance formation");
  c.nontrivial(expect.size() > 1);
}

namespace {
double reverse(ParticleTypePtr a, double ma, ParticleTypePtr b, double mb_,
               double sqrts, const std::string &out, const Knobs &k) {
  if (sqrts - ma - mb_ < 1e-9) return 0.;
  const Outcome o = react(Pair{a, b, ma, mb_, sqrts}, k);
  return o.all.count(out) ? o.all.at(out) : 0.;
}
// integral over the mass of t of f(m) A(m)
template <class F>
double over_mass(ParticleTypePtr t, double mmax, int n, F f) {
  const double M = t->mass(), w = std::max(1e-3, t->width_at_pole());
  const auto x = [&](double m) { return std::atan((m * m - M * M) / (M * w)); };
  const double lo = x(t->min_mass_kinematic()), hi = x(mmax);
  return static_cast<double>(ref::integrate(
      [&](long double y) -> long double {
        const double m = std::sqrt(M * M + M * w * std::tan((double)y));
        const double cy = std::cos((double)y);
        return f(m) * t->spectral_function(m) * M * w / (2 * m * cy * cy);
      },
      lo, hi, n));
}
}  // namespace

// sigma(ab -> cd) g_a g_b p_ab^2 (1 + delta_cd) =
//     sigma(cd -> ab) g_c g_d p_cd^2 (1 + delta_ab),
// integrated over the masses of unstable c, d
PBT_PROP(detailed_balance, 250, 5000) {
  const auto T = [](int code) {
    return &ParticleType::find(PdgCode::from_decimal(code));
  };
  const auto D = [](const char *code) {
    return &ParticleType::find(PdgCode(code));
  };
  Pair p;
  const int kind = c.below(6);
  const int sign = c.flip() ? 1 : -1;
  const int n1 = c.one_of<int>({2212, 2112}), n2 = c.one_of<int>({2212, 2112});
  Knobs k;
  k.p.two_to_one = false;
  k.p.two_to_two.set(IncludedReactions::Elastic, false);
  switch (kind) {
    case 0:
    case 1:
      p.a = T(sign * n1);
      p.b = T(sign * n2);
      break;
    case 2:
    case 3:
      p.a = T(sign * n1);
      p.b = T(c.one_of<int>({321, 311, -321, -311}));
      break;
    case 4:
      p.a = D(sign > 0 ? "1000010020" : "-1000010020");
      p.b = T(c.one_of<int>({211, -211, 111, 2212, 2112, -2212, -2112}));
      break;
    default:
      p.a = T(n1);
      p.b = T(-n1);
      k.p.nnbar = NNbarTreatment::Resonances;
      k.p.two_to_two.set();
  }
  c.label(kind <= 1   ? "NN"
          : kind <= 3 ? "KN"
          : kind == 4 ? "d"
                      : "NNbar");
  p.ma = p.a->mass();
  p.mb = p.b->mass();
  p.sqrts = p.ma + p.mb + c.uniform(0.03, 2.);
  const Outcome o = react(p, k);
  c.note() << p.a->name() << " " << p.b->name() << " at " << p.sqrts << "\n";
  if (o.all.empty()) return;
  // one of the channels
  std::vector<std::string> keys;
  for (auto &e : o.all) keys.push_back(e.first);
  const std::string chosen = keys[c.below(keys.size())];
  ParticleTypePtrList out;
  for (auto &ch : o.list)
    if (key(ch.first) == chosen && ch.second.second != ProcessType::Elastic)
      out = ch.first;
  if (out.empty()) return;
  if (out[0]->is_stable()) std::swap(out[0], out[1]);
  const ParticleTypePtr r = out[0], t = out[1];
  const double fwd = o.all.at(chosen);
  const double g = (r->spin() + 1.) * (t->spin() + 1.) /
                   ((p.a->spin() + 1.) * (p.b->spin() + 1.)) *
                   (p.a == p.b ? 2. : 1.) / (r == t ? 2. : 1.);
  const std::string in = key({p.a, p.b});
  const bool swapped = c.flip();
  const auto expect = [&](double sqrts) {
    const auto term = [&](double m1, double m2) {
      const double q = smash::pCM(sqrts, m1, m2), pi = smash::pCM(
          sqrts, p.ma, p.mb);
      return g * q * q / (pi * pi) *
             (swapped ? reverse(t, m2, r, m1, sqrts, in, k)
                      : reverse(r, m1, t, m2, sqrts, in, k));
    };
    if (r->is_stable()) return term(r->mass(), t->mass());
    if (t->is_stable())
      return over_mass(r, sqrts - t->mass(), 8,
                       [&](double m) { return term(m, t->mass()); });
    return over_mass(r, sqrts - t->min_mass_kinematic(), 3, [&](double m) {
      return over_mass(t, sqrts - m, 3, [&](double x) { return term(m, x); });
    });
  };
  const double thr = r->min_mass_kinematic() + t->min_mass_kinematic();
  c.note() << "-> " << chosen << " " << fwd << " mb\n";
  if (p.sqrts < thr + 0.1 || fwd < 1e-4) return;
  const double expected = expect(p.sqrts);
  double tol = 1e-8;
  if (!r->is_stable()) {
    // the code interpolates linearly in tables with steps of 20-24 MeV
    const double h = 0.025;
    tol = (t->is_stable() ? 0.01 : 0.03) +
          2e-3 / pow_int(p.sqrts - thr, 2) +
          std::abs(expect(p.sqrts + h) + expect(p.sqrts - h) - 2 * expected) /
              (4 * expected);
  }
  PBT_CLOSE(c, fwd, expected, tol, 1e-5,
            "detailed balance between " << in << " and " << chosen);
  c.nontrivial();
}

// ---------------------------------------------------------------------------
// Parametrizations against reference values (data/P12.ref, recorded from the
// pinned tree with VERIF_RECORD=1)
namespace {
struct Fit {
  const char *name;
  double (*f)(double);
  int arg;  // 0: s, 1: sqrt(s), 2: excess energy
};
const Fit fits[] = {
    {"pp_high_energy", pp_high_energy, 0},
    {"ppbar_high_energy", ppbar_high_energy, 0},
    {"np_high_energy", np_high_energy, 0},
    {"npbar_high_energy", npbar_high_energy, 0},
    {"piplusp_high_energy", piplusp_high_energy, 0},
    {"piminusp_high_energy", piminusp_high_energy, 0},
    {"xs_ppbar_annihilation", xs_ppbar_annihilation, 0},
    {"NN_string_hard", NN_string_hard, 0},
    {"Npi_string_hard", Npi_string_hard, 0},
    {"pipi_string_hard", pipi_string_hard, 0},
    {"pipluspiminus_total", pipluspiminus_total, 1},
    {"pizeropizero_total", pizeropizero_total, 1},
    {"piplusp_total", piplusp_total, 1},
    {"piplusp_elastic", piplusp_elastic, 0},
    {"piplusp_sigmapluskplus_pdg", piplusp_sigmapluskplus_pdg, 0},
    {"piminusp_total", piminusp_total, 1},
    {"piminusp_elastic", piminusp_elastic, 0},
    {"piminusp_lambdak0_pdg", piminusp_lambdak0_pdg, 0},
    {"piminusp_sigmaminuskplus_pdg", piminusp_sigmaminuskplus_pdg, 0},
    {"piminusp_sigma0k0_res", piminusp_sigma0k0_res, 0},
    {"pp_elastic", pp_elastic, 0},
    {"pp_total", pp_total, 0},
    {"np_elastic", np_elastic, 0},
    {"np_total", np_total, 0},
    {"ppbar_elastic", ppbar_elastic, 0},
    {"ppbar_total", ppbar_total, 0},
    {"deuteron_pion_elastic", deuteron_pion_elastic, 0},
    {"deuteron_nucleon_elastic", deuteron_nucleon_elastic, 0},
    {"kplusp_total", kplusp_total, 0},
    {"kplusn_total", kplusn_total, 0},
    {"kminusn_total", kminusn_total, 0},
    {"kminusp_total", kminusp_total, 0},
    {"kplusp_elastic_background", kplusp_elastic_background, 0},
    {"kplusn_elastic_background", kplusn_elastic_background, 0},
    {"kplusn_k0p", kplusn_k0p, 0},
    {"kminusp_elastic_background", kminusp_elastic_background, 0},
    {"kminusn_elastic_background", kminusn_elastic_background, 0},
    {"k0p_elastic_background", k0p_elastic_background, 0},
    {"k0n_elastic_background", k0n_elastic_background, 0},
    {"kbar0p_elastic_background", kbar0p_elastic_background, 0},
    {"kbar0n_elastic_background", kbar0n_elastic_background, 0},
    {"kplusp_inelastic_background", kplusp_inelastic_background, 0},
    {"kplusn_inelastic_background", kplusn_inelastic_background, 0},
    {"kminusp_kbar0n", kminusp_kbar0n, 0},
    {"kminusp_piminussigmaplus", kminusp_piminussigmaplus, 1},
    {"kminusp_piplussigmaminus", kminusp_piplussigmaminus, 1},
    {"kminusp_pi0sigma0", kminusp_pi0sigma0, 1},
    {"kminusp_pi0lambda", kminusp_pi0lambda, 1},
    {"kminusn_piminussigma0", kminusn_piminussigma0, 1},
    {"kminusn_piminuslambda", kminusn_piminuslambda, 1},
    {"lambdasigmaplus_xi0p", lambdasigmaplus_xi0p, 2},
    {"lambdasigmaminus_ximinusn", lambdasigmaminus_ximinusn, 2},
    {"lambdasigma0_ximinusp", lambdasigma0_ximinusp, 2},
    {"lambdasigma0_xi0n", lambdasigma0_xi0n, 2},
    {"sigma0sigma0_ximinusp", sigma0sigma0_ximinusp, 2},
    {"sigma0sigma0_xi0n", sigma0sigma0_xi0n, 2},
    {"sigmaplussigmaminus_xi0p", sigmaplussigmaminus_xi0p, 2},
    {"sigma0sigmaminus_ximinusn", sigma0sigmaminus_ximinusn, 2},
    {"sigmaplussigmaminus_ximinusp", sigmaplussigmaminus_ximinusp, 2},
    {"sigmaplussigmaminus_xi0n", sigmaplussigmaminus_xi0n, 2},
};
const char *const ref_species[] = {
    "211",   "-211", "111",  "2212", "2112", "-2212", "-2112",
    "321",   "311",  "-321", "-311", "3122", "3222",  "3212",
    "3112",  "3312", "3334", "2224", "1114", "221",   "113",
    "-3122", "411",  "4122", "1000010020", "-1000010020", "1000010030"};
// NaN below the threshold, where some of them throw
double value(const Fit &f, double x) {
  try {
    return f.f(x);
  } catch (std::exception &) {
    return NAN;
  }
}
constexpr int n_fit = 160, n_pair = 14;
double fit_energy(int arg, int i) {
  if (arg == 2) return 1e-3 * std::pow(4000., i / (n_fit - 1.));
  const double sqrts = 1.09 + 1e-3 * std::pow(2e4, i / (n_fit - 1.));
  return arg == 1 ? sqrts : sqrts * sqrts;
}
Pair ref_pair(size_t a, size_t b, int i) {
  Pair p;
  p.a = &ParticleType::find(PdgCode(ref_species[a]));
  p.b = &ParticleType::find(PdgCode(ref_species[b]));
  p.ma = p.a->mass();
  p.mb = p.b->mass();
  p.sqrts = p.ma + p.mb + 5e-3 * std::pow(1200., i / (n_pair - 1.));
  return p;
}
Channels ref_channels(const Pair &p) {
  Knobs k;
  k.p.two_to_one = false;
  k.p.nnbar = NNbarTreatment::TwoToFive;
  k.p.multi.set();
  k.p.two_to_two.set(IncludedReactions::NN_to_NR, false);
  k.p.two_to_two.set(IncludedReactions::NN_to_DR, false);
  k.p.two_to_two.set(IncludedReactions::PiDeuteron_to_pidprime, false);
  k.p.two_to_two.set(IncludedReactions::NDeuteron_to_Ndprime, false);
  const Outcome o = react(p, k);
  Channels r = o.all;
  const auto fp = k.make();
  const CrossSections xs({p.pa(), p.pb()}, p.sqrts, {});
  r["total"] = xs.parametrized_total(fp);
  r["high energy"] = xs.high_energy(fp);
  return r;
}
std::map<std::string, std::vector<double>> &reference() {
  static std::map<std::string, std::vector<double>> r;
  return r;
}
std::string ref_file() {
  std::string f = __FILE__;
  return f.substr(0, f.rfind('/')) + "/../data/P12.ref";
}
std::string pair_key(size_t a, size_t b, int i) {
  return pbt::Fmt() << ref_species[a] << "," << ref_species[b] << "," << i;
}
void load_reference() {
  constexpr size_t ns = std::size(ref_species);
  if (std::getenv("VERIF_RECORD")) {
    std::ofstream out(ref_file());
    out << std::setprecision(9);
    for (const Fit &f : fits) {
      out << f.name << "\t";
      for (int i = 0; i < n_fit; i++) out << value(f, fit_energy(f.arg, i)) << " ";
      out << "\n";
    }
    for (size_t a = 0; a < ns; a++)
      for (size_t b = 0; b <= a; b++)
        for (int i = 0; i < n_pair; i++)
          for (auto &e : ref_channels(ref_pair(a, b, i)))
            out << pair_key(a, b, i) << ":" << e.first << "\t" << e.second
                << "\n";
  }
  std::ifstream in(ref_file());
  for (std::string line; std::getline(in, line);) {
    const size_t tab = line.find('\t');
    std::istringstream v(line.substr(tab));
    auto &l = reference()[line.substr(0, tab)];
    for (std::string x; v >> x;) l.push_back(std::stod(x));
  }
}
}  // namespace

PBT_PROP(fitted, 3000, 12000) {
  const Fit &f = fits[c.below(std::size(fits))];
  const auto &r = reference().at(f.name);
  const int i = c.below(n_fit);
  const double x = fit_energy(f.arg, i), y = value(f, x);
  PBT_CLOSE(c, y, r.at(i), 1e-6, 1e-9,
            f.name << "(" << x << ") and its reference value");
  c.nontrivial(y != 0.);
}

PBT_PROP(elementary, 3000, 20000) {
  const size_t a = c.below(std::size(ref_species)), b = c.below(a + 1);
  const int i = c.below(n_pair);
  const Pair p = ref_pair(a, b, i);
  c.note() << p.a->name() << " " << p.b->name() << " at " << p.sqrts << "\n";
  const std::string prefix = pair_key(a, b, i) + ":";
  Channels expect;
  for (auto it = reference().lower_bound(prefix);
       it != reference().end() && it->first.rfind(prefix, 0) == 0; ++it)
    expect[it->first.substr(prefix.size())] = it->second.at(0);
  same(c, ref_channels(p), expect, 1e-5, "reference");
  c.nontrivial(expect.size() > 3);
}

PBT_MAIN
