// P08: mass-dependent widths, spectral functions and resonance masses.
#include <map>
#include <set>

#include "ref.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/distributions.h"
#include "smash/formfactors.h"
#include "smash/kinematics.h"
#include "smash/potential_globals.h"
#include "smashkit.h"

using namespace smash;

namespace {
std::vector<ParticleTypePtr> &resonances() {
  static std::vector<ParticleTypePtr> r;
  return r;
}

// Blatt-Weisskopf barrier from spherical Hankel functions:
// B_L^2 = 1 / (x^2 |h_L(x)|^2), with the interaction radius 1 fm
long double barrier(long double p, int l) {
  const long double x = p / 0.197327053L;
  if (l == 0) return 1;
  if (x == 0) return 0;
  // x |h_l| squared, by the finite sum: |sum_k i^k (l+k)!/(k!(l-k)!(2x)^k)|^2
  long double re = 0, im = 0;
  for (int k = 0; k <= l; k++) {
    const long double t = ref::fact(l + k) / ref::fact(k) / ref::fact(l - k) /
                          powl(2 * x, k);
    switch (k % 4) {
      case 0:
        re += t;
        break;
      case 1:
        im += t;
        break;
      case 2:
        re -= t;
        break;
      default:
        im -= t;
    }
  }
  return 1 / (re * re + im * im);
}
long double mom(long double s, long double a, long double b) {
  if (s <= a + b) return 0;
  return sqrtl((s - a - b) * (s + a + b) * (s - a + b) * (s + a - b)) /
         (2 * s);
}
long double post(long double m, long double m0, long double thr,
                 long double lam) {
  const long double l4 = lam * lam * lam * lam, s0 = thr * thr, M2 = m0 * m0;
  const long double a = (s0 - M2) / 2, b = m * m - (s0 + M2) / 2;
  const long double f = (l4 + a * a) / (l4 + b * b);
  return f * f;
}
double cutoff(const ParticleTypePtrList &t) {
  if (!t[0]->is_stable() && !t[1]->is_stable()) return 0.6;
  const auto &u = t[0]->is_stable() ? t[1] : t[0];
  const auto &s = t[0]->is_stable() ? t[0] : t[1];
  if (u->baryon_number() != 0) return 2.;
  if (u->pdgcode().is_rho() && s->pdgcode().is_pion()) return 0.8;
  return 1.6;
}
// integration nodes in mass and A(m) weights of a species, over tan-mapped
// masses from its lowest to its highest possible mass
struct Nodes {
  std::vector<long double> m, w;
};
Nodes nodes(const ParticleType &t, long double hi, int panels) {
  Nodes n;
  const long double lo = t.min_mass_kinematic(), m0 = t.mass(),
                    g = t.width_at_pole();
  if (hi <= lo) return n;
  // break points: the ends, the thresholds, and multiples of the width away
  // from the pole
  std::set<long double> br = {lo, hi, m0};
  for (const auto &b : t.decay_modes().decay_mode_list())
    br.insert(b->threshold());
  br.insert(t.min_mass_spectral());
  for (long double k = 0.5L; k * g < hi + m0; k *= 3) {
    br.insert(m0 - k * g);
    br.insert(m0 + k * g);
  }
  std::vector<long double> x;
  for (auto b : br)
    if (b >= lo && b <= hi && (x.empty() || b > x.back() + 1e-12L))
      x.push_back(b);
  for (size_t i = 1; i < x.size(); i++)
    for (int p = 0; p < panels; p++) {
      static const long double x8[4] = {
          0.1834346424956498049394761L, 0.5255324099163289858177390L,
          0.7966664774136267395915539L, 0.9602898564975362316835609L};
      static const long double w8[4] = {
          0.3626837833783619829651504L, 0.3137066458778872873379622L,
          0.2223810344533744705443560L, 0.1012285362903762591525314L};
      const long double hw = (x[i] - x[i - 1]) / panels / 2,
                        mid = x[i - 1] + (2 * p + 1) * hw;
      for (int k = 0; k < 4; k++)
        for (int s = -1; s < 2; s += 2) {
          const long double m = mid + s * hw * x8[k];
          n.m.push_back(m);
          n.w.push_back(w8[k] * hw *
                        static_cast<long double>(
                            t.spectral_function(static_cast<double>(m))));
        }
    }
  return n;
}
// phase space of Manley and Saleski
long double rho(const ParticleTypePtrList &t, int l, long double s) {
  const bool s0 = t[0]->is_stable(), s1 = t[1]->is_stable();
  if (s0 && s1) {
    const long double p = mom(s, t[0]->mass(), t[1]->mass());
    return p / s * barrier(p, l);
  }
  long double r = 0;
  if (s0 || s1) {
    const auto &u = s0 ? t[1] : t[0];
    const long double ms = (s0 ? t[0] : t[1])->mass();
    const Nodes n = nodes(*u, s - ms, 3);
    for (size_t i = 0; i < n.m.size(); i++) {
      const long double p = mom(s, n.m[i], ms);
      r += n.w[i] * p / s * barrier(p, l);
    }
    return r;
  }
  const Nodes n = nodes(*t[0], s - t[1]->min_mass_kinematic(), 1);
  const Nodes q = nodes(*t[1], s - t[0]->min_mass_kinematic(), 1);
  for (size_t i = 0; i < n.m.size(); i++)
    for (size_t j = 0; j < q.m.size(); j++) {
      const long double p = mom(s, n.m[i], q.m[j]);
      if (p > 0) r += n.w[i] * q.w[j] * p / s * barrier(p, l);
    }
  return r;
}
double thr_of(const ParticleTypePtrList &t) {
  double s = 0;
  for (auto p : t) s += p->min_mass_kinematic();
  return s;
}
double spectral_thr(const ParticleTypePtrList &t) {
  double s = 0;
  for (auto p : t) s += p->min_mass_spectral();
  return s;
}
ParticleTypePtr resonance(pbt::Case &c) { return c.pick(resonances()); }

// a mass at, below or above the thresholds
double some_mass(pbt::Case &c, const ParticleType &t) {
  const double lo = t.min_mass_kinematic();
  switch (c.below(6)) {
    case 0:
      return t.mass();
    case 1:
      return lo * c.unit();
    case 2:
      return lo + c.logreal(1e-6, 0.1);
    case 3: {
      const auto &m = c.pick(t.decay_modes().decay_mode_list());
      return m->threshold() + c.uniform(-1e-3, 0.2);
    }
    default:
      return c.uniform(lo, t.mass() + 10 * t.width_at_pole());
  }
}
const DecayBranch *some_mode(pbt::Case &c, const ParticleType &t) {
  const auto &l = t.decay_modes().decay_mode_list();
  return l[c.below(l.size())].get();
}
}  // namespace

// total = sum of partial, thresholds, pole values, charge conjugation
PBT_PROP(widths_add_up, 4000, 200000) {
  const auto tp = resonance(c);
  const ParticleType &t = *tp;
  const double m = some_mass(c, t);
  const auto &modes = t.decay_modes().decay_mode_list();
  c.note() << t.name() << " at m=" << m;
  double sum = 0., br = 0., hadr = 0., hadr0 = 0.;
  bool closed = true;
  for (const auto &b : modes) {
    const double w = t.partial_width(m, b.get());
    PBT_CHECK(c, std::isfinite(w) && w >= 0., "partial width " << w);
    const double thr = thr_of(b->type().particle_types());
    PBT_CLOSE(c, b->threshold(), thr, 1e-12, 1e-12,
              "threshold is not the sum of the lightest daughters");
    if (m < thr)
      PBT_CHECK(c, w == 0., "width " << w << " below threshold " << thr);
    else
      closed = false;
    if (b->type().particle_number() == 2 && !b->type().is_dilepton_decay()) {
      PBT_CLOSE(c, t.partial_width(t.mass(), b.get()),
                t.mass() < thr ? 0. : t.width_at_pole() * b->weight(), 1e-9, 0.,
                "partial width at the pole is not width times branching");
      // daughters in either order
      auto l = b->type().particle_types();
      const double w1 = t.get_partial_width(m, l);
      std::swap(l[0], l[1]);
      PBT_CLOSE(c, t.get_partial_width(m, l), w1, 1e-14, 0.,
                "width depends on the order of the daughters");
      double same = 0.;
      for (const auto &b2 : modes)
        if (b2->type().has_particles(l)) same += t.partial_width(m, b2.get());
      PBT_CLOSE(c, w1, same, 1e-12, 1e-30,
                "width into given daughters is not the sum of these modes");
      hadr += w;
      hadr0 += t.partial_width(t.mass(), b.get());
    }
    sum += w;
    br += b->weight();
  }
  PBT_CLOSE(c, br, 1., 1e-9, 0., "branching ratios");
  const double tot = t.total_width(m);
  if (sum < ParticleType::width_cutoff * 0.999)
    PBT_CHECK(c, tot == 0., "tiny width is not cut off: " << tot);
  else if (sum > ParticleType::width_cutoff * 1.001)
    PBT_CLOSE(c, tot, sum, 1e-12, 0., "total width is not the sum");
  if (closed) PBT_CHECK(c, tot == 0., "width below every threshold");
  // the list for a moving particle gives the same widths
  const ThreeVector v = kit::momentum3(c);
  const FourVector p(std::sqrt(m * m + v.sqr()), v);
  const double mm = p.abs();
  for (auto wh : {WhichDecaymodes::All, WhichDecaymodes::Hadronic,
                  WhichDecaymodes::Dileptons}) {
    const auto l = t.get_partial_widths(p, {0, 0, 0}, wh);
    size_t n = 0;
    for (const auto &b : modes) {
      const double w = t.partial_width(mm, b.get());
      const bool dil = b->type().is_dilepton_decay();
      if (w <= 0. || (wh == WhichDecaymodes::Hadronic && dil) ||
          (wh == WhichDecaymodes::Dileptons && !dil))
        continue;
      PBT_CHECK(c, n < l.size(), "a decay mode is missing");
      PBT_CHECK(c, &l[n]->type() == &b->type(), "wrong decay mode");
      PBT_CLOSE(c, l[n]->weight(), w, 1e-12, 0., "width of a moving particle");
      n++;
    }
    PBT_CHECK(c, n == l.size(), "superfluous decay modes");
  }
  if (t.has_antiparticle()) {
    const ParticleType &a = *t.get_antiparticle();
    PBT_CLOSE(c, a.total_width(m), tot, 1e-9, 0., "antiparticle's width");
    PBT_CLOSE(c, a.min_mass_kinematic(), t.min_mass_kinematic(), 1e-12, 0.,
              "antiparticle's lowest mass");
  }
  c.nontrivial(tot > 0. && modes.size() > 1);
  c.label("below all thresholds", closed);
}

// two-body widths against the Manley-Saleski formula
PBT_PROP(manley_saleski, 700, 12000) {
  const auto tp = resonance(c);
  const ParticleType &t = *tp;
  const DecayBranch *b = some_mode(c, t);
  const auto &types = b->type().particle_types();
  if (types.size() != 2 || b->type().is_dilepton_decay()) c.discard();
  const int l = b->type().angular_momentum();
  const double thr = thr_of(types), m0 = t.mass();
  double step = 0., reach = 2.;
  for (auto p : types)
    if (!p->is_stable()) {
      step += 10. * p->width_at_pole();
    }
  reach = std::max(2., step);
  step = types[0]->is_stable() && types[1]->is_stable() ? 0. : reach / 180.;
  const double m = thr + (c.flip() ? c.uniform(0.02, 1.) * reach * 0.97
                                   : c.logreal(1e-4, 1.) * 0.97 * reach);
  c.note() << t.name() << " -> " << types[0]->name() << " " << types[1]->name()
           << " L=" << l << " m=" << m;
  if (m0 <= thr + 1e-6 || m0 > thr + reach * 0.97) c.discard();
  const long double r = rho(types, l, m), r0 = rho(types, l, m0);
  double tol = 2e-9;
  if (step > 0.) {
    // linear interpolation between table points
    const double d = static_cast<double>(
        std::max(fabsl(rho(types, l, m + step) - r),
                 m - step > thr ? fabsl(r - rho(types, l, m - step)) : r));
    const double d0 = static_cast<double>(
        std::max(fabsl(rho(types, l, m0 + step) - r0),
                 m0 - step > thr ? fabsl(r0 - rho(types, l, m0 - step)) : r0));
    tol = 0.5 * d / static_cast<double>(r) + 0.5 * d0 / static_cast<double>(r0);
    tol += types[0]->is_stable() || types[1]->is_stable() ? 0.01 : 0.03;
    if (!(tol <= 0.6)) c.discard();
  }
  long double want = t.width_at_pole() * b->weight() * r / r0;
  if (step > 0.) want *= post(m, m0, spectral_thr(types), cutoff(types));
  PBT_CLOSE(c, t.partial_width(m, b), static_cast<double>(want), tol, 0.,
            "width differs from the Manley-Saleski formula");
  c.nontrivial(step > 0. || l > 0);
  c.label("both stable", step == 0.);
  c.label("one unstable",
          types[0]->is_stable() != types[1]->is_stable());
  c.label("two unstable", !types[0]->is_stable() && !types[1]->is_stable());
  // production from daughters of given masses
  ParticleData a{*types[0]}, d{*types[1]};
  double ms[2];
  for (int i = 0; i < 2; i++) {
    ms[i] = types[i]->mass();
    if (!types[i]->is_stable())
      ms[i] = c.uniform(types[i]->min_mass_kinematic(),
                        types[i]->mass() + types[i]->width_at_pole());
  }
  a.set_4momentum(ms[0], kit::momentum3(c));
  d.set_4momentum(ms[1], kit::momentum3(c));
  if (m <= ms[0] + ms[1]) return;
  double in = 0.;
  int same = 0;
  for (const auto &b2 : t.decay_modes().decay_mode_list())
    if (b2->type().has_particles({types[0], types[1]})) same++;
  if (same != 1) return;
  const long double p = mom(m, ms[0], ms[1]);
  const double got = t.get_partial_in_width(m, a, d);
  PBT_CLOSE(c, t.get_partial_in_width(m, d, a), got, 1e-9, 0.,
            "in-width depends on the order of the daughters");
  if (step == 0.) {
    in = static_cast<double>(want);
    PBT_CLOSE(c, got, in, 1e-8, 0., "in-width of stable daughters");
  } else {
    in = static_cast<double>(t.width_at_pole() * b->weight() * p *
                             barrier(p, l) / m / r0 *
                             post(m, m0, spectral_thr(types), cutoff(types)));
    PBT_CLOSE(c, got, in, tol, 0., "in-width of off-shell daughters");
  }
}

// barrier factors
PBT_PROP(barrier_factors, 4000, 200000) {
  const int l = static_cast<int>(c.below(7));
  const double p = c.flip() ? c.uniform(0., 3.) : c.logreal(1e-3, 30.);
  c.note() << "L=" << l << " p=" << p;
  const double b = blatt_weisskopf_sqr(p, l);
  PBT_CLOSE(c, b, static_cast<double>(barrier(p, l)), 1e-6, 0.,
            "Blatt-Weisskopf factor");
  PBT_CHECK(c, b >= 0. && b <= 1. + 1e-12, "barrier outside [0,1]: " << b);
  const double m0 = c.uniform(0.3, 3.), thr = c.uniform(0.1, m0),
               lam = c.uniform(0.3, 3.), m = c.uniform(thr, 5.);
  PBT_CLOSE(c, post_ff_sqr(m, m0, thr, lam),
            static_cast<double>(post(m, m0, thr, lam)), 1e-10, 0.,
            "Post form factor");
  PBT_CLOSE(c, post_ff_sqr(m0, m0, thr, lam), 1., 1e-12, 0.,
            "Post form factor at the pole");
  c.nontrivial(l > 1);
}

// spectral functions
PBT_PROP(spectral_functions, 600, 20000) {
  const auto tp = resonance(c);
  const ParticleType &t = *tp;
  const double m = some_mass(c, t);
  c.note() << t.name() << " m=" << m;
  const double a = t.spectral_function(m);
  PBT_CHECK(c, std::isfinite(a) && a >= 0., "spectral function " << a);
  const double g = t.total_width(m), m0 = t.mass();
  const double bw =
      g > 0. ? 2 * m * m * g /
                   (M_PI * (std::pow(m * m - m0 * m0, 2) + m * m * g * g))
             : 0.;
  PBT_CLOSE(c, t.spectral_function_no_norm(m), bw, 1e-9, 0., "Breit-Wigner");
  const double g0 = t.width_at_pole();
  PBT_CLOSE(c, t.spectral_function_const_width(m),
            2 * m * m * g0 /
                (M_PI * (std::pow(m * m - m0 * m0, 2) + m * m * g0 * g0)),
            1e-9, 0., "Breit-Wigner of constant width");
  PBT_CLOSE(c, t.spectral_function_simple(m),
            g0 / 2 / M_PI / ((m - m0) * (m - m0) + g0 * g0 / 4), 1e-9, 0.,
            "non-relativistic Breit-Wigner");
  PBT_CHECK(c, t.min_mass_spectral() >= t.min_mass_kinematic() - 1e-12,
            "spectral minimum below kinematic minimum");
  PBT_CHECK(c, t.min_mass_spectral() <= t.mass(), "minimum above the pole");
  double lowest = t.mass();
  for (const auto &b : t.decay_modes().decay_mode_list())
    lowest = std::min(lowest, thr_of(b->type().particle_types()));
  PBT_CLOSE(c, t.min_mass_kinematic(), lowest, 1e-12, 0.,
            "kinematic minimum is not the lowest threshold");
  if (m < t.min_mass_spectral() - 2e-6)
    PBT_CHECK(c, a < 1e-6, "spectral function " << a
                                                << " below its minimum mass");
  PBT_CHECK(c, t.spectral_function(t.min_mass_spectral()) > 0.,
            "spectral function vanishes at its minimum mass");
  c.nontrivial(a > 0.);
  if (c.below(4) == 0) {
    // normalisation; the tail goes with dm/m^2 or faster
    const Nodes n = nodes(t, m0 + 1e6 * (g0 + 1.), 3);
    long double s = 0;
    for (auto w : n.w) s += w;
    PBT_CLOSE(c, static_cast<double>(s), 1., 0.01, 0.,
              "spectral function is not normalised");
    c.label("normalisation");
  }
}

namespace {
// Kolmogorov-Smirnov distance of samples in [lo, hi] from a density
double ks(std::vector<double> x, double lo, double hi,
          const std::function<double(double)> &f) {
  std::sort(x.begin(), x.end());
  const int n = 4000;
  std::vector<double> g(n + 1), cdf(n + 1, 0.);
  // Cauchy-like densities: nodes dense where samples are
  for (int i = 0; i <= n; i++) g[i] = lo + (hi - lo) * i / n;
  for (int i = 1; i <= n; i++) {
    const double h = g[i] - g[i - 1];
    cdf[i] = cdf[i - 1] + h / 6 * (f(g[i - 1]) + 4 * f(g[i - 1] + h / 2) +
                                   f(g[i]));
  }
  double d = 0;
  size_t k = 0;
  for (int i = 0; i <= n; i++) {
    while (k < x.size() && x[k] <= g[i]) k++;
    d = std::max(d, std::fabs(static_cast<double>(k) /
                                  static_cast<double>(x.size()) -
                              cdf[i] / cdf[n]));
  }
  return d;
}
}  // namespace

// sampled masses: always kinematically allowed
PBT_PROP_OPT(sampled_masses, 300, 30000, 60, false) {
  const auto tp = resonance(c);
  const ParticleType &t = *tp;
  const auto &all = kit::hadrons();
  ParticleTypePtr up = all[c.below(all.size())];
  if (!up->is_stable()) up = resonance(c);
  const ParticleType &u = *up;
  const int l = static_cast<int>(c.below(u.is_stable() ? 3 : 2));
  kit::seed(c.seed32());
  // rejection sampling of two broad species gets inefficient at threshold
  const double e = u.is_stable() && c.flip() ? c.logreal(1e-3, 0.1)
                   : u.is_stable()           ? c.uniform(0.01, 3.)
                                             : c.uniform(0.4, 3.);
  c.note() << t.name() << " with " << u.name() << " excess energy " << e
           << " L=" << l;
  if (u.is_stable()) {
    const double s = t.min_mass_spectral() + u.mass() + e;
    for (int i = 0; i < 20; i++) {
      const double m = t.sample_resonance_mass(u.mass(), s, l);
      PBT_CHECK(c, m >= t.min_mass_spectral() && m < s - u.mass(),
                "mass " << m << " outside its range");
      PBT_CHECK(c, pCM(s, m, u.mass()) > 0., "no momentum left");
    }
    c.label("one resonance");
  } else {
    const double s = t.min_mass_spectral() + u.min_mass_spectral() + e;
    for (int i = 0; i < 20; i++) {
      const auto m = t.sample_resonance_masses(u, s, l);
      PBT_CHECK(c,
                m.first >= t.min_mass_spectral() &&
                    m.second >= u.min_mass_spectral(),
                "mass below minimum");
      PBT_CHECK(c, m.first + m.second < s,
                "masses " << m.first << "+" << m.second << " exceed " << s);
    }
    c.label("two resonances");
  }
  c.nontrivial();
}

// ... and distributed like A(m) p B_L^2(p)
PBT_PROP_OPT(mass_distribution, 60, 1500, 60, false) {
  const auto tp = resonance(c);
  const ParticleType &t = *tp;
  const double ms = c.one_of({0.138, 0.494, 0.938});
  const int l = static_cast<int>(c.below(3));
  kit::seed(c.seed32());
  const double s = std::max(t.mass() - 2 * t.width_at_pole(),
                            t.min_mass_spectral() + 0.02) +
                   ms + c.uniform(0., 4 * t.width_at_pole() + 0.3);
  const double lo = t.min_mass_spectral(), hi = s - ms;
  c.note() << t.name() << " with " << ms << " at sqrt(s)=" << s << " L=" << l;
  if ((hi - lo) / 4000. > t.width_at_pole() / 10.) c.discard();
  // let the maximum of the rejection method settle
  for (int i = 0; i < 1500; i++) t.sample_resonance_mass(ms, s, l);
  std::vector<double> x;
  const int n = 4000;
  for (int i = 0; i < n; i++) x.push_back(t.sample_resonance_mass(ms, s, l));
  const double d = ks(x, lo, hi, [&](double m) {
    const double p = static_cast<double>(mom(s, m, ms));
    return t.spectral_function(m) * p * static_cast<double>(barrier(p, l));
  });
  // P(D > 3.4/sqrt(n)) < 2e-10
  PBT_CHECK(c, d < 3.4 / std::sqrt(n) + 0.005,
            "masses are not distributed like A(m) p B^2: KS distance " << d);
  c.nontrivial();
}

// possible resonances of a pair: exactly those that decay into it
PBT_PROP(possible_resonances, 3000, 100000) {
  ParticleTypePtr a, b;
  const auto had = kit::hadrons();
  if (c.flip()) {
    const auto tp = resonance(c);
    const auto &l = some_mode(c, *tp)->type().particle_types();
    a = l[0];
    b = l[1];
    if (c.flip()) std::swap(a, b);
  } else {
    a = had[c.below(had.size())];
    b = had[c.below(had.size())];
  }
  c.note() << a->name() << " + " << b->name();
  const auto got = list_possible_resonances(a, b);
  std::set<std::string> want, have;
  for (const ParticleType &rt : ParticleType::list_all()) {
    const ParticleTypePtr t = &rt;
    if (t == a || t == b || t->is_stable()) continue;
    for (const auto &m : t->decay_modes().decay_mode_list()) {
      const auto &p = m->type().particle_types();
      if (p.size() == 2 &&
          ((p[0] == a && p[1] == b) || (p[0] == b && p[1] == a)))
        want.insert(t->name());
    }
  }
  for (auto t : got) {
    PBT_CHECK(c, have.insert(t->name()).second, "listed twice: " << t->name());
    PBT_CHECK(c,
              t->charge() == a->charge() + b->charge() &&
                  t->baryon_number() == a->baryon_number() + b->baryon_number(),
              "charge or baryon number of " << t->name());
  }
  std::string ws, hs;
  for (auto &s : want) ws += s + " ";
  for (auto &s : have) hs += s + " ";
  PBT_CHECK(c, want == have, "possible: " << ws << "; listed: " << hs);
  PBT_CHECK(c, list_possible_resonances(b, a) == got, "order of the pair");
  c.nontrivial(!want.empty());
}

namespace pbt {
void setup() {
  kit::load_default();
  resonances() = kit::resonances();
}
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN
