// P19: random numbers and sampled distributions.
#include <map>

#include "ref.h"
#include "smash/chemicalpotential.h"
#include "smash/constants.h"
#include "smash/distributions.h"
#include "smash/quantumsampling.h"
#include "smash/random.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;

namespace {
template <typename F>
std::vector<double> draw(size_t n, F f) {
  std::vector<double> v(n);
  for (double &x : v) x = f();
  return v;
}
void same_distribution(pbt::Case &c, const std::vector<double> &v, double lo,
                       double hi, const std::function<double(double)> &cdf,
                       double slack, const char *what) {
  for (double x : v)
    PBT_CHECK(c, x >= lo && x <= hi,
              what << ": " << x << " is outside of [" << lo << ", " << hi
                   << "]");
  const double d = stat_::ks(v, cdf);
  PBT_CHECK(c, d < stat_::ks_limit(v.size()) + slack,
            what << " does not have the stated distribution: KS distance " << d
                 << " with " << v.size() << " samples");
}
void same_counts(pbt::Case &c, const std::map<int, size_t> &seen, size_t n,
                 const std::function<double(int)> &pmf, int lo, int hi,
                 const char *what) {
  for (const auto &e : seen)
    PBT_CHECK(c, e.first >= lo && e.first <= hi,
              what << ": impossible value " << e.first);
  for (int k = lo; k <= hi; k++) {
    const auto it = seen.find(k);
    const double o = it == seen.end() ? 0. : static_cast<double>(it->second);
    const double s = stat_::count_surprise(o, static_cast<double>(n), pmf(k));
    PBT_CHECK(c, s < stat_::kSurprise,
              what << ": value " << k << " came " << o << " times of " << n
                   << ", expected " << pmf(k) * static_cast<double>(n));
  }
}
double logfact(int n) { return std::lgamma(n + 1.); }
}  // namespace

PBT_PROP(uniform, 120, 600) {
  kit::seed(c.seed32());
  const size_t n = 20000;
  switch (c.below(5)) {
    case 0: {
      const double a = c.uniform(-50., 50.), w = c.logreal(1e-6, 100.);
      const double b = a + w;
      auto cdf = [=](double x) { return (x - a) / w; };
      if (c.flip()) {
        same_distribution(
            c, draw(n, [=]() { return random::uniform(a, b); }), a, b, cdf, 0.,
            "uniform");
      } else {
        auto d = random::make_uniform_distribution(a, b);
        same_distribution(c, draw(n, [&]() { return d(); }), a, b, cdf, 0.,
                          "uniform_dist");
      }
      c.label("uniform");
      break;
    }
    case 1: {
      const int lo = static_cast<int>(c.range(-20, 20));
      const int hi = lo + static_cast<int>(c.below(30));
      std::map<int, size_t> seen;
      for (size_t i = 0; i < n; i++) seen[random::uniform_int(lo, hi)]++;
      same_counts(
          c, seen, n, [=](int) { return 1. / (hi - lo + 1); }, lo, hi,
          "uniform_int");
      c.label("uniform_int");
      break;
    }
    case 2: {
      auto v = draw(n, []() { return random::canonical(); });
      same_distribution(c, v, 0., std::nextafter(1., 0.),
                        [](double x) { return x; }, 0., "canonical");
      // no visible correlation between successive numbers
      double s = 0;
      for (size_t i = 1; i < n; i++) s += (v[i] - .5) * (v[i - 1] - .5);
      PBT_CHECK(c, std::abs(s) * 12 / std::sqrt(static_cast<double>(n)) < 6.5,
                "successive numbers are correlated");
      c.label("canonical");
      break;
    }
    case 3: {
      same_distribution(
          c, draw(n, []() { return random::canonical_nonzero(); }),
          std::numeric_limits<double>::denorm_min(), 1.,
          [](double x) { return x; }, 0., "canonical_nonzero");
      c.label("canonical_nonzero");
      break;
    }
    case 4: {
      // the sequence is a function of the seed
      const int64_t s1 = static_cast<int64_t>(c.seed32()) << c.below(30);
      const int64_t s2 = s1 ^ (static_cast<int64_t>(1) << c.below(62));
      auto run = [](int64_t s) {
        random::set_seed(s);
        std::vector<double> v;
        for (int i = 0; i < 20; i++) {
          v.push_back(random::canonical());
          v.push_back(static_cast<double>(random::advance()));
          v.push_back(random::normal(0., 1.));
          v.push_back(random::poisson(3.));
        }
        return v;
      };
      const auto a = run(s1), b = run(s2), d = run(s1);
      PBT_CHECK(c, a == d, "same seed, different numbers");
      PBT_CHECK(c, a != b, "different seeds, same numbers");
      for (int i = 0; i < 50; i++)
        PBT_CHECK(c, random::generate_63bit_seed() >= 0,
                  "seed is not a positive 63 bit number");
      c.label("seeds");
    }
  }
  c.nontrivial(true);
}

PBT_PROP(continuous, 300, 1500) {
  kit::seed(c.seed32());
  const size_t n = 20000;
  const double inf = std::numeric_limits<double>::infinity();
  switch (c.below(7)) {
    case 0: {
      const double l = c.logreal(1e-3, 1e3);
      same_distribution(
          c, draw(n, [=]() { return random::exponential(l); }), 0., inf,
          [=](double x) { return -std::expm1(-l * x); }, 0., "exponential");
      c.label("exponential");
      break;
    }
    case 1: {
      // exp(A x) between x2 and x1 >= x2
      const double A = c.logreal(1e-2, 50.);
      const double x1 = std::max(c.uniform(-20., 5.), -650. / A);
      const double x2 = x1 - c.logreal(1e-3, 100.);
      c.note() << "A=" << A << " x1=" << x1 << " x2=" << x2;
      same_distribution(
          c, draw(n, [=]() { return random::expo(A, x1, x2); }), x2, x1,
          [=](double x) {
            return (std::exp(A * (x - x1)) - std::exp(A * (x2 - x1))) /
                   -std::expm1(A * (x2 - x1));
          },
          0., "expo");
      c.label("expo");
      break;
    }
    case 2: {
      const double p = c.below(5) == 0 ? -1. : c.uniform(-4., 4.);
      double a = c.logreal(1e-2, 10.), b = a * (1. + c.logreal(1e-2, 100.));
      if (p > -0.5 && c.below(4) == 0) a = 0.;
      const bool neg = a > 0. && c.below(3) == 0 && std::abs(p + 1) >= 1e-3;
      c.note() << "n=" << p << " [" << a << ", " << b << "]" << neg;
      auto F = [=](double x) {
        return std::abs(p + 1) < 1e-3 ? std::log(x) : std::pow(x, p + 1);
      };
      std::vector<double> v =
          neg ? draw(n, [=]() { return -random::power(p, -a, -b); })
              : draw(n, [=]() { return random::power(p, a, b); });
      for (double &x : v) {
        PBT_CHECK(c, x >= a * (1 - 1e-9) && x <= b * (1 + 1e-9),
                  "power: " << x << " is out of range");
        x = std::max(a, std::min(b, x));
      }
      const double Fa = a > 0 ? F(a) : 0.;
      same_distribution(
          c, v, a, b,
          [=](double x) { return ((x > 0 ? F(x) : 0.) - Fa) / (F(b) - Fa); },
          0.003, "power");
      c.label(neg ? "power, negative" : "power");
      break;
    }
    case 3: {
      const double pole = c.uniform(-1., 3.), w = c.logreal(1e-4, 2.);
      const double a = pole + c.uniform(-3., 2.), b = a + c.logreal(1e-2, 5.);
      c.note() << "pole=" << pole << " width=" << w << " [" << a << ", " << b
               << "]";
      auto v = draw(n, [=]() { return random::cauchy(pole, w, a, b); });
      for (double &x : v) {
        PBT_CHECK(c, x >= a - 1e-6 * (1 + w) && x <= b + 1e-6 * (1 + w),
                  "cauchy: " << x << " is out of range");
        x = std::max(a, std::min(b, x));
      }
      const double ua = std::atan((a - pole) / w), ub = std::atan((b - pole) / w);
      same_distribution(
          c, v, a, b,
          [=](double x) { return (std::atan((x - pole) / w) - ua) / (ub - ua); },
          1e-3, "cauchy");
      c.label("cauchy");
      break;
    }
    case 4: {
      const double a = c.uniform(0.3, 5.), b = c.uniform(0.3, 5.);
      c.note() << "a=" << a << " b=" << b;
      // substitution that removes the endpoint singularities
      stat_::Cdf F(
          [=](double t) {
            const double s = std::sin(t), k = std::cos(t);
            return std::pow(s, 2 * a - 1) * std::pow(k, 2 * b - 1);
          },
          0., M_PI / 2, 8000);
      same_distribution(
          c, draw(n, [=]() { return random::beta(a, b); }), 0., 1.,
          [&](double x) { return F(std::asin(std::sqrt(x))); }, 0.005, "beta");
      c.label("beta");
      break;
    }
    case 5: {
      const double xmin = c.logreal(1e-4, 0.7), b = c.uniform(0.2, 6.);
      c.note() << "xmin=" << xmin << " b=" << b;
      stat_::Cdf F([=](double y) { return std::pow(-std::expm1(-y), b); }, 0.,
                   -std::log(xmin), 8000);
      auto v = draw(10000, [=]() { return random::beta_a0(xmin, b); });
      for (double x : v)
        PBT_CHECK(c, x >= xmin * (1 - 1e-12) && x <= 1., "beta_a0 " << x);
      same_distribution(
          c, v, 0., 1., [&](double x) { return 1 - F(-std::log(x)); }, 0.005,
          "beta_a0");
      c.label("beta_a0");
      break;
    }
    case 6: {
      const double m = c.uniform(-5., 5.), s = c.logreal(1e-3, 10.);
      same_distribution(
          c, draw(n, [=]() { return random::normal(m, s); }), -inf, inf,
          [=](double x) { return 0.5 * std::erfc(-(x - m) / s / M_SQRT2); }, 0.,
          "normal");
      c.label("normal");
    }
  }
  c.nontrivial(true);
}

PBT_PROP(discrete, 200, 1000) {
  kit::seed(c.seed32());
  const size_t n = 20000;
  std::map<int, size_t> seen;
  switch (c.below(3)) {
    case 0: {
      auto weights = [&]() {
        const size_t k = c.count(1, 12);
        std::vector<double> w(k);
        for (double &x : w)
          x = c.below(4) == 0 ? 0. : c.logreal(1e-3, 1.) * 100;
        w[c.below(k)] = 1. + 10 * c.unit();
        return w;
      };
      std::vector<double> w = weights();
      random::discrete_dist<double> d(w);
      if (c.flip()) {
        w = weights();
        d.reset_weights(w);
        c.label("reset");
      }
      double sum = 0;
      for (double x : w) sum += x;
      for (size_t i = 0; i < n; i++) seen[d()]++;
      same_counts(
          c, seen, n,
          [&](int k) {
            // the only one possible (up to rounding of the sum)
            const double p = w[static_cast<size_t>(k)] / sum;
            return p > 1 - 1e-12 ? 1. : p;
          },
          0, static_cast<int>(w.size()) - 1, "discrete_dist");
      c.nontrivial(w.size() > 1);
      c.label("discrete_dist");
      break;
    }
    case 1: {
      const double l = c.logreal(1e-2, 60.);
      c.note() << "lambda=" << l;
      for (size_t i = 0; i < n; i++) seen[random::poisson(l)]++;
      same_counts(
          c, seen, n,
          [=](int k) { return std::exp(k * std::log(l) - l - logfact(k)); }, 0,
          300, "poisson");
      c.nontrivial(true);
      c.label("poisson");
      break;
    }
    case 2: {
      const int N = static_cast<int>(c.below(60));
      const double p = c.below(6) == 0 ? 0. : c.below(6) == 0 ? 1. : c.unit();
      c.note() << "N=" << N << " p=" << p;
      for (size_t i = 0; i < n; i++) seen[random::binomial(N, p)]++;
      same_counts(
          c, seen, n,
          [=](int k) {
            if (p == 0.) return k == 0 ? 1. : 0.;
            if (p == 1.) return k == N ? 1. : 0.;
            return std::exp(logfact(N) - logfact(k) - logfact(N - k) +
                            k * std::log(p) + (N - k) * std::log1p(-p));
          },
          0, N, "binomial");
      c.nontrivial(N > 0 && p > 0 && p < 1);
      c.label("binomial");
    }
  }
}

// Two Poisson numbers with a given difference.
PBT_PROP(bessel, 200, 1000) {
  kit::seed(c.seed32());
  const size_t n = 20000;
  const bool large = c.flip();
  const double l1 = large ? c.logreal(4., 80.) : c.logreal(1e-2, 8.),
               l2 = large ? c.logreal(4., 80.) : c.logreal(1e-2, 8.);
  const int diff = static_cast<int>(c.range(-20, 20));
  c.note() << l1 << " " << l2 << " difference " << diff;
  random::BesselSampler s(l1, l2, diff);
  std::map<int, size_t> seen;
  std::vector<double> v;
  for (size_t i = 0; i < n; i++) {
    const auto p = s.sample();
    PBT_CHECK(c, p.first - p.second == diff, "difference not kept: "
                                                 << p.first << " "
                                                 << p.second);
    PBT_CHECK(c, p.first >= 0 && p.second >= 0,
              "negative number: " << p.first << ", " << p.second);
    seen[std::min(p.first, p.second)]++;
    v.push_back(std::min(p.first, p.second));
  }
  const int N = std::abs(diff);
  std::vector<double> w(400);
  double top = -1e300, sum = 0, mean = 0, var = 0;
  for (int k = 0; k < 400; k++) {
    w[k] = k * std::log(l1 * l2) - logfact(k) - logfact(N + k);
    top = std::max(top, w[k]);
  }
  for (double &x : w) sum += (x = std::exp(x - top));
  for (double &x : w) x /= sum;
  for (int k = 0; k < 400; k++) mean += k * w[k];
  for (int k = 0; k < 400; k++) var += (k - mean) * (k - mean) * w[k];
  const double mode = 0.5 * (std::sqrt(4 * l1 * l2 + N * N) - N);
  if (mode < 6) {
    same_counts(
        c, seen, n, [&](int k) { return k < 400 ? w[k] : 0.; }, 0, 399,
        "Bessel distribution");
    c.label("exact");
  } else {
    // documented approximation by a normal distribution
    double m = 0, d = 0, cum = 0, D = 0, q = 0;
    for (double x : v) m += x / n;
    for (double x : v) d += (x - m) * (x - m) / n;
    PBT_CHECK(c,
              std::abs(m - mean) < 6.5 * std::sqrt(var / n) + 0.02 * sqrt(var),
              "mean " << m << " instead of " << mean);
    PBT_CHECK(c, std::abs(d / var - 1) < 6.5 * std::sqrt(2.5 / n) + 0.05,
              "variance " << d << " instead of " << var);
    for (int k = 0; k < 400; k++) {
      cum += w[k];
      if (seen.count(k)) q += static_cast<double>(seen[k]) / n;
      D = std::max(D, std::abs(cum - q));
    }
    PBT_CHECK(c, D < stat_::ks_limit(n) + 0.05, "Bessel distribution: " << D);
    c.label("normal approximation");
  }
  c.nontrivial(mode > 0.05);
}

// Momenta of particles in and out of equilibrium.
PBT_PROP(momenta, 250, 1200) {
  kit::seed(c.seed32());
  const size_t n = 20000;
  const double T = c.logreal(0.01, 1.);
  const double inf = std::numeric_limits<double>::infinity();
  switch (c.below(6)) {
    case 0:
    case 1: {
      double m;
      switch (c.below(3)) {
        case 0:
          m = T / 0.6 * c.uniform(0.9, 1.1);
          break;
        case 1:
          m = c.flip() ? 0. : T * c.logreal(1e-3, 1.);
          break;
        default:
          m = T * c.logreal(1., 60.);
      }
      c.note() << "T=" << T << " m=" << m;
      const double hi = std::sqrt(T * T * 1600 + 80 * T * m);
      stat_::Cdf F(
          [=](double p) {
            return p * p *
                   std::exp(-(p * p / (std::sqrt(p * p + m * m) + m)) / T);
          },
          0., hi);
      same_distribution(
          c, draw(n, [=]() { return sample_momenta_from_thermal(T, m); }), 0.,
          inf, F, 1e-3, "thermal momentum");
      c.label(T > 0.6 * m ? "thermal, light" : "thermal, heavy");
      break;
    }
    case 2: {
      const double m = T * (c.below(4) == 0 ? 0. : c.logreal(1e-2, 100.));
      c.note() << "T=" << T << " m=" << m;
      const double hi = std::sqrt(50 * T * (50 * T + 2 * m));
      stat_::Cdf F(
          [=](double p) {
            return p * p * p *
                   std::exp(-(p * p / (std::sqrt(p * p + m * m) + m)) / T);
          },
          0., hi);
      same_distribution(
          c, draw(6000, [=]() { return sample_momenta_non_eq_mass(T, m); }), 0.,
          hi, F, 1e-3, "momentum out of equilibrium");
      c.label("massive, out of equilibrium");
      break;
    }
    case 3: {
      // (nearly) massless, as documented
      const double m = c.flip() ? 0. : T * c.logreal(1e-5, 1e-3);
      stat_::Cdf F(
          [=](double x) {
            return x * x * std::exp(-x) *
                   (3. / 20 * x * x - 6. / 5 * x + 14. / 5);
          },
          0., 50.);
      same_distribution(
          c, draw(6000, [=]() { return sample_momenta_1M_IC(T, m); }), 0.,
          50 * T, [&](double p) { return F(p / T); }, 5e-3, "1M_IC");
      c.label("1M");
      break;
    }
    case 4: {
      const double m = c.flip() ? 0. : T * c.logreal(1e-5, 1e-3);
      stat_::Cdf F(
          [=](double x) {
            return x * x * std::exp(-x) *
                   (.75 + x * x / 8 - x * x * x / 30 + x * x * x * x / 480);
          },
          0., 50.);
      same_distribution(
          c, draw(6000, [=]() { return sample_momenta_2M_IC(T, m); }), 0.,
          50 * T, [&](double p) { return F(p / T); }, 5e-3, "2M_IC");
      c.label("2M");
      break;
    }
    case 5: {
      // p^3 exp(-4 p / 3 T)
      same_distribution(
          c, draw(n, [=]() { return sample_momenta_IC_ES(T); }), 0., inf,
          [=](double p) {
            const double x = 4 * p / (3 * T);
            return 1 - std::exp(-x) * (1 + x + x * x / 2 + x * x * x / 6);
          },
          0., "IC_ES");
      c.label("ES");
    }
  }
  c.nontrivial(true);
}

// Fermi and Bose distributions at a given density.
PBT_PROP(quantum, 60, 400) {
  kit::seed(c.seed32());
  static const std::vector<std::string> codes = {"211", "111", "321",  "2212",
                                                 "2112", "3122", "2224", "113"};
  const PdgCode pdg(codes[c.below(codes.size())]);
  const ParticleType &t = ParticleType::find(pdg);
  const double m = t.mass(), g = pdg.spin_degeneracy();
  const double stat = pdg.spin() % 2 == 0 ? -1. : 1.;
  const double T = c.logreal(0.03, 0.3);
  auto f = [=](double p, double mu) {
    return 1. / (std::exp((std::sqrt(p * p + m * m) - mu) / T) + stat);
  };
  const double top = 10.;
  auto density = [&](double mu) {
    return g / (2 * M_PI * M_PI) *
           stat_::Cdf([&](double p) { return p * p * f(p, mu); }, 0., top, 3000)
               .norm();
  };
  // density up to close to the critical one, or degenerate nucleons
  const double nmax =
      stat < 0 ? 0.9 * density(m) : std::max(density(m), 0.05 * std::pow(hbarc, 3)) * 3;
  const double want = nmax * c.logreal(0.01, 1.);
  const int number = 1 + static_cast<int>(c.below(300));
  const double V = number / want * std::pow(hbarc, 3);
  const double n = number / V * std::pow(hbarc, 3);
  c.note() << pdg << " T=" << T << " n=" << n / std::pow(hbarc, 3)
           << "/fm^3 in V=" << V;
  if (n < 1e-7) c.discard();  // below the solver's absolute precision
  double lo = -3., hi = stat < 0 ? m : m + 3.;
  for (int i = 0; i < 60; i++) {
    const double mid = (lo + hi) / 2;
    (density(mid) < n ? lo : hi) = mid;
  }
  const double mu = (lo + hi) / 2;
  {
    ChemicalPotentialSolver solver;
    const double found =
        solver.effective_chemical_potential(g, m, n, T, stat, 1e-8);
    PBT_CHECK(c, std::abs(density(found) - n) < 5e-8 + 1e-5 * n,
              "chemical potential " << found << " instead of " << mu
                                    << " gives the density " << density(found)
                                    << " instead of " << n);
    Integrator in;
    PBT_CLOSE(c,
              ChemicalPotentialSolver::density_one_species(g, m, T, mu, stat,
                                                           &in),
              density(mu), 1e-3, 1e-9, "density at given chemical potential");
  }
  QuantumSampling q({{pdg, number}}, V, T);
  stat_::Cdf F([&](double p) { return p * p * f(p, mu); }, 0., top, 20000);
  same_distribution(
      c, draw(10000, [&]() { return q.sample(pdg); }), 0., top, F,
      2e-3 + 5e-7 / n, stat < 0 ? "Bose distribution" : "Fermi distribution");
  c.label(stat < 0 ? "Bose" : "Fermi");
  if (stat > 0 && mu > m) c.label("degenerate");
  c.nontrivial(true);
}

PBT_PROP(functions, 20000, 200000) {
  {
    const double m = c.uniform(0.1, 4.), m0 = c.uniform(0.1, 4.),
                 w = c.logreal(1e-5, 1.);
    const double r = 2 * m * m * w / M_PI /
                     (std::pow(m * m - m0 * m0, 2) + m * m * w * w);
    PBT_CLOSE(c, breit_wigner(m, m0, w), r, 1e-9, 0., "breit_wigner");
    PBT_CLOSE(c, smash::cauchy(m, m0, w),
              w / M_PI / ((m - m0) * (m - m0) + w * w), 1e-12, 0., "cauchy");
    PBT_CLOSE(c, breit_wigner_nonrel(m, m0, w),
              w / 2 / M_PI / ((m - m0) * (m - m0) + w * w / 4), 1e-12, 0.,
              "breit_wigner_nonrel");
  }
  const double T = c.logreal(1e-2, 1.), m = c.below(4) == 0 ? 0. : c.uniform(0., 2.),
               p = c.logreal(1e-4, 5.), mu = c.uniform(-1., 2.);
  const double e = std::sqrt(m * m + p * p);
  for (int s : {-1, 0, 1}) {
    if (s == -1 && e - mu < 1e-3 * T) continue;
    const double x = (e - mu) / T;
    const double r = s == 0   ? std::exp(-x)
                     : s == 1 ? 1 / (std::exp(x) + 1)
                              : 1 / std::expm1(x);
    PBT_CLOSE(c, juttner_distribution_func(p, m, T, mu, s), r, 1e-9, 1e-300,
              "Juttner distribution with statistics " << s);
  }
  PBT_CLOSE(c, density_integrand_mass(e, p * p, T), p * p * p * std::exp(-e / T),
            1e-12, 1e-300, "density_integrand_mass");
  const double x = p / T;
  PBT_CLOSE(c, density_integrand_1M_IC(p, p * p, T),
            p * p * std::exp(-x) * (3. / 20 * x * x - 6. / 5 * x + 14. / 5),
            1e-10, 1e-300, "1M");
  PBT_CLOSE(c, density_integrand_2M_IC(p, p * p, T),
            p * p * std::exp(-x) *
                (.75 + x * x / 8 - x * x * x / 30 + x * x * x * x / 480),
            1e-10, 1e-300, "2M");
  c.nontrivial(true);
}

namespace pbt {
void setup() { kit::load_default(); }
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN
