// P25: hadron gas equation of state and forced thermalization.
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <random>

#include "params.h"
#include "ref.h"
#include "smash/constants.h"
#include "smash/density.h"
#include "smash/grandcan_thermalizer.h"
#include "smash/hadgas_eos.h"
#include "smash/particles.h"
#include "smash/quantumnumbers.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;

namespace {
// Hadrons without charm and bottom, from the digits of their codes.
bool in_gas(const ParticleType &t) {
  if (!t.is_hadron()) return false;
  const int code = std::abs(t.pdgcode().get_decimal());
  if (code > 99999999) return false;  // nuclei
  for (int d : {code / 10 % 10, code / 100 % 10, code / 1000 % 10})
    if (d == 4 || d == 5) return false;
  return true;
}
const double kPre = 1. / (2 * M_PI * M_PI * std::pow(0.197327053, 3));

// integral of p^2 E^k exp(-(E - m) / T) dp
double moment(double m, double T, int k) {
  return static_cast<double>(ref::integrate(
      [&](ref::L u) {
        const ref::L K = u * u, E = K + m;
        return 2 * u * u * sqrtl(K + 2 * m) * E * powl(E, k) * expl(-K / T);
      },
      0, std::sqrt(60 * T), 24));
}
double fugacity(const ParticleType &t, double T, const double *mu, double m) {
  return std::exp((t.baryon_number() * mu[0] + t.strangeness() * mu[1] +
                   t.charge() * mu[2] - m) /
                  T);
}
double ref_density(const ParticleType &t, double T, const double *mu) {
  return kPre * (t.spin() + 1) * fugacity(t, T, mu, t.mass()) *
         moment(t.mass(), T, 0);
}
// with the spectral function
double ref_density_wide(const ParticleType &t, double T, const double *mu) {
  if (t.is_stable()) return ref_density(t, T, mu);
  const double w = t.width_at_pole(), m0 = t.mass(), lo = t.min_mass_spectral();
  // a variable which resolves the peak and the tails
  auto f = [&](ref::L x) {
    const double u = static_cast<double>(x);
    const double m = m0 + 0.5 * w * std::sinh(u), z = m / T;
    if (z > 600 || m <= lo) return ref::L(0);
    return static_cast<ref::L>(t.spectral_function(m) * 0.5 * w * std::cosh(u) *
                               m * m * T * std::cyl_bessel_k(2., z));
  };
  const double a = std::asinh(2 * (lo - m0) / w);
  const double b = std::asinh(2 * (std::max(m0, lo) + 60 * T - m0) / w);
  const double mu_ = std::exp((t.baryon_number() * mu[0] +
                               t.strangeness() * mu[1] + t.charge() * mu[2]) /
                              T);
  const double s = static_cast<double>(ref::integrate(f, a, b, 120));
  return kPre * (t.spin() + 1) * mu_ * s;
}
struct Gas {
  double n = 0, e = 0, nb = 0, ns = 0, nq = 0;
};
Gas ref_gas(double T, const double *mu) {
  Gas g;
  for (const auto &t : ParticleType::list_all()) {
    if (!in_gas(t)) continue;
    const double f = kPre * (t.spin() + 1) * fugacity(t, T, mu, t.mass());
    const double n = f * moment(t.mass(), T, 0);
    g.n += n;
    g.e += f * moment(t.mass(), T, 1);
    g.nb += n * t.baryon_number();
    g.ns += n * t.strangeness();
    g.nq += n * t.charge();
  }
  return g;
}
// The same for many temperatures with closed expressions.
Gas fast_gas(double T, const double *mu) {
  Gas g;
  for (const auto &t : ParticleType::list_all()) {
    if (!in_gas(t)) continue;
    const double z = t.mass() / T;
    const double x = (t.baryon_number() * mu[0] + t.strangeness() * mu[1] +
                      t.charge() * mu[2]) /
                     T;
    const double k1 = z > 600 ? 0 : std::cyl_bessel_k(1., z);
    const double k2 = z > 600 ? 0 : std::cyl_bessel_k(2., z);
    const double f = kPre * (t.spin() + 1) * std::exp(x) * T * T * T * z * z;
    g.n += f * k2;
    g.e += f * T * (3 * k2 + z * k1);
    g.nb += f * k2 * t.baryon_number();
    g.ns += f * k2 * t.strangeness();
    g.nq += f * k2 * t.charge();
  }
  return g;
}
struct Mute {
  std::streambuf *old = std::cout.rdbuf(nullptr);
  ~Mute() { std::cout.rdbuf(old); }
};
void potentials(pbt::Case &c, double *mu, double b, double o) {
  mu[0] = c.below(4) == 0 ? 0. : c.real(-b, b);
  mu[1] = c.below(3) == 0 ? 0. : c.real(-o, o);
  mu[2] = c.below(3) == 0 ? 0. : c.real(-o, o);
  c.note() << "muB = " << mu[0]
           << ", muS = " << mu[1] << ", muQ = " << mu[2];
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t) {}
}  // namespace pbt

// densities, pressure and energy of an ideal Boltzmann gas
PBT_PROP(thermodynamics, 1500, 20000) {
  const double T = c.one_of({c.logreal(0.004, 2), c.real(0.05, 0.3)});
  double mu[3];
  potentials(c, mu, std::min(1.2, 8 * T), std::min(0.6, 4 * T));
  c.note() << ", T = " << T;
  c.nontrivial(mu[0] != 0 && mu[1] != 0 && mu[2] != 0);
  const Gas g = ref_gas(T, mu);
  const double rel = 1e-7;
  const double abs = 1e-9 * g.n;
  PBT_CLOSE(c, HadronGasEos::density(T, mu[0], mu[1], mu[2]), g.n, rel, 1e-280,
            "particle density");
  PBT_CLOSE(c, HadronGasEos::energy_density(T, mu[0], mu[1], mu[2]), g.e, rel,
            1e-280, "energy density");
  PBT_CLOSE(c, HadronGasEos::pressure(T, mu[0], mu[1], mu[2]), g.n * T, rel,
            1e-280, "pressure");
  PBT_CLOSE(c, HadronGasEos::net_baryon_density(T, mu[0], mu[1], mu[2]), g.nb,
            rel, abs, "net baryon density");
  PBT_CLOSE(c, HadronGasEos::net_strange_density(T, mu[0], mu[1], mu[2]), g.ns,
            rel, abs, "net strange density");
  PBT_CLOSE(c, HadronGasEos::net_charge_density(T, mu[0], mu[1], mu[2]), g.nq,
            rel, abs, "net charge density");
  // charge conjugation
  PBT_CLOSE(c, HadronGasEos::net_baryon_density(T, -mu[0], -mu[1], -mu[2]),
            -g.nb, rel, abs, "net baryon density of the antimatter");
  PBT_CLOSE(c, HadronGasEos::energy_density(T, -mu[0], -mu[1], -mu[2]), g.e,
            rel, 1e-280, "energy density of the antimatter");
}

PBT_PROP(species, 250, 10000) {
  const auto &list = ParticleType::list_all();
  const auto &t = list[c.below(list.size())];
  const double T = c.one_of({c.logreal(0.02, 1), c.real(0.05, 0.3)});
  double mu[3];
  potentials(c, mu, std::min(1.2, 8 * T), std::min(0.6, 4 * T));
  c.note() << ", T = " << T << ", " << t.name();
  PBT_CHECK(c, HadronGasEos::is_eos_particle(t) == in_gas(t),
            t.name() << " is a part of the gas: "
                     << HadronGasEos::is_eos_particle(t));
  if (!t.is_hadron()) return;
  PBT_CLOSE(c, HadronGasEos::partial_density(t, T, mu[0], mu[1], mu[2], false),
            ref_density(t, T, mu), 1e-7, 1e-200, "density of " << t.name());
  if (t.is_stable() || T < 0.03) return;
  c.nontrivial(true);
  c.label("resonance");
  const double w = ref_density_wide(t, T, mu);
  // The integral has an absolute precision, in units of the fugacity, which
  // is too poor for narrow and heavy resonances.
  const double floor = 1e-7 * kPre * (t.spin() + 1) * T * T * T *
                       std::max(1., fugacity(t, T, mu, 0));
  PBT_CLOSE(c, HadronGasEos::partial_density(t, T, mu[0], mu[1], mu[2], true),
            w, 3e-3, floor + 1e-280,
            "density of " << t.name() << " with its spectral function");
}

// sums over species with spectral functions
PBT_PROP(wide, 1, 16) {
  const double T = c.real(0.05, 0.3);
  double mu[3];
  potentials(c, mu, std::min(1.2, 8 * T), std::min(0.6, 4 * T));
  c.note() << ", T = " << T;
  c.nontrivial(true);
  double n = 0, nb = 0, ns = 0, nq = 0;
  for (const auto &t : ParticleType::list_all()) {
    if (!in_gas(t)) continue;
    const double x =
        HadronGasEos::partial_density(t, T, mu[0], mu[1], mu[2], true);
    n += x;
    nb += x * t.baryon_number();
    ns += x * t.strangeness();
    nq += x * t.charge();
  }
  const double tol = 1e-9 * n;
  switch (c.below(5)) {
    case 0:
      PBT_CLOSE(c, HadronGasEos::density(T, mu[0], mu[1], mu[2], true), n, 0,
                tol, "particle density");
      break;
    case 1:
      PBT_CLOSE(c, HadronGasEos::pressure(T, mu[0], mu[1], mu[2], true), n * T,
                0, tol * T, "pressure");
      break;
    case 2:
      PBT_CLOSE(c,
                HadronGasEos::net_baryon_density(T, mu[0], mu[1], mu[2], true),
                nb, 0, tol, "net baryon density");
      break;
    case 3:
      PBT_CLOSE(c,
                HadronGasEos::net_strange_density(T, mu[0], mu[1], mu[2], true),
                ns, 0, tol, "net strange density");
      break;
    default:
      PBT_CLOSE(c,
                HadronGasEos::net_charge_density(T, mu[0], mu[1], mu[2], true),
                nq, 0, tol, "net charge density");
  }
}

// masses of resonances in the gas
PBT_PROP(masses, 40, 600) {
  const auto res = kit::resonances();
  const auto t = c.pick(res);
  const double T = c.real(0.05, 0.4);
  kit::seed(c.seed32());
  c.note() << t->name() << ", T = " << T;
  c.nontrivial(true);
  const double lo = t->min_mass_spectral(), hi = 5;
  std::vector<double> v(1200);
  for (double &m : v) m = HadronGasEos::sample_mass_thermal(*t, 1 / T);
  for (double m : v)
    PBT_CHECK(c, m >= lo && m <= hi, t->name() << " of mass " << m);
  // cumulative distribution, in a variable which resolves the peak
  const double w = t->width_at_pole(), m0 = t->mass();
  const stat_::Cdf cdf(
      [&](double u) {
        const double m = m0 + 0.5 * w * std::sinh(u);
        if (m <= lo) return 0.;
        return t->spectral_function(m) * std::cosh(u) * m * m *
               std::exp(-(m - m0) / T) * std::cyl_bessel_k(2., m / T) *
               std::exp(m / T);
      },
      std::asinh(2 * (lo - m0) / w), std::asinh(2 * (hi - m0) / w), 2000);
  const double d = stat_::ks(
      v, [&](double m) { return cdf(std::asinh(2 * (m - m0) / w)); });
  PBT_CHECK(c, d < stat_::ks_limit(v.size()) + 2e-3,
            "masses of " << t->name() << ": KS distance " << d);
  const auto st = c.pick(kit::hadrons());
  if (st->is_stable())
    PBT_CHECK(c, HadronGasEos::sample_mass_thermal(*st, 1 / T) == st->mass(),
              "mass of " << st->name());
}

// temperature and potentials from densities
PBT_PROP(solution, 2000, 40000) {
  const double T = c.real(0.05, 0.3);
  double mu[3];
  potentials(c, mu, std::min(0.8, 4 * T), std::min(0.2, T));
  c.note() << ", T = " << T;
  c.nontrivial(mu[0] != 0 && mu[1] != 0 && mu[2] != 0);
  const Gas g = fast_gas(T, mu);
  HadronGasEos eos(false, false);
  const auto init = eos.solve_eos_initial_approximation(g.e, g.nb, g.nq);
  const double zero[3] = {0, 0, 0};
  PBT_CHECK(c, fast_gas(init[0] - 2e-3, zero).e < g.e &&
                   fast_gas(init[0] + 2e-3, zero).e > g.e,
            "first estimate of the temperature " << init[0]
                << " for an energy density " << g.e);
  const auto x = c.flip() ? eos.solve_eos(g.e, g.nb, g.ns, g.nq)
                          : eos.solve_eos(g.e, g.nb, g.ns, g.nq,
                                          {T * 1.01, mu[0] + 0.01,
                                           mu[1] - 0.01, mu[2] + 0.01});
  const Gas h = fast_gas(x[0], x.data() + 1);
  std::ostringstream o;
  o << " at T = " << x[0] << ", mu = " << x[1] << " " << x[2] << " " << x[3];
  PBT_CLOSE(c, h.e, g.e, 1e-6, 1e-7, "energy density" << o.str());
  PBT_CLOSE(c, h.nb, g.nb, 1e-6, 1e-7, "baryon density" << o.str());
  PBT_CLOSE(c, h.ns, g.ns, 1e-6, 1e-7, "strangeness density" << o.str());
  PBT_CLOSE(c, h.nq, g.nq, 1e-6, 1e-7, "charge density" << o.str());
  // strangeness neutrality
  const double b = c.real(0, std::min(0.8, 5 * T));
  const double s = HadronGasEos::mus_net_strangeness0(T, b, 0);
  const double m0[3] = {b, s, 0};
  PBT_CLOSE(c, fast_gas(T, m0).ns, 0, 0, 1e-7,
            "strangeness density with muB = " << b << ", muS = " << s);
}
// table of the equation of state
PBT_PROP_OPT(table, 60, 600, 120, false) {
  Mute mute;
  HadronGasEos eos(false, false);
  const size_t ne = 2 + c.below(3), nb = 2 + c.below(3), nq = 2 + c.below(2);
  // steps which the file reproduces
  const double de = c.range(100, 500) * 1e-3, db = c.range(20, 200) * 1e-3,
               dq = c.range(20, 200) * 1e-3;
  c.note() << ne << "x" << nb << "x" << nq << " points, steps " << de << " "
           << db << " " << dq;
  const std::string file = "table.dat";
  std::filesystem::remove(file);
  EosTable made(de, db, dq, ne, nb, nq);
  made.compile_table(eos, file);
  EosTable read(c.flip() ? de : 2 * de, db, dq, ne, nb, nq + c.below(2));
  read.compile_table(eos, file);
  using E = EosTable::table_element;
  auto show = [](const E &x) {
    std::ostringstream o;
    o << x.p << " " << x.T << " " << x.mub << " " << x.mus << " " << x.muq;
    return o.str();
  };
  auto dist = [](const E &a, const E &b) {
    return std::max({std::abs(a.p - b.p), std::abs(a.T - b.T),
                     std::abs(a.mub - b.mub), std::abs(a.mus - b.mus),
                     std::abs(a.muq - b.muq)});
  };
  std::vector<E> node(ne * nb * nq);
  auto at = [&](size_t i, size_t j, size_t k) -> E & {
    return node[(i * nb + j) * nq + k];
  };
  const double eps = 1e-9;
  // from the definition
  for (size_t i = 0; i < ne; i++)
    for (size_t j = 0; j < nb; j++)
      for (size_t k = 0; k < nq; k++) {
        const double e = de * i, b = db * j, q = dq * k;
        E &x = at(i, j, k);
        x = {0, 0, 0, 0, 0};
        if (i + 1 < ne && j + 1 < nb && k + 1 < nq) {
          made.get(x, e * (1 + eps), b * (1 + eps), q * (1 + eps));
          if (b >= e || q >= e) {
            PBT_CHECK(c, std::abs(x.T) < 1e-6,
                      "state with more charge than energy: " << show(x));
            continue;
          }
          if (x.T < 0.02) continue;  // no solution
          c.nontrivial(true);
          const double mu[3] = {x.mub, x.mus, x.muq};
          const Gas g = fast_gas(x.T, mu);
          std::ostringstream o;
          o << "e = " << e << ", nb = " << b << ", nq = " << q << ": "
            << show(x);
          PBT_CLOSE(c, g.e, e, 1e-5, 1e-5, "energy density of " << o.str());
          PBT_CLOSE(c, g.nb, b, 1e-5, 1e-5, "baryon density of " << o.str());
          PBT_CLOSE(c, g.nq, q, 1e-5, 1e-5, "charge density of " << o.str());
          PBT_CLOSE(c, g.ns, 0, 0, 1e-5, "strangeness of " << o.str());
          PBT_CLOSE(c, g.n * x.T, x.p, 1e-5, 1e-6, "pressure of " << o.str());
        }
      }
  for (int n = 0; n < 20; n++) {
    const double e = c.real(0, 1.3) * de * (ne - 1),
                 b = c.real(0, 1.3) * db * (nb - 1),
                 q = c.real(0, 1.3) * dq * (nq - 1);
    E x, y;
    made.get(x, e, b, q);
    read.get(y, e, b, q);
    std::ostringstream o;
    o << "e = " << e << ", nb = " << b << ", nq = " << q << ": ";
    PBT_CHECK(c, dist(x, y) < 2e-7 * 5,
              o.str() << show(x) << " before, " << show(y)
                      << " after reading the file");
    const size_t i = static_cast<size_t>(e / de), j = static_cast<size_t>(b / db),
                 k = static_cast<size_t>(q / dq);
    const bool out = i + 1 >= ne || j + 1 >= nb || k + 1 >= nq;
    PBT_CHECK(c, out == (x.p < 0 && x.T < 0),
              o.str() << (out ? "outside" : "inside") << " of the table: "
                      << show(x));
    if (out) continue;
    // linear along every axis within the cell
    E l, m, h;
    const int axis = static_cast<int>(c.below(3));
    const double f0 = 1e-9, f1 = 1 - 1e-9;
    auto get = [&](E &r, double f) {
      made.get(r, axis == 0 ? (i + f) * de : e, axis == 1 ? (j + f) * db : b,
               axis == 2 ? (k + f) * dq : q);
    };
    get(l, f0);
    get(h, f1);
    get(m, 0.5);
    const E mid = {(l.p + h.p) / 2, (l.T + h.T) / 2, (l.mub + h.mub) / 2,
                   (l.mus + h.mus) / 2, (l.muq + h.muq) / 2};
    PBT_CHECK(c, dist(m, mid) < 1e-7,
              o.str() << "not linear: " << show(m) << " between " << show(l)
                      << " and " << show(h));
    // the upper end is the lower end of the next cell
    const size_t next = axis == 0 ? i : axis == 1 ? j : k;
    const size_t last = axis == 0 ? ne : axis == 1 ? nb : nq;
    if (next + 2 < last) {
      E s;
      get(s, 1 + 1e-9);
      PBT_CHECK(c, dist(s, h) < 1e-6,
                o.str() << "jump from " << show(h) << " to " << show(s));
    }
  }
  // A file for other particles is not used.
  if (c.below(3) == 0) {
    std::ofstream f(file);
    f << de << " " << db << " " << dq << "\n2 2 2\n";
    for (int n = 0; n < 8; n++) f << "0.1 0.15 0.1 0 0\n";
    f.close();
    EosTable again(de, db, dq, 2, 2, 2);
    again.compile_table(eos, file);
    E x, y;
    const double e = c.real(0.1, 0.9) * de, b = c.real(0, 0.1) * db,
                 q = c.real(0, 0.1) * dq;
    again.get(x, e, b, q);
    EosTable right(de, db, dq, 2, 2, 2);
    std::filesystem::remove(file);
    right.compile_table(eos, file);
    right.get(y, e, b, q);
    PBT_CHECK(c, dist(x, y) < 1e-6,
              "values from an inconsistent file: " << show(x) << ", not "
                                                   << show(y));
  }
}

// state of a moving cell from its energy, momentum and charges
PBT_PROP(cells, 1500, 20000) {
  HadronGasEos eos(false, false);
  const double T = c.real(0.08, 0.25);
  double mu[3];
  potentials(c, mu, std::min(0.6, 3 * T), std::min(0.1, T / 2));
  const double speed = c.below(4) == 0 ? 0 : c.real(0, 0.9);
  const ThreeVector v = kit::direction(c) * speed;
  c.note() << ", T = " << T << ", v = " << kit::show(v);
  const Gas g = fast_gas(T, mu);
  const double gamma = 1 / std::sqrt(1 - v.sqr()), p = g.n * T;
  const double w = (g.e + p) * gamma * gamma;
  FourVector total(w - p, v * w);
  ThermLatticeNode node;
  // charges from a few particles, the rest of the momentum from a neutral one
  struct {
    const char *code;
    double n;
  } parts[] = {{"3122", -g.ns * gamma},
               {"2212", g.nq * gamma},
               {"2112", (g.nb + g.ns - g.nq) * gamma}};
  FourVector sum;
  for (const auto &x : parts) {
    ParticleData d{ParticleType::find(PdgCode(x.code))};
    d.set_4momentum(d.type().mass(), kit::momentum3(c, 1));
    node.add_particle(d, x.n);
    sum += d.momentum() * x.n;
  }
  ParticleData rest{ParticleType::find(PdgCode("111"))};
  const double f = c.logreal(0.1, 10);
  rest.set_4momentum((total - sum) * (1 / f));
  node.add_particle(rest, f);
  PBT_CHECK(c, std::abs(node.nb() - g.nb * gamma) < 1e-9 * gamma * g.n &&
                   std::abs(node.nq() - g.nq * gamma) < 1e-9 * gamma * g.n &&
                   std::abs(node.ns() - g.ns * gamma) < 1e-9 * gamma * g.n,
            "charge densities " << node.nb() << " " << node.ns() << " "
                                << node.nq());
  PBT_CHECK(c, (node.Tmu0() - total).threevec().abs() < 1e-9 * w &&
                   std::abs(node.Tmu0().x0() - total.x0()) < 1e-9 * w,
            "energy and momentum " << kit::show(node.Tmu0()));
  if (g.e < 0.02) c.discard();
  {
    Mute mute;
    node.compute_rest_frame_quantities(eos);
  }
  c.nontrivial(speed > 0 && mu[0] != 0 && mu[2] != 0);
  // the iteration stops at changes of 5e-4 GeV/fm^3
  const double tol = 2e-3 * (1 + 3 * gamma) + 2e-3 * g.e;
  PBT_CLOSE(c, node.e(), g.e, 0, tol, "energy density");
  PBT_CLOSE(c, node.p(), p, 0, tol, "pressure");
  PBT_CHECK(c, (node.v() - v).abs() < tol / g.e * 0.5,
            "velocity " << kit::show(node.v()));
  const double m[3] = {node.mub(), node.mus(), node.muq()};
  const Gas h = fast_gas(node.T(), m);
  PBT_CLOSE(c, h.e, node.e(), 0, tol, "energy density of the gas");
  PBT_CLOSE(c, h.n * node.T(), node.p(), 1e-6, 1e-7, "pressure of the gas");
  const double rel = tol / g.e;
  PBT_CLOSE(c, h.nb, g.nb, rel, 1e-5, "baryon density of the gas");
  PBT_CLOSE(c, h.ns, g.ns, rel, 1e-5, "strangeness density of the gas");
  PBT_CLOSE(c, h.nq, g.nq, rel, 1e-5, "charge density of the gas");
  // the other way round
  ThermLatticeNode set;
  set.set_rest_frame_quantities(T, mu[0], mu[1], mu[2], v);
  PBT_CLOSE(c, set.e(), g.e, 1e-9, 0, "energy density of a given state");
  PBT_CLOSE(c, set.p(), p, 1e-9, 0, "pressure of a given state");
  PBT_CLOSE(c, set.nb(), g.nb, 1e-9, 1e-12, "baryon density of a given state");
  PBT_CLOSE(c, set.nq(), g.nq, 1e-9, 1e-12, "charge density of a given state");
  PBT_CLOSE(c, set.ns(), g.ns, 1e-9, 1e-12, "strangeness of a given state");
}

namespace {
// avoids the compilation of the large table
void empty_table() {
  std::ofstream f("hadgas_eos.dat");
  f << "0.001 0.001 0.001\n2 2 2\n";
  for (int n = 0; n < 8; n++) f << "0 0 0 0 0\n";
}
const ThermalizationAlgorithm algorithms[] = {
    ThermalizationAlgorithm::BiasedBF, ThermalizationAlgorithm::UnbiasedBF,
    ThermalizationAlgorithm::ModeSampling};
struct Grid3 {
  std::array<double, 3> l, o;
  std::array<int, 3> n;
};
Grid3 region(pbt::Case &c, double cell) {
  Grid3 g;
  for (int i = 0; i < 3; i++) {
    g.n[i] = 1 + static_cast<int>(c.below(2));
    g.l[i] = g.n[i] * cell * c.real(0.9, 1.1);
    g.o[i] = c.real(-4, 1);
  }
  return g;
}
size_t cell_of(const Grid3 &g, const ThreeVector &r, bool &inside) {
  size_t idx[3];
  inside = true;
  for (int i = 0; i < 3; i++) {
    const double x = (r[i] - g.o[i]) / g.l[i] * g.n[i];
    inside = inside && x >= 0 && x < g.n[i];
    idx[i] = inside ? static_cast<size_t>(x) : 0;
  }
  return idx[0] + g.n[0] * (idx[1] + g.n[1] * idx[2]);
}
QuantumNumbers sum_of(const ParticleList &l) { return QuantumNumbers(l); }
// A neutral mixture of hadrons with random momenta
void fill(pbt::Case &c, const Grid3 &g, Particles &list, size_t n, double margin,
          double t, double T) {
  static const char *codes[] = {"211",  "-211", "111",  "211",  "-211", "111",
                                "2212", "2112", "2212", "2112", "321",  "311",
                                "-321", "-311", "3122", "113"};
  std::mt19937_64 rng(c.seed32());
  auto u = [&]() { return std::generate_canonical<double, 53>(rng); };
  for (size_t i = 0; i < n; i++) {
    ParticleData p{ParticleType::find(PdgCode(codes[rng() % 16]))};
    double k = -T * std::log(u() * u() * u() + 1e-12);
    const double ct = 2 * u() - 1, ph = 2 * M_PI * u(),
                 st = std::sqrt(1 - ct * ct);
    p.set_4momentum(p.type().mass(),
                    ThreeVector(st * std::cos(ph), st * std::sin(ph), ct) * k);
    double x[3];
    for (int d = 0; d < 3; d++)
      x[d] = g.o[d] - margin + u() * (g.l[d] + 2 * margin);
    p.set_4position(FourVector(t, x[0], x[1], x[2]));
    p.set_formation_time(t);
    list.insert(p);
  }
}
}  // namespace

// Particles in hot cells are replaced by others with the same charges.
PBT_PROP_OPT(thermalize, 400, 6000, 120, false) {
  Mute mute;
  empty_table();
  const auto algo = algorithms[c.below(3)];
  const double cell = c.real(1.5, 3);
  const Grid3 g = region(c, cell);
  const bool micro = algo != ThermalizationAlgorithm::ModeSampling &&
                     c.below(6) == 0;
  const double crit = c.real(0.1, 0.5), t = c.real(0, 20);
  const double T = c.real(0.12, 0.25), margin = c.real(0, 0.7);
  // enough particles in the region, which may have cold corners
  const size_t n = 20 + c.below(8) * 25;
  c.note() << "algorithm " << static_cast<int>(algo) << ", cells " << g.n[0]
           << "x" << g.n[1] << "x" << g.n[2] << ", " << n << " particles";
  const auto seed = c.seed32();
  kit::seed(seed);
  auto p = kit::Params();
  p.sigma = c.real(0.8, 1.5);
  const auto par = p.make();
  const DensityParameters dens(par);
  GrandCanThermalizer th(g.l, g.n, g.o, false, crit, 0, 1, algo, micro);
  PBT_CHECK(c, th.e_crit() == crit, "critical energy density");
  std::vector<Particles> ensembles(1);
  fill(c, g, ensembles[0], n, margin, t, T);
  th.update_thermalizer_lattice(ensembles, dens);
  const auto spin = c.flip() ? SpinInteractionType::On : SpinInteractionType::Off;
  th.thermalize(ensembles[0], t, 1, spin);
  const auto removed = th.particles_to_remove(),
             made = th.particles_to_insert();
  std::vector<double> e;
  for (const auto &node : th.lattice()) e.push_back(node.e());
  std::vector<int> hot;
  for (const auto &x : ensembles[0]) {
    bool inside;
    const size_t i = cell_of(g, x.position().threevec(), inside);
    if (inside && e[i] > crit) hot.push_back(x.id());
  }
  if (hot.size() <= 30) {
    PBT_CHECK(c, removed.empty() && made.empty(),
              hot.size() << " particles to thermalize, " << removed.size()
                         << " removed, " << made.size() << " created");
    c.label("too few");
    return;
  }
  c.nontrivial(true);
  c.label(algo == ThermalizationAlgorithm::BiasedBF     ? "biased"
          : algo == ThermalizationAlgorithm::UnbiasedBF ? "unbiased"
                                                        : "mode");
  std::vector<int> ids;
  for (const auto &x : removed) ids.push_back(x.id());
  std::sort(ids.begin(), ids.end());
  std::sort(hot.begin(), hot.end());
  PBT_CHECK(c, ids == hot, ids.size() << " particles removed, " << hot.size()
                                      << " are in hot cells");
  const auto a = sum_of(removed), b = sum_of(made);
  PBT_CHECK(c, a.baryon_number() == b.baryon_number() &&
                   a.strangeness() == b.strangeness() &&
                   a.charge() == b.charge(),
            "charges B, S, Q = " << a.baryon_number() << " " << a.strangeness()
                                 << " " << a.charge() << " became "
                                 << b.baryon_number() << " " << b.strangeness()
                                 << " " << b.charge());
  double mass = 0;
  for (const auto &x : made) {
    mass += x.type().mass();
    bool inside;
    const size_t i = cell_of(g, x.position().threevec(), inside);
    PBT_CHECK(c, inside && e[i] > crit,
              x.type().name() << " created outside of the hot cells at "
                              << kit::show(x.position()));
    PBT_CHECK(c, x.position().x0() == t && x.formation_time() == t,
              "time " << x.position().x0() << ", formation time "
                      << x.formation_time());
    PBT_CHECK(c, in_gas(x.type()), x.type().name() << " created");
    PBT_CLOSE(c, x.momentum().sqr(), x.type().mass() * x.type().mass(), 0,
              1e-9 * x.momentum().x0() * x.momentum().x0(),
              "mass of " << x.type().name());
  }
  if (mass < 0.98 * a.momentum().abs()) {
    const auto d = a.momentum() - b.momentum();
    PBT_CHECK(c, d.threevec().abs() < 1e-3 && std::abs(d.x0()) < 1e-3,
              "total momentum " << kit::show(a.momentum()) << " became "
                                << kit::show(b.momentum()));
  } else {
    c.label("too heavy");
  }
}

// species and cells of the new particles
PBT_PROP_OPT(sampled, 200, 2000, 120, false) {
  Mute mute;
  empty_table();
  const auto algo = c.flip() ? ThermalizationAlgorithm::BiasedBF
                             : ThermalizationAlgorithm::ModeSampling;
  const bool bf = algo == ThermalizationAlgorithm::BiasedBF;
  Grid3 g;
  g.n = {2, 1, 1};
  g.l = {c.real(6, 9), c.real(3, 4.5), c.real(3, 4.5)};
  g.o = {0, 0, 0};
  const double volume = g.l[0] * g.l[1] * g.l[2] / 2;
  GrandCanThermalizer th(g.l, g.n, g.o, false, 0.05, 0, 1, algo, false);
  double T[2], mub[2], mus[2], muq[2];
  ThreeVector v[2];
  const double vx = c.real(0, 0.5);
  for (int i = 0; i < 2; i++) {
    T[i] = c.real(0.14, 0.18);
    mub[i] = c.real(0, 0.3);
    mus[i] = c.real(-0.05, 0.05);
    muq[i] = bf ? c.real(-0.05, 0.05) : 0;
    v[i] = ThreeVector(i == 0 ? vx : -vx, c.real(-0.3, 0.3), 0);
    th.lattice()[i].set_rest_frame_quantities(T[i], mub[i], mus[i], muq[i],
                                              v[i]);
  }
  auto expected = [&](const ParticleType &t, int i) {
    return volume / std::sqrt(1 - v[i].sqr()) *
           HadronGasEos::partial_density(t, T[i], mub[i], mus[i], muq[i]);
  };
  c.note() << "algorithm " << static_cast<int>(algo) << ", T = " << T[0] << " "
           << T[1] << ", muB = " << mub[0] << " " << mub[1] << ", vx = " << vx;
  c.nontrivial(true);
  // about as many as there are in equilibrium
  Particles list;
  double nb = 0, ns = 0, nq = 0, E = 0;
  for (int i = 0; i < 2; i++) {
    const double gam = 1 / std::sqrt(1 - v[i].sqr());
    const auto &node = th.lattice()[i];
    nb += node.nb() * gam * volume;
    ns += node.ns() * gam * volume;
    nq += node.nq() * gam * volume;
    E += ((node.e() + node.p()) * gam * gam - node.p()) * volume;
  }
  const int B = static_cast<int>(std::lround(nb)),
            S = static_cast<int>(std::lround(ns)),
            Q = static_cast<int>(std::lround(nq));
  auto add = [&](const char *code, int n, double k) {
    for (int i = 0; i < n; i++) {
      ParticleData p{ParticleType::find(PdgCode(code))};
      p.set_4momentum(p.type().mass(), ThreeVector(0, 0, i % 2 ? k : -k));
      p.set_4position(FourVector(0, 0.1 + 0.8 * g.l[0] * i / (n + 1.), 1, 1));
      p.set_formation_time(0);
      list.insert(p);
    }
  };
  add("2212", std::max(0, B), 0.5);
  add("-2212", std::max(0, -B), 0.5);
  add("311", std::max(0, S), 0.3);
  add("-311", std::max(0, -S), 0.3);
  add("211", std::max(0, Q - B), 0.3);
  add("-211", std::max(0, B - Q), 0.3);
  double have = 0;
  for (const auto &p : list) have += p.momentum().x0();
  const int pairs = 20 + static_cast<int>(std::max(0., (E - have) / 1.2));
  add("111", 2 * pairs, 0.55);
  std::map<std::string, int> classes;
  std::map<PdgCode, std::array<int, 2>> counts;
  double flow = 0;
  int total = 0, baryons = 0, protons = 0, neutral = 0, pi0 = 0;
  const int events = 12;
  kit::seed(c.seed32());
  for (int k = 0; k < events; k++) {
    th.thermalize(list, 0, 1);
    PBT_CHECK(c, th.particles_to_remove().size() == list.size(),
              th.particles_to_remove().size() << " removed of " << list.size());
    for (const auto &p : th.particles_to_insert()) {
      const int i = p.position().x1() < g.l[0] / 2 ? 0 : 1;
      counts[p.pdgcode()][i]++;
      flow += (i == 0 ? 1 : -1) * p.momentum().x1();
      total++;
      const auto &t = p.type();
      if (t.baryon_number() > 0) {
        baryons++;
        if (t.pdgcode() == pdg::p) protons++;
      }
      if (t.baryon_number() == 0 && t.strangeness() == 0 && t.charge() == 0) {
        neutral++;
        if (t.pdgcode() == pdg::pi_z) pi0++;
      }
    }
  }
  for (const auto &x : counts) {
    const ParticleType &t = ParticleType::find(x.first);
    const double e0 = expected(t, 0), e1 = expected(t, 1);
    const double n = x.second[0] + x.second[1];
    const double s = stat_::count_surprise(x.second[0], n, e0 / (e0 + e1));
    PBT_CHECK(c, s < stat_::kSurprise,
              t.name() << ": " << x.second[0] << " and " << x.second[1]
                              << " in the two cells, expected " << e0 << " : "
                              << e1);
  }
  if (bf) {
    double ep = 0, eb = 0, ez = 0, en = 0;
    for (const auto &t : ParticleType::list_all()) {
      if (!in_gas(t)) continue;
      const double x = expected(t, 0) + expected(t, 1);
      if (t.baryon_number() > 0) eb += x;
      if (t.pdgcode() == pdg::p) ep = x;
      if (t.baryon_number() == 0 && t.strangeness() == 0 && t.charge() == 0)
        en += x;
      if (t.pdgcode() == pdg::pi_z) ez = x;
    }
    PBT_CHECK(c, stat_::count_surprise(protons, baryons, ep / eb) <
                     stat_::kSurprise,
              protons << " protons of " << baryons << " baryons, expected "
                      << ep / eb);
    PBT_CHECK(c, stat_::count_surprise(pi0, neutral, ez / en) <
                     stat_::kSurprise,
              pi0 << " neutral pions of " << neutral << " mesons, expected "
                  << ez / en);
    // Poisson
    const double mean = events * en;
    const double ns2 = neutral * std::log(neutral / mean) - neutral + mean;
    PBT_CHECK(c, ns2 < stat_::kSurprise,
              neutral << " neutral mesons, expected " << mean);
  }
  if (vx > 0.25)
    PBT_CHECK(c, flow > 0, "momentum " << flow << " towards the other cell");
}

PBT_MAIN
