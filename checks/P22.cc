// P22: nuclei and the initial state of a collision.
#include <unistd.h>

#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <numeric>

#include "params.h"
#include "ref.h"
#include "smash/alphaclusterednucleus.h"
#include "smash/collidermodus.h"
#include "smash/constants.h"
#include "smash/customnucleus.h"
#include "smash/deformednucleus.h"
#include "smash/nucleus.h"
#include "smash/particles.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;

namespace {
struct Shape {
  double R = 1, d = 0.5, b2 = 0, b3 = 0, b4 = 0, g = 0;
  bool deformed() const { return b2 != 0 || b3 != 0 || b4 != 0; }
  // radius in some direction
  double radius(double x, double phi) const {
    const double y20 = std::sqrt(5 / (16 * M_PI)) * (3 * x * x - 1);
    const double y22 = std::sqrt(15 / (32 * M_PI)) * (1 - x * x) *
                       std::cos(2 * phi);
    const double y30 = std::sqrt(7 / (16 * M_PI)) * x * (5 * x * x - 3);
    const double y40 = 3. / 16 / std::sqrt(M_PI) *
                       (35 * x * x * x * x - 30 * x * x + 3);
    return R * (1 +
                b2 * (std::cos(g) * y20 + std::sqrt(2.) * std::sin(g) * y22) +
                b3 * y30 + b4 * y40);
  }
  double density(double r, double x, double phi) const {
    if (d == 0) return r < radius(x, phi) ? 1 : 0;
    return 1 / (1 + std::exp((r - radius(x, phi)) / d));
  }
  // integral of r^2 density
  double shell(double x, double phi) const {
    const double a = radius(x, phi);
    if (d == 0) return a * a * a / 3;
    double s = 0, e = std::exp(-a / d), p = 1;
    for (int k = 1; k < 60; k++) {
      p *= -e;
      s -= p / (k * k * k);
      if (std::abs(p) < 1e-17) break;
    }
    return a * a * a / 3 + M_PI * M_PI * a * d * d / 3 + 2 * d * d * d * s;
  }
  // sums over directions
  template <typename F>
  double average(F f, int nx = 48, int np = 24) const {
    double s = 0;
    if (!deformed()) nx = np = 1;
    if (g == 0) np = 1;
    static const double gx[2] = {0.339981043584856, 0.861136311594053};
    static const double gw[2] = {0.652145154862546, 0.347854845137454};
    for (int i = 0; i < nx; i++)
      for (int k = 0; k < 4; k++) {
        const double x = -1 + (i + .5) * 2. / nx +
                         (k < 2 ? gx[k] : -gx[k - 2]) / nx;
        const double w = gw[k % 2] / 2 / nx;
        for (int j = 0; j < np; j++)
          s += w / np * f(x, 2 * M_PI * (j + .5) / np);
      }
    return s;
  }
  double volume() const {
    return 4 * M_PI *
           average([this](double x, double p) { return shell(x, p); });
  }
};

struct List {
  int p = 0, n = 0;
  std::map<PdgCode, int> map() const {
    std::map<PdgCode, int> m;
    if (p > 0) m[pdg::p] = p;
    if (n > 0) m[pdg::n] = n;
    return m;
  }
  std::string yaml() const {
    std::ostringstream s;
    s << "{2212: " << p << ", 2112: " << n << "}";
    return s.str();
  }
  int A() const { return p + n; }
};
const std::vector<List> kKnown = {{92, 146}, {82, 126}, {79, 118}, {54, 75},
                                  {29, 34},  {40, 56},  {44, 52}};
List any_list(pbt::Case &c) {
  switch (c.below(4)) {
    case 0:
      return kKnown[c.below(kKnown.size())];
    case 1: {
      // isobars of the nuclei with special parameters
      List l = kKnown[c.below(kKnown.size())];
      const int k = static_cast<int>(c.range(1, 5));
      return {l.p - k, l.n + k};
    }
    case 2:
      return {static_cast<int>(c.range(1, 9)), static_cast<int>(c.below(10))};
    default:
      return {static_cast<int>(c.range(1, 90)),
              static_cast<int>(c.range(0, 140))};
  }
}
// radius and diffusiveness used without any input, as documented
Shape automatic(const List &l, int tests) {
  Shape s;
  const int A = l.A(), Z = l.p;
  s.d = 0.54;
  s.R = 1.12 * std::cbrt(A) - 0.86 / std::cbrt(A);
  if (A == 1) {
    s.R = tests == 1 ? 0 : 1 - std::exp(-(tests - 1) * .1);
    s.d = tests == 1 ? -1 : 0.02;
  } else if (A <= 16) {
    s.R = 1.2 * std::cbrt(A);
    s.d = 0.545;
  } else if (A == 238 && Z == 92) {
    s.R = 6.86, s.d = 0.556;
  } else if (A == 208 && Z == 82) {
    s.R = 6.67, s.d = 0.54;
  } else if (A == 197 && Z == 79) {
    s.R = 6.55, s.d = 0.523;
  } else if (A == 129 && Z == 54) {
    s.R = 5.36, s.d = 0.59;
  } else if (A == 63 && Z == 29) {
    s.R = 4.20641, s.d = 0.5977;
  } else if (A == 96 && Z == 40) {
    s.R = 5.02, s.d = 0.46;
  } else if (A == 96 && Z == 44) {
    s.R = 5.085, s.d = 0.46;
  }
  return s;
}
bool automatic_deformation(const List &l, Shape *s) {
  const int A = l.A(), Z = l.p;
  if (A == 238 && Z == 92) {
    s->b2 = 0.28, s->b4 = 0.093;
  } else if (A == 208 && Z == 82) {
  } else if (A == 197 && Z == 79) {
    s->b2 = -0.131, s->b4 = -0.031;
  } else if (A == 129 && Z == 54) {
    s->b2 = 0.162, s->b4 = -0.003;
  } else if (A == 63 && Z == 29) {
    s->b2 = 0.162, s->b4 = -0.006;
  } else if (A == 96 && Z == 40) {
  } else if (A == 96 && Z == 44) {
    s->b2 = 0.158;
  } else {
    return false;
  }
  return true;
}
std::string side(bool projectile) {
  return projectile ? "Projectile" : "Target";
}
Configuration collider(bool projectile, const std::string &content) {
  return kit::config("{Modi: {Collider: {" + side(projectile) + ": {" +
                     content + "}}}}");
}
void ks(pbt::Case &c, const std::vector<double> &v,
        const std::function<double(double)> &cdf, const char *what,
        double slack = 0.) {
  const double d = stat_::ks(v, cdf);
  PBT_CHECK(c, d < stat_::ks_limit(v.size()) + slack,
            what << " does not have the stated distribution: KS distance " << d
                 << " with " << v.size() << " samples");
}
double uniform_cdf(double x) { return std::min(1., x); }
// positions sampled according to the shape
void positions(pbt::Case &c, Nucleus *nucl, const Shape &s, size_t n) {
  std::vector<double> r, x, phi;
  for (size_t i = 0; i < n; i++) {
    const ThreeVector v = nucl->distribute_nucleon();
    PBT_CHECK(c, std::isfinite(v.sqr()), "position " << kit::show(v));
    r.push_back(v.abs());
    x.push_back(v.abs() > 0 ? v.x3() / v.abs() : 0);
    phi.push_back(std::atan2(v.x2(), v.x1()));
    if (phi.back() < 0) phi.back() += 2 * M_PI;
  }
  if (s.R == 0) {
    for (double a : r) PBT_CHECK(c, a == 0, "a single particle at r = " << a);
    return;
  }
  const double rmax = s.R * 2 + 40 * s.d;
  stat_::Cdf rc(
      [&](double a) {
        return a * a * s.average([&](double y, double p) {
          return s.density(a, y, p);
        }, 12, 12);
      },
      0, rmax, s.deformed() ? 400 : 4000);
  ks(c, r, rc, "distance from the centre", s.deformed() ? 2e-3 : 2e-4);
  stat_::Cdf xc(
      [&](double y) {
        double f = 0;
        for (int j = 0; j < 24; j++) f += s.shell(y, 2 * M_PI * (j + .5) / 24);
        return f;
      },
      -1, 1, 200);
  ks(c, x, xc, "polar angle", 1e-3);
  stat_::Cdf pc(
      [&](double p) {
        double f = 0;
        for (int j = 0; j < 100; j++) f += s.shell(-1 + (j + .5) * .02, p);
        return f;
      },
      0, 2 * M_PI, 200);
  ks(c, phi, pc, "azimuth", 1e-3);
}
FourVector center_of(const Nucleus &n) {
  FourVector s;
  size_t k = 0;
  for (auto i = n.cbegin(); i != n.cend(); ++i, ++k) s += i->position();
  return s / static_cast<double>(k);
}
// the rotation about z, then the rotated x and the rotated z axis
ThreeVector rotated(ThreeVector v, double phi, double theta, double psi) {
  const auto about_z = [](const ThreeVector &a, double f) {
    return ThreeVector(a.x1() * std::cos(f) - a.x2() * std::sin(f),
                       a.x1() * std::sin(f) + a.x2() * std::cos(f), a.x3());
  };
  const auto about_x = [](const ThreeVector &a, double f) {
    return ThreeVector(a.x1(), a.x2() * std::cos(f) - a.x3() * std::sin(f),
                       a.x2() * std::sin(f) + a.x3() * std::cos(f));
  };
  return about_z(about_x(about_z(v, psi), theta), phi);
}
ThreeVector derotated(ThreeVector v, double phi, double theta, double psi) {
  return rotated(v, -psi, -theta, -phi);
}
void composition(pbt::Case &c, const Nucleus &n, const List &l, int tests) {
  int np = 0, nn = 0, other = 0;
  double m = 0;
  for (auto i = n.cbegin(); i != n.cend(); ++i) {
    if (i->pdgcode() == pdg::p) {
      np++;
    } else if (i->pdgcode() == pdg::n) {
      nn++;
    } else {
      other++;
    }
    m += i->type().mass();
  }
  PBT_CHECK(c, np == l.p * tests && nn == l.n * tests && other == 0,
            "nucleus of " << l.yaml() << " with " << tests
                          << " test particles has " << np << " protons, " << nn
                          << " neutrons");
  PBT_CHECK(c,
            static_cast<int>(n.number_of_particles()) == l.A() &&
                static_cast<int>(n.number_of_protons()) == l.p &&
                static_cast<int>(n.size()) == l.A() * tests,
            "number of particles " << n.number_of_particles() << ", protons "
                                   << n.number_of_protons() << ", size "
                                   << n.size());
  PBT_CLOSE(c, n.mass(), m / tests, 1e-12, 0, "mass of the nucleus");
}
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
std::string num(double x) {
  char b[40];
  std::snprintf(b, sizeof(b), "%.17g", x);
  return b;
}
}  // namespace

PBT_PROP(nucleus, 60, 400) {
  const List l = any_list(c);
  const int tests = c.chance(0.5) ? 1 : static_cast<int>(c.range(1, 20));
  const bool proj = c.flip();
  Shape s = automatic(l, tests);
  std::string extra;
  bool manual = false;
  double rho = 0;
  if (l.A() > 1 && c.chance(0.5)) {
    manual = true;
    s.R = c.uniform(0.5, 9.);
    s.d = c.chance(0.2) ? 0. : c.logreal(0.01, 2.5);
    rho = c.uniform(0.05, 0.4);
    extra = ", Radius: " + num(s.R) + ", Diffusiveness: " + num(s.d) +
            ", Saturation_Density: " + num(rho);
  }
  c.note() << l.yaml() << " tests " << tests << extra;
  kit::seed(c.seed32());
  std::unique_ptr<Nucleus> n;
  if (!manual && c.flip()) {
    n = std::make_unique<Nucleus>(l.map(), tests);
  } else {
    auto cfg = collider(proj, "Particles: " + l.yaml() + extra);
    n = std::make_unique<Nucleus>(cfg, tests);
  }
  composition(c, *n, l, tests);
  PBT_CLOSE(c, n->get_nuclear_radius(), s.R, 1e-12, 1e-12, "radius");
  PBT_CLOSE(c, n->get_diffusiveness(), s.d, 1e-12, 0, "diffusiveness");
  if (manual) {
    PBT_CLOSE(c, n->get_saturation_density(), rho, 1e-12, 0,
              "saturation density");
  } else if (l.A() > 1) {
    rho = l.A() / s.volume();
    PBT_CLOSE(c, n->get_saturation_density(), rho, 3e-3, 0,
              "saturation density (integral is the number of nucleons)");
  }
  if (l.A() > 1 && s.d > 0)
    for (int k = 0; k < 5; k++) {
      const double r = c.uniform(0., 15.);
      PBT_CLOSE(c, n->nucleon_density(r, c.uniform(-1., 1.), 0.3),
                rho * s.density(r, 0, 0), 2e-4, 1e-300, "density");
    }
  if (s.d >= 0) positions(c, n.get(), s, 20000);
  // arranged nucleons are at rest, around the origin
  n->arrange_nucleons();
  const FourVector z = center_of(*n);
  PBT_CHECK(c, z.x0() == 0 && z.threevec().abs() < 1e-12,
            "centre of the nucleus at " << kit::show(z));
  for (auto i = n->cbegin(); i != n->cend(); ++i)
    PBT_CHECK(c,
              i->momentum() == FourVector(i->pole_mass(), 0, 0, 0) &&
                  i->position().x0() == 0,
              "nucleon not at rest " << kit::show(*i));
  c.label(manual ? (s.d == 0 ? "hard sphere" : "manual") : "automatic");
  if (tests > 1) c.label("test particles");
  c.nontrivial(l.A() > 1);
}

PBT_PROP(deformed, 40, 300) {
  List l = kKnown[c.below(kKnown.size())];
  const bool proj = c.flip();
  Shape s;
  std::string extra, where = "Deformed: {Automatic: ";
  double rho = 0;
  const bool autom = c.chance(0.3);
  bool given = false;
  if (autom) {
    s = automatic(l, 1);
    automatic_deformation(l, &s);
    where += "True";
  } else {
    if (c.flip()) l = any_list(c);
    if (l.A() < 2) l.n += 3;
    s = automatic(l, 1);
    if (c.chance(0.4)) {
      given = true;
      s.R = c.uniform(1., 8.);
      s.d = c.logreal(0.1, 2.);
      rho = c.uniform(0.05, 0.4);
      extra = ", Radius: " + num(s.R) + ", Diffusiveness: " + num(s.d) +
              ", Saturation_Density: " + num(rho);
    }
    where += "False";
    const int which = static_cast<int>(c.range(1, 7));
    const auto put = [&](const char *k, double *v, double max) {
      *v = c.uniform(-max, max);
      where += std::string(", ") + k + ": " + num(*v);
    };
    if (which & 1) {
      put("Beta_2", &s.b2, 0.6);
      if (c.flip()) put("Gamma", &s.g, M_PI);
    }
    if (which & 2) put("Beta_3", &s.b3, 0.3);
    if (which & 4) put("Beta_4", &s.b4, 0.2);
  }
  where += "}";
  double th = 0, ph = 0, ps = 0;
  if (c.chance(0.6)) {
    th = c.uniform(0., M_PI);
    ph = c.uniform(0., 2 * M_PI);
    ps = c.uniform(0., 2 * M_PI);
    const int which = static_cast<int>(c.range(1, 7));
    std::string o;
    const auto put = [&](const char *k, double v) {
      o += (o.empty() ? "" : ", ") + std::string(k) + ": " + num(v);
    };
    if (which & 1) put("Theta", th); else th = 0;
    if (which & 2) put("Phi", ph); else ph = 0;
    if (which & 4) put("Psi", ps); else ps = 0;
    where += ", Orientation: {" + o + "}";
  }
  c.note() << l.yaml() << extra << ", " << where;
  kit::seed(c.seed32());
  // the flag is read by the caller
  std::string cfg_text = "Particles: " + l.yaml() + extra + ", " + where;
  const int tests = 1 + 20000 / l.A();
  std::unique_ptr<Nucleus> n;
  {
    auto cfg = collider(proj, cfg_text);
    cfg.take(proj ? InputKeys::modi_collider_projectile_deformed_automatic
                  : InputKeys::modi_collider_target_deformed_automatic);
    n = std::make_unique<DeformedNucleus>(cfg, tests, autom);
  }
  composition(c, *n, l, tests);
  if (!given) rho = l.A() / s.volume();
  PBT_CLOSE(c, n->get_saturation_density(), rho, 3e-3, 0,
            "saturation density (integral is the number of nucleons)");
  for (int k = 0; k < 8; k++) {
    const double r = c.uniform(0., 12.), x = c.uniform(-1., 1.),
                 p = c.uniform(0., 2 * M_PI);
    PBT_CLOSE(c, n->nucleon_density(r, x, p), rho * s.density(r, x, p), 4e-3,
              1e-300, "density of a deformed nucleus");
  }
  positions(c, n.get(), s, 8000);
  n->arrange_nucleons();
  PBT_CHECK(c, center_of(*n).threevec().abs() < 1e-12, "centre not at 0");
  // Orientation: in the frame of the nucleus, the angles are as stated (up to
  // the shift that centres it)
  std::vector<double> x, phi, u, cp;
  n->generate_fermi_momenta();
  FourVector tot;
  for (auto i = n->cbegin(); i != n->cend(); ++i) {
    const ThreeVector v =
        derotated(i->position().threevec(), ph, th, ps);
    x.push_back(v.x3() / v.abs());
    phi.push_back(std::atan2(v.x2(), v.x1()));
    if (phi.back() < 0) phi.back() += 2 * M_PI;
    const double share =
        static_cast<double>(i->pdgcode() == pdg::p ? l.p : l.n) / l.A();
    const double pf = hbarc * std::cbrt(3 * M_PI * M_PI * rho * share *
                                        s.density(v.abs(), x.back(),
                                                  phi.back()));
    const double p = i->momentum().abs3();
    if (pf > 0.02) {
      u.push_back(p * p * p / (pf * pf * pf));
      cp.push_back(i->momentum().x3() / p);
    }
    tot += i->momentum();
    PBT_CLOSE(c, i->momentum().abs(), i->pole_mass(), 1e-9, 0,
              "nucleon off its mass shell");
  }
  PBT_CHECK(c, tot.threevec().abs() < 1e-10,
            "total momentum " << kit::show(tot));
  // the octupole moment moves the centre
  if (s.b3 == 0) {
    stat_::Cdf xc(
        [&](double y) {
          double f = 0;
          for (int j = 0; j < 24; j++)
            f += s.shell(y, 2 * M_PI * (j + .5) / 24);
          return f;
        },
        -1, 1, 200);
    ks(c, x, xc, "polar angle in the frame of the nucleus", 0.01);
    stat_::Cdf pc(
        [&](double p) {
          double f = 0;
          for (int j = 0; j < 100; j++) f += s.shell(-1 + (j + .5) * .02, p);
          return f;
        },
        0, 2 * M_PI, 200);
    ks(c, phi, pc, "azimuth in the frame of the nucleus", 0.01);
    if (u.size() > 500)
      ks(c, u, uniform_cdf, "cube of the momentum / local Fermi momentum",
         0.015);
  }
  ks(c, cp, [](double y) { return (1 + y) / 2; }, "direction of momenta",
     0.01);
  c.label(autom ? "automatic" : "manual");
  if (s.g != 0) c.label("triaxial");
  if (th != 0 || ph != 0 || ps != 0) c.label("rotated");
  c.nontrivial(s.deformed());
}

PBT_PROP(orientation, 12, 60) {
  // random rotations are isotropic, and new for each event
  kit::seed(c.seed32());
  const bool alpha = c.flip();
  const bool proj = c.flip();
  std::unique_ptr<Nucleus> n;
  if (alpha) {
    auto cfg = collider(proj,
                        "Particles: {2212: 8, 2112: 8}, Alpha_Clustered: "
                        "{Side_Length: 300}, Orientation: {Random_Rotation: "
                        "True}");
    n = std::make_unique<AlphaClusteredNucleus>(cfg, 1, false);
  } else {
    auto cfg = collider(proj,
                        "Particles: {2212: 30, 2112: 30}, Radius: 4, "
                        "Diffusiveness: 0.01, Saturation_Density: 0.16, "
                        "Deformed: {Beta_3: 1.2}, Orientation: "
                        "{Random_Rotation: True}");
    n = std::make_unique<DeformedNucleus>(cfg, 1, false);
  }
  std::vector<double> x, phi;
  for (int k = 0; k < 1500; k++) {
    n->arrange_nucleons();
    ThreeVector axis;
    if (alpha) {
      axis = n->begin()->position().threevec();
    } else {
      // third moment along the axis of symmetry
      for (auto i = n->cbegin(); i != n->cend(); ++i) {
        const ThreeVector v = i->position().threevec();
        axis += v * v.sqr();
      }
    }
    x.push_back(axis.x3() / axis.abs());
    phi.push_back(std::atan2(axis.x2(), axis.x1()));
  }
  ks(c, x, [](double y) { return (1 + y) / 2; }, "cosine of the axis");
  ks(c, phi, [](double y) { return (y + M_PI) / (2 * M_PI); },
     "azimuth of the axis");
  c.label(alpha ? "alpha-clustered" : "deformed");
  c.nontrivial(true);
}

PBT_PROP(alpha, 40, 300) {
  kit::seed(c.seed32());
  const bool proj = c.flip();
  const bool autom = c.flip();
  const int tests = c.flip() ? 1 : static_cast<int>(c.range(1, 8));
  const double a = autom ? 3.42 : c.uniform(0.5, 20.);
  std::string text = "Particles: {2212: 8, 2112: 8}, Alpha_Clustered: {";
  text += autom ? "Automatic: True}"
                : "Automatic: False, Side_Length: " + num(a) + "}";
  double th = 0, ph = 0, ps = 0;
  if (c.flip()) {
    th = c.uniform(0., M_PI);
    ph = c.uniform(0., 2 * M_PI);
    ps = c.uniform(0., 2 * M_PI);
    text += ", Orientation: {Theta: " + num(th) + ", Phi: " + num(ph) +
            ", Psi: " + num(ps) + "}";
  }
  c.note() << text << " tests " << tests;
  auto cfg = collider(proj, text);
  cfg.take(proj ? InputKeys::modi_collider_projectile_alphaClustered_automatic
                : InputKeys::modi_collider_target_alphaClustered_automatic);
  AlphaClusteredNucleus n(cfg, tests, autom);
  const List l{8, 8};
  composition(c, n, l, tests);
  PBT_CLOSE(c, n.get_nuclear_radius(), 1.676, 1e-12, 0, "radius");
  PBT_CLOSE(c, n.get_diffusiveness(), 0.322, 1e-12, 0, "diffusiveness");
  // Clusters: particles are dealt to the vertices of a tetrahedron. Which
  // one is found from its mean position over many events.
  const int events = 400;
  std::vector<ThreeVector> mean(n.size());
  std::vector<std::vector<ThreeVector>> pos(n.size());
  for (int e = 0; e < events; e++) {
    n.arrange_nucleons();
    PBT_CHECK(c, center_of(n).threevec().abs() < 1e-12, "centre not at 0");
    size_t k = 0;
    for (auto i = n.cbegin(); i != n.cend(); ++i, ++k) {
      const ThreeVector v = derotated(i->position().threevec(), ph, th, ps);
      mean[k] += v / events;
      pos[k].push_back(v);
    }
  }
  // group by cluster
  std::vector<ThreeVector> centre;
  std::vector<std::vector<size_t>> members;
  if (a > 2.) {
    for (size_t k = 0; k < n.size(); k++) {
      size_t g = 0;
      while (g < centre.size() && (mean[k] - centre[g]).abs() > 0.5 * a) g++;
      if (g == centre.size()) {
        centre.push_back(mean[k]);
        members.emplace_back();
      }
      members[g].push_back(k);
    }
    PBT_CHECK(c, centre.size() == 4,
              "nucleons form " << centre.size() << " clusters, not four");
    std::vector<double> r;
    Shape s;
    s.R = 1.676;
    s.d = 0.322;
    for (auto &m : members) {
      int np = 0;
      for (size_t k : m)
        np += (n.cbegin() + static_cast<int>(k))->pdgcode() == pdg::p;
      PBT_CHECK(c, m.size() == static_cast<size_t>(4 * tests) && np == 2 * tests,
                "a cluster of " << m.size() << " nucleons, " << np
                                << " protons");
      ThreeVector z;
      for (size_t k : m) z += mean[k] / static_cast<double>(m.size());
      centre[&m - &members[0]] = z;
    }
    // mean positions are known up to sigma / sqrt(events * 4)
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < i; j++)
        PBT_CHECK(c, std::abs((centre[i] - centre[j]).abs() - a) < 0.35,
                  "distance of clusters " << (centre[i] - centre[j]).abs()
                                          << " instead of " << a);
    // within a cluster, the profile of helium (up to the centring)
    if (tests > 3) {
      for (size_t g = 0; g < 4; g++)
        for (size_t k : members[g])
          for (const auto &v : pos[k]) r.push_back((v - centre[g]).abs());
      stat_::Cdf rc(
          [&](double y) { return y * y * s.density(y, 0, 0); }, 0, 15, 2000);
      // particles of an event are shifted together
      const double d = stat_::ks(r, rc);
      PBT_CHECK(c, d < 0.03, "profile of a cluster, KS distance " << d);
    }
    c.nontrivial(true);
  }
  c.label(autom ? "automatic" : "manual");
}

PBT_PROP(custom, 60, 400) {
  kit::seed(c.seed32());
  char name[64];
  std::snprintf(name, sizeof(name), "nucleus.%d", static_cast<int>(getpid()));
  List l{static_cast<int>(c.range(1, 12)), static_cast<int>(c.below(12))};
  const int tests = c.chance(0.6) ? 1 : static_cast<int>(c.range(2, 4));
  const int stored = static_cast<int>(c.range(1, 4));
  const int bad = static_cast<int>(c.below(12));  // 0...3: defective files
  const bool newline = c.flip();
  std::vector<std::vector<ThreeVector>> nuclei;
  std::vector<std::vector<int>> charges;
  std::string text;
  for (int k = 0; k < stored; k++) {
    nuclei.emplace_back();
    charges.emplace_back();
    int np = l.p * tests, nn = l.n * tests;
    while (np + nn > 0) {
      const bool proton =
          nn == 0 || (np > 0 && c.below(static_cast<size_t>(np + nn)) <
                                    static_cast<size_t>(np));
      (proton ? np : nn)--;
      const ThreeVector v = kit::position3(c, 8.);
      nuclei.back().push_back(v);
      charges.back().push_back(proton);
      int q = proton;
      if (bad == 0 && np + nn == 0 && k == 0) q = 1 - q;  // wrong composition
      if (bad == 1 && np + nn == 0 && k == 0) q = 2;
      text += num(v.x1()) + " " + num(v.x2()) + "  " + num(v.x3()) + " 0 ";
      text += bad == 2 && np + nn == 0 && k == 0 ? "" : std::to_string(q);
      text += "\n";
    }
  }
  if (!newline) text.pop_back();
  {
    std::ofstream f(name);
    f << text;
  }
  const bool proj = c.flip();
  c.note() << l.yaml() << " tests " << tests << " stored " << stored
           << " defect " << bad << " final newline " << newline;
  auto cfg = collider(
      proj, "Particles: " + l.yaml() + ", Custom: {File_Directory: ., "
                                       "File_Name: " +
                (bad == 3 ? "no-such-file" : std::string(name)) + "}");
  std::unique_ptr<CustomNucleus> n;
  const bool refused =
      throws([&]() { n = std::make_unique<CustomNucleus>(cfg, tests, false); });
  if (bad < 4) {
    std::remove(name);
    PBT_CHECK(c, refused, "defective file " << bad << " was accepted");
    c.label("defective file");
    return;
  }
  if (refused) std::remove(name);
  PBT_CHECK(c, !refused, "correct file refused");
  composition(c, *n, l, tests);
  const Shape s = automatic(l, tests);
  PBT_CLOSE(c, n->get_nuclear_radius(), s.R, 1e-12, 1e-12, "radius");
  const int events = stored + static_cast<int>(c.range(1, 5));
  for (int e = 0; e < events; e++) {
    n->arrange_nucleons();
    const size_t k = static_cast<size_t>(e % stored);
    composition(c, *n, l, tests);
    std::vector<ThreeVector> v;
    ThreeVector z, zr;
    size_t j = 0;
    for (auto i = n->cbegin(); i != n->cend(); ++i, ++j) {
      v.push_back(i->position().threevec());
      zr += nuclei[k][j];
      PBT_CHECK(c, (i->pdgcode() == pdg::p) == (charges[k][j] == 1),
                "event " << e << ": nucleon " << j << " of the file is a "
                         << i->pdgcode());
      PBT_CHECK(c, i->momentum() == FourVector(i->pole_mass(), 0, 0, 0),
                "nucleon not at rest");
      z += v.back();
    }
    PBT_CHECK(c, z.abs() < 1e-10, "centre not at 0");
    zr = zr / static_cast<double>(v.size());
    // rigid motion: all distances and orientations as in the file
    for (size_t i = 0; i < v.size(); i++) {
      PBT_CLOSE(c, v[i].abs(), (nuclei[k][i] - zr).abs(), 1e-9, 1e-9,
                "event " << e << ": distance from the centre");
      const size_t m = (i + 1) % v.size(), m2 = (i + 2) % v.size();
      PBT_CLOSE(c, (v[i] - v[m]).abs(), (nuclei[k][i] - nuclei[k][m]).abs(),
                1e-9, 1e-9, "event " << e << ": distance of nucleons");
      PBT_CLOSE(c, v[i] * v[m].cross_product(v[m2]),
                (nuclei[k][i] - zr) *
                    (nuclei[k][m] - zr).cross_product(nuclei[k][m2] - zr),
                1e-8, 1e-7, "event " << e << ": handedness");
    }
  }
  std::remove(name);
  if (!newline) c.label("no newline at the end");
  if (events > stored) c.label("file read again");
  c.nontrivial(l.A() > 2);
}

PBT_PROP(custom_rotation, 8, 30) {
  kit::seed(c.seed32());
  char name[64];
  std::snprintf(name, sizeof(name), "triple.%d", static_cast<int>(getpid()));
  {
    std::ofstream f(name);
    f << "2 0 0 0 1\n-1 1 0 0 1\n-1 -1 0 0 0\n";
  }
  auto cfg = collider(true, "Particles: {2212: 2, 2112: 1}, Custom: "
                            "{File_Directory: ., File_Name: " +
                                std::string(name) + "}");
  CustomNucleus n(cfg, 1, false);
  std::vector<double> x, f, y, g;
  for (int e = 0; e < 4000; e++) {
    n.arrange_nucleons();
    const ThreeVector a = n.begin()->position().threevec() / 2.;
    const ThreeVector b = ((n.begin() + 1)->position().threevec() -
                           (n.begin() + 2)->position().threevec()) / 2.;
    const ThreeVector d = a.cross_product(b);
    x.push_back(a.x3());
    f.push_back(std::atan2(a.x2(), a.x1()));
    y.push_back(d.x3());
    // angle of b about a, from the plane of a and z
    const ThreeVector u = ThreeVector(0, 0, 1).cross_product(a);
    g.push_back(std::atan2(b * a.cross_product(u), b * u));
  }
  std::remove(name);
  const auto ct = [](double t) { return (1 + t) / 2; };
  const auto an = [](double t) { return (t + M_PI) / (2 * M_PI); };
  ks(c, x, ct, "cosine of the first axis");
  ks(c, f, an, "azimuth of the first axis");
  ks(c, y, ct, "cosine of the normal");
  ks(c, g, an, "rotation about the first axis");
  c.nontrivial(true);
}

PBT_PROP(fermi, 40, 300) {
  // Momenta within a spherical nucleus, with other hadrons at rest
  kit::seed(c.seed32());
  const List l{static_cast<int>(c.range(20, 100)),
               static_cast<int>(c.range(10, 150))};
  const int tests = static_cast<int>(c.range(4, 10));
  auto m = l.map();
  const int strange = c.flip() ? static_cast<int>(c.below(4)) : 0;
  if (strange) m[PdgCode(0x3122)] = strange;
  Nucleus n(m, tests);
  n.arrange_nucleons();
  n.generate_fermi_momenta();
  Shape s;
  s.R = n.get_nuclear_radius();
  s.d = n.get_diffusiveness();
  const double rho = n.get_saturation_density();
  std::vector<double> up, un, x;
  ThreeVector tot;
  for (auto i = n.cbegin(); i != n.cend(); ++i) {
    const double p = i->momentum().abs3();
    tot += i->momentum().threevec();
    if (i->pdgcode() != pdg::p && i->pdgcode() != pdg::n) {
      PBT_CHECK(c, p == 0, "a hyperon got a Fermi momentum");
      continue;
    }
    const bool proton = i->pdgcode() == pdg::p;
    PBT_CLOSE(c, i->momentum().abs(), i->pole_mass(), 1e-9, 0, "mass shell");
    const double dens = rho * s.density(i->position().abs3(), 0, 0) *
                        (proton ? l.p : l.n) / l.A();
    const double pf = hbarc * std::cbrt(3 * M_PI * M_PI * dens);
    if (pf < 0.02) continue;
    (proton ? up : un).push_back(p * p * p / (pf * pf * pf));
    x.push_back(i->momentum().x3() / p);
  }
  PBT_CHECK(c, tot.abs() < 1e-9, "total momentum " << kit::show(tot));
  ks(c, up, uniform_cdf, "cube of the momentum of protons", 0.05);
  ks(c, un, uniform_cdf, "cube of the momentum of neutrons", 0.05);
  ks(c, x, [](double y) { return (1 + y) / 2; }, "direction", 0.02);
  // boost: momenta are transformed, positions contracted
  std::vector<ParticleData> before(n.cbegin(), n.cend());
  const double v = c.flip() ? c.uniform(-0.99, 0.99)
                            : std::sqrt(1 - 1 / std::pow(c.logreal(1.001, 500.), 2));
  n.boost(v);
  const double ga = 1 / std::sqrt(1 - v * v);
  for (size_t k = 0; k < before.size(); k++) {
    const auto &a = before[k];
    const auto &b = *(n.cbegin() + static_cast<int>(k));
    const FourVector q = a.momentum();
    const FourVector e(ga * (q.x0() + v * q.x3()), q.x1(), q.x2(),
                       ga * (q.x3() + v * q.x0()));
    for (int mu = 0; mu < 4; mu++)
      PBT_CLOSE(c, b.momentum()[mu], e[mu], 1e-9, 1e-9 * ga,
                "momentum of a boosted nucleus, component " << mu);
    const FourVector r = a.position();
    const FourVector w(r.x0(), r.x1(), r.x2(), r.x3() / ga);
    for (int mu = 0; mu < 4; mu++)
      PBT_CLOSE(c, b.position()[mu], w[mu], 1e-9, 1e-12,
                "contraction of a boosted nucleus, component " << mu);
  }
  c.label(strange ? "with hyperons" : "nucleons");
  c.nontrivial(true);
}

namespace {
struct Beam {
  std::string top, proj, targ;  // configuration text
  double snn = 0;
  bool valid = true;
};
// energy input, and what it means
Beam beam(pbt::Case &c, double ma, double mb) {
  Beam b;
  const int option = static_cast<int>(c.below(7));
  const double low = ma + mb;
  const auto s_of = [&](double ea, double pa, double eb, double pb) {
    return std::sqrt((ea + eb) * (ea + eb) - (pa + pb) * (pa + pb));
  };
  const auto mom = [](double e, double m) { return std::sqrt(e * e - m * m); };
  const bool bad = c.chance(0.1);
  const double k1 = c.logreal(0.05, 200.), k2 = c.logreal(0.05, 200.);
  b.valid = !bad;
  switch (option) {
    case 0: {
      b.snn = bad ? low * c.uniform(0.1, 1.) : low + k1;
      b.top = "Sqrtsnn: " + num(b.snn);
      break;
    }
    case 1: {
      const double e = bad ? (c.flip() ? -k1 : ma * c.uniform(0.1, 0.999))
                           : ma + k1;
      b.snn = bad ? 0 : s_of(e, mom(e, ma), mb, 0);
      b.top = "E_Tot: " + num(e);
      break;
    }
    case 2: {
      b.snn = s_of(ma + k1, mom(ma + k1, ma), mb, 0);
      b.top = "E_Kin: " + num(bad ? -k1 : k1);
      break;
    }
    case 3: {
      b.snn = s_of(std::hypot(k1, ma), k1, mb, 0);
      b.top = "P_Lab: " + num(bad ? -k1 : k1);
      break;
    }
    case 4: {
      double e1 = ma + k1, e2 = mb + k2;
      b.snn = s_of(e1, mom(e1, ma), e2, -mom(e2, mb));
      if (bad) (c.flip() ? e1 : e2) *= -1;
      if (bad && c.flip()) e1 = ma * 0.7;
      b.proj = ", E_Tot: " + num(e1);
      b.targ = ", E_Tot: " + num(e2);
      break;
    }
    case 5: {
      b.snn = s_of(ma + k1, mom(ma + k1, ma), mb + k2, -mom(mb + k2, mb));
      b.proj = ", E_Kin: " + num(bad ? -k1 : k1);
      b.targ = ", E_Kin: " + num(k2);
      break;
    }
    default: {
      b.snn = s_of(std::hypot(k1, ma), k1, std::hypot(k2, mb), -k2);
      b.proj = ", P_Lab: " + num(k1);
      b.targ = ", P_Lab: " + num(bad ? -k2 : k2);
    }
  }
  return b;
}
}  // namespace

PBT_PROP(collision, 150, 1500) {
  kit::seed(c.seed32());
  const List la = any_list(c), lb = any_list(c);
  kit::Params par;
  par.testparticles = c.chance(0.6) ? 1 : static_cast<int>(c.range(2, 5));
  const bool spin = c.chance(0.4);
  if (spin) par.spin = SpinInteractionType::On;
  const double mp = ParticleType::find(pdg::p).mass(),
               mn = ParticleType::find(pdg::n).mass();
  const double Ma = la.p * mp + la.n * mn, Mb = lb.p * mp + lb.n * mn;
  const double ma = Ma / la.A(), mb = Mb / lb.A();
  const Beam b = beam(c, ma, mb);
  const int frame = static_cast<int>(c.below(4));
  static const char *frames[] = {"", "center of velocity", "center of mass",
                                 "fixed target"};
  const int fermi = static_cast<int>(c.below(3));
  static const char *fermis[] = {"off", "on", "frozen"};
  const double dist = c.flip() ? 4. : c.uniform(0., 20.);
  std::string top = b.top;
  const auto add = [&top](const std::string &s) {
    top += (top.empty() ? "" : ", ") + s;
  };
  if (frame > 0)
    add(std::string("Calculation_Frame: \"") + frames[frame] + "\"");
  if (fermi > 0 || c.flip()) add(std::string("Fermi_Motion: ") + fermis[fermi]);
  if (dist != 4. || c.flip()) add("Initial_Distance: " + num(dist));
  // impact parameter
  const int imp = static_cast<int>(c.below(3));
  double bmin = 0, bmax = 0;
  bool plane = false;
  if (imp > 0) {
    std::string s;
    if (imp == 1) {
      bmin = bmax = c.uniform(0., 15.);
      s = "Value: " + num(bmin);
    } else {
      bmax = c.uniform(0., 15.);
      s = "Max: " + num(bmax);
    }
    plane = c.flip();
    if (plane) s += ", Random_Reaction_Plane: True";
    add("Impact: {" + s + "}");
  }
  const std::string text =
      "Projectile: {Particles: " + la.yaml() + b.proj +
      "}, Target: {Particles: " + lb.yaml() + b.targ + "}, " + top;
  c.note() << text << " tests " << par.testparticles;
  std::unique_ptr<ColliderModus> modus;
  const auto ep = par.make();
  const bool refused = throws([&]() {
    modus = std::make_unique<ColliderModus>(
        kit::config("{Modi: {Collider: {" + text + "}}}"), ep);
  });
  if (!b.valid) {
    PBT_CHECK(c, refused, "impossible beam energy accepted");
    c.label("impossible energy");
    return;
  }
  PBT_CHECK(c, !refused, "valid input refused");
  PBT_CLOSE(c, modus->sqrt_s_NN(), b.snn, 1e-9, 0, "energy per nucleon pair");
  const double tau = (modus->nuclei_passing_time());
  const Shape sa = automatic(la, par.testparticles),
              sb = automatic(lb, par.testparticles);
  if (b.snn > 2 * nucleon_mass + 1e-3) {
    const double gcm = b.snn / (2 * nucleon_mass);
    PBT_CLOSE(c, tau, (sa.R + sb.R) / std::sqrt(gcm * gcm - 1), 1e-6, 1e-12,
              "passing time");
  }
  for (int event = 0; event < 2; event++) {
    modus->sample_impact();
    const double bb = modus->impact_parameter();
    PBT_CHECK(c, bb >= bmin - 1e-12 && bb <= bmax + 1e-12,
              "impact parameter " << bb << " not in [" << bmin << ", " << bmax
                                  << "]");
    Particles ps;
    const double t0 = modus->initial_conditions(&ps, ep);
    const size_t nt = static_cast<size_t>(par.testparticles);
    PBT_CHECK(c,
              ps.size() == nt * static_cast<size_t>(la.A() + lb.A()),
              "number of particles " << ps.size());
    std::vector<ParticleData> P[2];
    int np[2] = {0, 0};
    FourVector tot[2], cen[2];
    for (const ParticleData &p : ps) {
      PBT_CHECK(c,
                p.belongs_to() == BelongsTo::Projectile ||
                    p.belongs_to() == BelongsTo::Target,
                "event " << event << ": a nucleon belongs to no nucleus");
      const int k = p.belongs_to() == BelongsTo::Projectile ? 0 : 1;
      P[k].push_back(p);
      np[k] += p.pdgcode() == pdg::p;
      tot[k] += p.momentum() / par.testparticles;
      cen[k] += p.position();
      PBT_CHECK(c, p.position().x0() == t0 && p.formation_time() == t0,
                "time of a nucleon " << p.position().x0() << ", formed "
                                     << p.formation_time() << ", start at "
                                     << t0);
      PBT_CLOSE(c, p.momentum().sqr(),
                std::pow(p.pole_mass(), 2), 0,
                1e-9 * std::pow(p.momentum().x0(), 2), "mass shell");
      if (spin) {
        const FourVector s = p.spin_vector();
        PBT_CHECK(c, std::isfinite(s.x0()) && s.threevec().abs() > 0,
                  "event " << event << ": a nucleon has the spin vector "
                           << kit::show(s));
        PBT_CLOSE(c, s.Dot(p.momentum()), 0., 0,
                  1e-7 * s.threevec().abs() * p.momentum().x0(),
                  "spin vector not orthogonal to the momentum");
      }
    }
    PBT_CHECK(c,
              P[0].size() == nt * static_cast<size_t>(la.A()) &&
                  P[1].size() == nt * static_cast<size_t>(lb.A()) &&
                  np[0] == la.p * par.testparticles &&
                  np[1] == lb.p * par.testparticles,
              "projectile of " << P[0].size() << " nucleons, " << np[0]
                               << " protons; target of " << P[1].size()
                               << ", " << np[1]);
    cen[0] /= static_cast<double>(P[0].size());
    cen[1] /= static_cast<double>(P[1].size());
    // velocities
    const double s = b.snn * b.snn;
    const double grel = (s - ma * ma - mb * mb) / (2 * ma * mb);
    const double vrel = std::sqrt(1 - 1 / (grel * grel));
    double va, vb;
    const int f = frame == 0 ? 1 : frame;
    if (f == 3) {
      va = vrel, vb = 0;
    } else if (f == 1) {
      va = std::sqrt((grel - 1) / (grel + 1)), vb = -va;
    } else {
      const double S = Ma * Ma + Mb * Mb + 2 * grel * Ma * Mb;
      const double pcm = Ma * Mb * grel * vrel / std::sqrt(S);
      va = pcm / std::hypot(pcm, Ma);
      vb = -pcm / std::hypot(pcm, Mb);
    }
    const double v[2] = {va, vb};
    const double mass[2] = {Ma, Mb};
    const double A[2] = {static_cast<double>(la.A()),
                         static_cast<double>(lb.A())};
    const Shape *sh[2] = {&sa, &sb};
    const double eps = 1e-7;
    for (int k = 0; k < 2; k++) {
      const double g = 1 / std::sqrt(1 - v[k] * v[k]);
      if (fermi == 0) {
        PBT_CLOSE(c, tot[k].x3(), g * v[k] * mass[k], eps, 1e-7 * mass[k],
                  "momentum of nucleus " << k);
        for (const auto &p : P[k])
          PBT_CHECK(c,
                    std::abs(p.velocity().x3() - v[k]) < eps &&
                        p.velocity().x1() == 0 && p.velocity().x2() == 0,
                    "velocity of a nucleon " << kit::show(p.velocity())
                                             << " instead of " << v[k]);
      } else {
        // internal momenta add up to zero in the rest frame
        PBT_CHECK(c,
                  std::abs(tot[k].x1()) < 1e-8 * mass[k] &&
                      std::abs(tot[k].x2()) < 1e-8 * mass[k] &&
                      std::abs(tot[k].x3() - v[k] * tot[k].x0()) <
                          1e-7 * tot[k].x0(),
                  "momentum of nucleus " << k << " " << kit::show(tot[k])
                                         << ", velocity " << v[k]);
        if (A[k] > 1)
          PBT_CHECK(c, tot[k].x0() / g > mass[k] * (1 + 1e-6),
                    "no Fermi motion in nucleus " << k);
      }
      // place: the surfaces touch at t = 0 and z = 0
      const double sign = k == 0 ? -1 : 1;
      const double z0 = cen[k].x3() - v[k] * t0;
      PBT_CLOSE(c, z0,
                sign * (sh[k]->R + std::max(0., sh[k]->d)) / g, 1e-6,
                1e-6 * (1 + dist), "place of nucleus " << k << " at t = 0");
      const double x = cen[k].x1(), y = cen[k].x2();
      PBT_CLOSE(c, std::hypot(x, y), bb / 2, 1e-7, 1e-7,
                "transverse place of nucleus " << k);
      if (!plane)
        PBT_CHECK(c, std::abs(y) < 1e-9 && x * sign <= 1e-9,
                  "nucleus " << k << " at x = " << x << ", y = " << y);
      // contraction
      double xx = 0, yy = 0, zz = 0;
      for (const auto &p : P[k]) {
        xx += std::pow(p.position().x1() - x, 2);
        yy += std::pow(p.position().x2() - y, 2);
        zz += std::pow(p.position().x3() - cen[k].x3(), 2);
      }
      if (P[k].size() > 150) {
        zz *= g * g;
        const double n = static_cast<double>(P[k].size());
        // relative error of a variance of a compact distribution
        const double err = 7.5 * std::sqrt(2.5 / n);
        PBT_CHECK(c, std::abs(zz / ((xx + yy) / 2) - 1) < err,
                  "Lorentz contraction of nucleus "
                      << k << ": " << zz / ((xx + yy) / 2));
      }
    }
    PBT_CHECK(c,
              std::abs(cen[0].x1() + cen[1].x1()) < 1e-7 &&
                  std::abs(cen[0].x2() + cen[1].x2()) < 1e-7,
              "nuclei are not opposite of the origin");
    PBT_CLOSE(c, t0 * va, -dist / 2, 1e-7, 1e-9, "start time");
    if (fermi == 2) {
      PBT_CLOSE(c, modus->velocity_projectile(), va, 1e-7, 1e-9,
                "beam velocity");
      PBT_CLOSE(c, modus->velocity_target(), vb, 1e-7, 1e-9, "beam velocity");
    } else {
      PBT_CHECK(c,
                modus->velocity_projectile() == 0 &&
                    modus->velocity_target() == 0,
                "beam velocity without frozen Fermi motion");
    }
  }
  c.label(frame == 0 ? "default frame" : frames[frame]);
  c.label(fermis[fermi]);
  if (spin) c.label("spin");
  c.nontrivial(la.A() > 1 && lb.A() > 1);
}

PBT_PROP(impact, 40, 200) {
  kit::seed(c.seed32());
  kit::Params par;
  const auto ep = par.make();
  const int mode = static_cast<int>(c.below(3));
  std::string s;
  double lo = 0, hi = 0;
  std::vector<double> bs, ys;
  if (mode < 2) {
    if (c.flip()) {
      hi = c.uniform(0.5, 20.);
      s = "Max: " + num(hi);
    } else {
      lo = c.uniform(0., 10.), hi = lo + c.uniform(0.1, 10.);
      const bool swap = c.chance(0.3);
      s = "Range: [" + num(swap ? hi : lo) + ", " + num(swap ? lo : hi) + "]";
    }
    if (mode == 1)
      s += ", Sample: uniform";
    else if (c.flip())
      s += ", Sample: quadratic";
  } else {
    const size_t n = 2 + c.below(6);
    double b = c.uniform(0., 3.);
    for (size_t i = 0; i < n; i++) {
      bs.push_back(b);
      b += c.uniform(0.3, 4.);
      ys.push_back(c.chance(0.2) ? 0. : c.chance(0.3) ? 5. : c.uniform(0., 10.));
    }
    ys[c.below(n)] = 10.;
    if (c.chance(0.2)) std::fill(ys.begin(), ys.end(), 3.);
    lo = bs.front(), hi = bs.back();
    // any order of the points
    std::vector<size_t> order(n);
    std::iota(order.begin(), order.end(), 0);
    if (c.chance(0.4))
      for (size_t i = n - 1; i > 0; i--)
        std::swap(order[i], order[c.below(i + 1)]);
    std::string v, y;
    for (size_t i : order) {
      v += (v.empty() ? "" : ", ") + num(bs[i]);
      y += (y.empty() ? "" : ", ") + num(ys[i]);
    }
    s = "Sample: custom, Values: [" + v + "], Yields: [" + y + "]";
  }
  s += ", Random_Reaction_Plane: True";
  c.note() << s;
  ColliderModus m(
      kit::config("{Modi: {Collider: {Projectile: {Particles: {2212: 1}}, "
                  "Target: {Particles: {2212: 1}}, Sqrtsnn: 5, Impact: {" +
                  s + "}}}}"),
      ep);
  const int n = 8000;
  std::vector<double> v, phi;
  for (int i = 0; i < n; i++) {
    m.sample_impact();
    v.push_back(m.impact_parameter());
    PBT_CHECK(c, v.back() >= lo - 1e-12 && v.back() <= hi + 1e-12,
              "impact parameter " << v.back() << " not within [" << lo << ", "
                                  << hi << "]");
    Particles ps;
    m.initial_conditions(&ps, ep);
    const auto &p = *ps.begin();
    phi.push_back(std::atan2(p.position().x2(), p.position().x1()));
  }
  if (mode == 0) {
    ks(c, v,
       [&](double b) { return (b * b - lo * lo) / (hi * hi - lo * lo); },
       "quadratic impact parameter");
  } else if (mode == 1) {
    ks(c, v, [&](double b) { return (b - lo) / (hi - lo); },
       "uniform impact parameter");
  } else {
    std::vector<double> F{0.};
    for (size_t i = 1; i < bs.size(); i++)
      F.push_back(F.back() + (bs[i] - bs[i - 1]) * (ys[i] + ys[i - 1]) / 2);
    ks(c, v,
       [&](double b) {
         size_t i = 1;
         while (i + 1 < bs.size() && b > bs[i]) i++;
         const double x = (b - bs[i - 1]) / (bs[i] - bs[i - 1]);
         return (F[i - 1] + (bs[i] - bs[i - 1]) *
                                (ys[i - 1] * x +
                                 (ys[i] - ys[i - 1]) * x * x / 2)) /
                F.back();
       },
       "custom impact parameter");
  }
  ks(c, phi, [](double y) { return (y + M_PI) / (2 * M_PI); },
     "reaction plane");
  static const char *modes[] = {"quadratic", "uniform", "custom"};
  c.label(modes[mode]);
  c.nontrivial(true);
}

PBT_PROP(kinds, 100, 800) {
  // every kind of nucleus within a collision, over several events
  kit::seed(c.seed32());
  kit::Params par;
  par.testparticles = c.chance(0.7) ? 1 : static_cast<int>(c.range(2, 3));
  const int nt = par.testparticles;
  const bool spin = c.chance(0.5);
  if (spin) par.spin = SpinInteractionType::On;
  const auto ep = par.make();
  std::string text[2];
  List l[2];
  int kind[2];
  std::string files[2];
  // positions in the files, by nucleus
  const bool same = c.flip();
  for (int k = 0; k < 2; k++) {
    kind[k] = static_cast<int>(c.below(5));
    if (kind[k] == 4) kind[k] = 3;
    switch (kind[k]) {
      case 0:
        l[k] = any_list(c);
        break;
      case 1:
        l[k] = kKnown[c.below(kKnown.size())];
        text[k] = ", Deformed: {Automatic: True}";
        if (c.flip()) text[k] += ", Orientation: {Random_Rotation: True}";
        break;
      case 2:
        l[k] = {8, 8};
        text[k] = ", Alpha_Clustered: {Automatic: True}";
        if (c.flip()) text[k] += ", Orientation: {Theta: 0.4}";
        break;
      default: {
        l[k] = {static_cast<int>(c.range(1, 6)), static_cast<int>(c.below(6))};
        if (k == 1 && same && kind[0] == 3) {
          l[1] = l[0];
          files[1] = files[0];
        } else {
          files[k] = "kind" + std::to_string(k) + "." +
                     std::to_string(static_cast<int>(getpid()));
          // the distance of each nucleus' nucleons from the z axis tells it
          std::ofstream f(files[k]);
          for (int e = 0; e < 7; e++)
            for (int i = 0; i < l[k].A() * nt; i++) {
              const double r = 1 + e;
              const double a = 2 * M_PI * i / (l[k].A() * nt);
              f << num(r * std::cos(a)) << " " << num(r * std::sin(a))
                << " 0 0 " << (i < l[k].p * nt ? 1 : 0) << "\n";
            }
        }
        text[k] = ", Custom: {File_Directory: ./, File_Name: " + files[k] + "}";
      }
    }
    text[k] = "{Particles: " + l[k].yaml() + text[k] + "}";
  }
  const std::string all = "Projectile: " + text[0] + ", Target: " + text[1] +
                          ", Sqrtsnn: 4, Calculation_Frame: \"fixed target\"";
  c.note() << all << " tests " << nt << " spin " << spin;
  std::unique_ptr<ColliderModus> m;
  std::string why;
  try {
    m = std::make_unique<ColliderModus>(
        kit::config("{Modi: {Collider: {" + all + "}}}"), ep);
  } catch (const std::exception &e) {
    why = e.what();
  }
  const bool shared = kind[0] == 3 && kind[1] == 3 && files[0] == files[1];
  PBT_CHECK(c, m, "valid input refused: " << why);
  for (int e = 0; e < 4; e++) {
    Particles ps;
    m->sample_impact();
    m->initial_conditions(&ps, ep);
    size_t n[2] = {0, 0};
    std::vector<ThreeVector> pos[2];
    for (const auto &p : ps) {
      PBT_CHECK(c,
                p.belongs_to() == BelongsTo::Projectile ||
                    p.belongs_to() == BelongsTo::Target,
                "event " << e << ": a nucleon belongs to no nucleus");
      const int k = p.belongs_to() == BelongsTo::Projectile ? 0 : 1;
      n[k]++;
      pos[k].push_back(p.position().threevec());
      PBT_CHECK(c, k == 0 ? p.momentum().x3() > 0 : p.momentum().x3() == 0,
                "event " << e << ": nucleus " << k << " with momentum "
                         << kit::show(p.momentum()));
      if (spin)
        PBT_CHECK(c, std::isfinite(p.spin_vector().x1()),
                  "event " << e << ": a nucleon has no spin vector");
    }
    for (int k = 0; k < 2; k++) {
      PBT_CHECK(c, n[k] == static_cast<size_t>(l[k].A() * nt),
                "event " << e << ": nucleus " << k << " of " << n[k]
                         << " nucleons");
      if (kind[k] == 3 && k == 1 && n[k] > 1) {
        // nuclei of a file are used in their order
        const double r = 1 + (shared ? 2 * e + 1 : e) % 7;
        ThreeVector z;
        for (const auto &v : pos[k]) z += v / static_cast<double>(n[k]);
        for (const auto &v : pos[k])
          PBT_CLOSE(c, (v - z).abs(), r, 1e-9, 1e-9,
                    "event " << e << ": the wrong nucleus of the file");
      }
    }
  }
  for (int k = 0; k < 2; k++) {
    if (!files[k].empty()) std::remove(files[k].c_str());
    static const char *kinds[] = {"Woods-Saxon", "deformed", "clustered",
                                  "custom"};
    c.label(kinds[kind[k]]);
  }
  if (shared) c.label("same file");
  c.nontrivial(kind[0] > 0 || kind[1] > 0);
}

PBT_PROP(refused, 300, 2000) {
  // input that is to be refused, next to the same input without the defect
  kit::Params par;
  const auto ep = par.make();
  List l = kKnown[c.below(kKnown.size())];
  std::string proj = "Particles: " + l.yaml(), targ = proj;
  std::string top = "Sqrtsnn: 5";
  bool ok = c.chance(0.3);
  std::string &nucl = c.flip() ? proj : targ;
  const int what = static_cast<int>(c.below(9));
  switch (what) {
    case 0:
      if (!ok) top = "Fermi_Motion: off";
      break;
    case 1:
      if (!ok) top += c.flip() ? ", E_Kin: 3" : ", P_Lab: 3";
      break;
    case 2: {
      const int which = ok ? 7 : static_cast<int>(c.range(1, 6));
      if (which & 1) nucl += ", Radius: 5";
      if (which & 2) nucl += ", Diffusiveness: 0.5";
      if (which & 4) nucl += ", Saturation_Density: 0.16";
      break;
    }
    case 3:
      nucl = ok ? "Particles: {2212: 1, 2112: 0}"
                : "Particles: {2212: 0, 2112: 0}";
      break;
    case 4: {
      // automatic deformation is known for few nuclei
      List m = l;
      if (!ok) {
        const int k = static_cast<int>(c.range(1, 3));
        m = c.flip() ? List{l.p - k, l.n + k} : List{l.p, l.n + k};
        Shape s;
        if (automatic_deformation(m, &s)) ok = true;
      }
      nucl = "Particles: " + m.yaml() + ", Deformed: {Automatic: True}";
      break;
    }
    case 5: {
      const int which = ok ? 0 : static_cast<int>(c.below(3));
      nucl += ", Deformed: {";
      if (ok) {
        nucl += c.flip() ? "Automatic: True}" : "Automatic: False, Beta_2: 0.1, Gamma: 0.3}";
      } else if (which == 0) {
        nucl += "Automatic: True, Beta_" + std::to_string(c.range(2, 4)) +
                ": 0.1}";
      } else if (which == 1) {
        nucl += "Automatic: False, Gamma: 0.3}";
      } else {
        nucl += "Automatic: False, Beta_4: 0.1, Gamma: 0.2}";
      }
      break;
    }
    case 6: {
      nucl += ", Deformed: {Automatic: True}, Orientation: "
              "{Random_Rotation: True";
      if (!ok) {
        static const char *an[] = {"Theta", "Phi", "Psi"};
        nucl += std::string(", ") + an[c.below(3)] + ": 0.5";
      }
      nucl += "}";
      break;
    }
    case 7: {
      const int which = ok ? 3 : static_cast<int>(c.below(3));
      nucl = which == 0 ? "Particles: {2212: 8, 2112: 9}, "
                          "Alpha_Clustered: {Automatic: True}"
             : which == 1 ? "Particles: {2212: 8, 2112: 8}, "
                            "Alpha_Clustered: {Automatic: True, "
                            "Side_Length: 3}"
             : which == 2 ? "Particles: {2212: 8, 2112: 8}, "
                            "Alpha_Clustered: {Automatic: False}"
                          : "Particles: {2212: 8, 2112: 8}, "
                            "Alpha_Clustered: {Automatic: False, "
                            "Side_Length: 3}";
      break;
    }
    default: {
      const int which = ok ? 3 : static_cast<int>(c.below(3));
      top += which == 0   ? ", Impact: {Sample: custom, Values: [1, 2]}"
             : which == 1 ? ", Impact: {Sample: custom, Yields: [1, 2]}"
             : which == 2 ? ", Impact: {Sample: custom, Values: [1, 2, 3], "
                            "Yields: [1, 2]}"
                          : ", Impact: {Sample: custom, Values: [1, 2, 3], "
                            "Yields: [1, 2, 3]}";
    }
  }
  const std::string text =
      "Projectile: {" + proj + "}, Target: {" + targ + "}, " + top;
  c.note() << text;
  const bool refused = throws([&]() {
    ColliderModus m(kit::config("{Modi: {Collider: {" + text + "}}}"), ep);
  });
  PBT_CHECK(c, refused != ok,
            (ok ? "valid input refused" : "invalid input accepted"));
  c.label(ok ? "valid" : "invalid");
  c.nontrivial(!ok);
}

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t seed) { kit::seed(static_cast<int64_t>(seed >> 1)); }
}  // namespace pbt
PBT_MAIN
