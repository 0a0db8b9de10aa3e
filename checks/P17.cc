// P17: mean-field potentials, forces and the change of momenta.
#include <algorithm>
#include <cmath>

#include "params.h"
#include "smash/density.h"
#include "smash/lattice.h"
#include "smash/particles.h"
#include "smash/potentials.h"
#include "smash/propagation.h"
#include "smashkit.h"

using namespace smash;

namespace {
constexpr double rho0 = 0.168, hc = 0.197327053, mev = 1e-3;
using Vec = ThreeVector;

const char *particles =
    "π  0.138   7.7e-9    -      111      211\n"
    "K  0.494   0         -      311 321\n"
    "N  0.938   0         +      2112 2212\n"
    "Δ  1.232  0.117      +      1114 2114 2214 2224\n"
    "Λ  1.116   0         +      3122\n"
    "Σ  1.189   0         +      3112 3212 3222\n"
    "Ξ  1.318   0         +      3312 3322\n"
    "Ω  1.672   0         +      3334\n"
    "d  1.8756  0         +      1000010020\n"
    "γ  0       0         -      22\n";
const char *decays = "Δ\n1. 1 N π\n\n";

struct Set {
  bool skyrme = false, symmetry = false, gamma = false, vdf = false,
       coulomb = false, momdep = false, outside = true;
  double A = 0, B = 0, tau = 0, S = 0, g = 0, sat = 0.16, rcut = 5, C = 0,
         Lambda = 1;
  std::vector<double> b, C_i;

  Potentials make(const kit::Params &p) const {
    std::ostringstream y;
    y.precision(17);
    y << "Use_Potentials_Outside_Lattice: " << (outside ? "true" : "false")
      << "\n";
    if (skyrme)
      y << "Skyrme:\n  Skyrme_A: " << A << "\n  Skyrme_B: " << B
        << "\n  Skyrme_Tau: " << tau << "\n";
    if (symmetry) {
      y << "Symmetry:\n  S_Pot: " << S << "\n";
      if (gamma) y << "  gamma: " << g << "\n";
    }
    if (vdf) {
      y << "VDF:\n  Sat_rhoB: " << sat << "\n  Powers: [";
      for (size_t i = 0; i < b.size(); i++) y << (i ? ", " : "") << b[i];
      y << "]\n  Coeffs: [";
      for (size_t i = 0; i < C_i.size(); i++) y << (i ? ", " : "") << C_i[i];
      y << "]\n";
    }
    if (coulomb) y << "Coulomb:\n  R_Cut: " << rcut << "\n";
    if (momdep)
      y << "Momentum_Dependence:\n  C: " << C << "\n  Lambda: " << Lambda
        << "\n";
    std::string indented = "Potentials:\n", line;
    std::istringstream in(y.str());
    while (std::getline(in, line)) indented += "  " + line + "\n";
    return Potentials(kit::config(indented), DensityParameters(p.make()));
  }
  // the potentials of the documentation
  double U(double rho) const {
    const double x = std::abs(rho) / rho0;
    return mev * (A * x + B * std::pow(x, tau)) * (rho < 0 ? -1 : 1);
  }
  double dU(double rho) const {
    const double x = std::abs(rho) / rho0;
    return mev / rho0 * (A + B * tau * std::pow(x, tau - 1.));
  }
  double energy(double rho) const {
    const double x = std::abs(rho) / rho0;
    return gamma ? 12.3 * std::pow(x, 2. / 3.) + 20. * std::pow(x, g) : 0.;
  }
  double V(double i, double rho) const {
    double v = 2. * S * i / rho0;
    if (gamma && rho != 0.) v += energy(rho) * i * i / (rho * rho);
    return mev * v;
  }
  double dV_di(double i, double rho) const {
    double v = 2. * S / rho0;
    if (gamma && rho != 0.) v += 2. * energy(rho) * i / (rho * rho);
    return mev * v;
  }
  double dV_drho(double i, double rho) const {
    if (!gamma || rho == 0.) return 0.;
    // d/drho of (12.3 x^(2/3) + 20 x^g) x^-2, which is even
    const double x = std::abs(rho) / rho0;
    return mev * (rho < 0 ? -1 : 1) * i * i / (rho0 * rho0 * rho0) *
           (12.3 * (-4. / 3.) * std::pow(x, -7. / 3.) +
            20. * (g - 2.) * std::pow(x, g - 3.));
  }
  // VDF field per current
  double F2(double rho) const {
    double f = 0;
    for (size_t i = 0; i < b.size(); i++)
      f += C_i[i] * std::pow(std::abs(rho) / sat, b[i] - 2.) / sat;
    return mev * f;
  }
  double dF2(double rho) const {
    double f = 0;
    for (size_t i = 0; i < b.size(); i++)
      f += C_i[i] * (b[i] - 2.) *
           std::pow(std::abs(rho) / sat, b[i] - 3.) / sat / sat;
    return mev * f * (rho < 0 ? -1 : 1);
  }
  // momentum dependent part: 2C/rho0 g int_{p<pF} d3p'/(2pi)^3
  // 1/(1+((p-p')/Lambda)^2), everything in 1/fm
  double Up(double p, double rho) const {
    p /= hc;
    const double kf = std::cbrt(1.5 * M_PI * M_PI * rho);
    double sum = 0;
    const int n = 100;
    for (int i = 0; i <= 2 * n; i++) {
      const double k = kf * i / (2. * n), w = i == 0 || i == 2 * n ? 1.
                                              : i % 2              ? 4.
                                                                   : 2.;
      const double t = 2 * p * k / (Lambda * Lambda),
                   d = 1 + (p * p + k * k) / (Lambda * Lambda);
      // int d cos 1/(d - t cos)
      const double angular =
          t < 1e-4 * d ? 2. / d * (1. + t * t / (3. * d * d))
                       : std::log((d + t) / (d - t)) / t;
      sum += w * k * k * angular;
    }
    sum *= kf / (2. * n) / 3.;
    return mev * 2. * C / rho0 * 4. * 2. * M_PI / std::pow(2 * M_PI, 3) * sum;
  }
};

Set generate(pbt::Case &c) {
  Set s;
  s.A = c.uniform(-400., 50.);
  s.B = c.uniform(-50., 400.);
  s.tau = c.uniform(1., 3.);
  s.S = c.uniform(5., 40.);
  s.g = c.uniform(0.2, 2.);
  s.gamma = c.flip();
  s.sat = c.uniform(0.1, 0.2);
  const size_t n = 1 + c.below(4);
  for (size_t i = 0; i < n; i++) {
    s.b.push_back(c.uniform(1.5, 8.));
    s.C_i.push_back(c.uniform(-200., 200.));
  }
  s.rcut = c.uniform(1., 20.);
  s.C = c.uniform(-120., 20.);
  s.Lambda = c.uniform(0.5, 5.);
  return s;
}
kit::Params params(pbt::Case &c) {
  kit::Params p;
  p.sigma = c.uniform(0.5, 2.);
  p.cutoff = c.uniform(2., 5.);
  p.testparticles = 1 + c.below(20);
  p.ensembles = 1 + c.below(3);
  return p;
}
Vec vec(pbt::Case &c, double s) {
  return {c.uniform(-s, s), c.uniform(-s, s), c.uniform(-s, s)};
}
double density(pbt::Case &c) {
  const double r = c.flip() ? c.uniform(0.01, 1.) : c.logreal(1e-6, 3.);
  return c.flip() ? r : -r;
}
void same(pbt::Case &c, const Vec &got, const Vec &want, double rel,
          double abs, const char *what) {
  for (int i = 0; i < 3; i++)
    PBT_CLOSE(c, got[i], want[i], rel, abs,
              what << ": " << got << " instead of " << want);
}
const std::vector<int> species = {2212,  2112,  3122,  3222,      3112,
                                  3312,  3322,  3334,  2224,      1114,
                                  -2212, -2112, -3122, -3334,     -1114,
                                  211,   321,   22,    1000010020};
ParticleData particle(pbt::Case &c, const Vec &r) {
  const ParticleType &t = ParticleType::find(
      PdgCode::from_decimal(c.flip() ? c.one_of<int>({2212, 2112, -2212})
                                     : c.pick(species)));
  ParticleData d{t};
  const double g = 1. + (c.flip() ? c.uniform(0., 1.) : c.logreal(1e-6, 20.));
  const double m = t.mass() * (t.is_stable() ? 1. : c.uniform(0.9, 1.2));
  d.set_4momentum(m, kit::direction(c) *
                         (m > 0 ? m * std::sqrt(g * g - 1.) : g));
  d.set_4position(FourVector(0., r));
  d.set_formation_time(0.);
  return d;
}
// documented scaling with the light quarks
std::pair<double, double> scales(const ParticleType &t) {
  const PdgCode q = t.pdgcode();
  const double b = q.is_nucleus()
                       ? q.baryon_number()
                       : q.is_baryon() ? (q.antiparticle_sign() > 0 ? 1 : -1)
                                       : 0;
  return {b * (1. - std::abs(q.strangeness()) / 3.), b};
}
bool acted(const ParticleType &t) {
  return t.pdgcode().is_baryon() || t.pdgcode().is_nucleus();
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  kit::load(particles, decays);
}
void pbt::reset_case(uint64_t s) { kit::seed(s); }

// Skyrme and symmetry potentials and the forces, given densities
PBT_PROP(skyrme_symmetry, 20000, 1000000) {
  Set s = generate(c);
  s.skyrme = c.below(4) != 0;
  s.symmetry = c.below(4) != 0;
  if (!s.symmetry) s.gamma = false;
  const Potentials pot = s.make(params(c));
  PBT_CHECK(c, pot.use_skyrme() == s.skyrme && pot.use_symmetry() == s.symmetry
                   && !pot.use_vdf() && !pot.use_coulomb() &&
                   !pot.use_momentum_dependence(),
            "which potentials are used");
  const bool empty = c.below(10) == 0;
  const double rho = empty ? 0. : density(c),
               i3 = empty ? 0. : rho * c.uniform(-1., 1.);
  c.note() << "density " << rho << ", isospin " << i3 << "\n";
  const Vec grad = vec(c, 1.), dt = vec(c, 1.), curl = vec(c, 1.),
            igrad = vec(c, 1.), idt = vec(c, 1.), icurl = vec(c, 1.);
  const auto fb = pot.skyrme_force(rho, grad, dt, curl);
  if (s.skyrme) {
    PBT_CLOSE(c, pot.skyrme_pot(rho), s.U(rho), 1e-10, 1e-13, "Skyrme");
    same(c, fb.first, -1. * s.dU(rho) * (grad + dt), 1e-9, 1e-11, "E_B");
    same(c, fb.second, s.dU(rho) * curl, 1e-9, 1e-11, "B_B");
    // charge conjugation
    const auto anti = pot.skyrme_force(-rho, -grad, -dt, -curl);
    if (!empty)
      PBT_CLOSE(c, pot.skyrme_pot(-rho), -pot.skyrme_pot(rho), 1e-12, 1e-14,
                "Skyrme in antimatter");
    same(c, anti.first, -fb.first, 1e-12, 1e-14, "E_B in antimatter");
    same(c, anti.second, -fb.second, 1e-12, 1e-14, "B_B in antimatter");
  } else {
    PBT_CHECK(c, fb.first.abs() == 0. && fb.second.abs() == 0., "no force");
  }
  const auto fi = pot.symmetry_force(i3, igrad, idt, icurl, rho, grad, dt,
                                     curl);
  if (s.symmetry) {
    const double scale = std::abs(s.dV_di(i3, rho)) +
                         std::abs(s.dV_drho(i3, rho));
    PBT_CLOSE(c, pot.symmetry_pot(i3, rho), s.V(i3, rho), 1e-9, 1e-12,
              "symmetry potential");
    PBT_CLOSE(c, pot.symmetry_S(rho), s.energy(rho), 1e-10, 1e-12,
              "symmetry energy");
    same(c, fi.first,
         -1. * (s.dV_di(i3, rho) * (igrad + idt) +
                s.dV_drho(i3, rho) * (grad + dt)),
         1e-9, 1e-10 * scale, "E_I3");
    same(c, fi.second, s.dV_di(i3, rho) * icurl + s.dV_drho(i3, rho) * curl,
         1e-9, 1e-10 * scale, "B_I3");
  } else {
    PBT_CHECK(c, fi.first.abs() == 0. && fi.second.abs() == 0., "no force");
  }
  c.label("antimatter", rho < 0);
  c.label("density dependent", s.gamma);
  if (!empty) c.nontrivial();
}

// vector density functional
PBT_PROP(vdf, 15000, 700000) {
  Set s = generate(c);
  s.vdf = true;
  const int defect = c.below(20);
  if (defect == 0) s.C_i.push_back(1.);
  if (defect == 1) s.b[c.below(s.b.size())] = -c.uniform(0.01, 3.);
  bool thrown = false;
  try {
    s.make(kit::Params());
  } catch (std::invalid_argument &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown == (defect < 2), "check of coefficients and powers");
  if (thrown) return;
  const Potentials pot = s.make(params(c));
  PBT_CHECK(c, pot.use_vdf() && !pot.use_skyrme() && !pot.use_symmetry() &&
                   pot.number_of_terms() == static_cast<int>(s.b.size()),
            "which potentials are used");
  // a current that depends linearly on space and time
  const double rho = density(c);
  const FourVector u = [&] {
    const Vec v = kit::velocity(c);
    const double g = 1. / std::sqrt(1. - std::min(v.sqr(), 0.9));
    return FourVector(std::sqrt(1. + g * g * v.sqr()), g * v);
  }();
  const FourVector j = u * rho;
  FourVector d[4];
  for (auto &x : d)
    for (int m = 0; m < 4; m++) x[m] = c.uniform(-1., 1.) * rho;
  double dr[4];
  for (int k = 0; k < 4; k++) dr[k] = j.Dot(d[k]) / rho;
  const Vec grho(dr[1], dr[2], dr[3]), gj0(d[1].x0(), d[2].x0(), d[3].x0());
  const Vec curl(d[2].x3() - d[3].x2(), d[3].x1() - d[1].x3(),
                 d[1].x2() - d[2].x1());
  const Vec djdt = d[0].threevec();
  const FourVector a = pot.vdf_pot(rho, j);
  double size = 0, dsize = 0;
  for (size_t i = 0; i < s.b.size(); i++) {
    const double t = mev * std::abs(s.C_i[i]) *
                     std::pow(std::abs(rho) / s.sat, s.b[i] - 2.) / s.sat;
    size += t;
    dsize += t * (1. + std::abs(s.b[i] - 2.));
  }
  for (int m = 0; m < 4; m++)
    PBT_CLOSE(c, a[m], s.F2(rho) * j[m], 1e-9, 1e-10 * size * std::abs(j[0]),
              "VDF field");
  const auto f = pot.vdf_force(rho, dr[0], grho, grho.cross_product(
                                                     j.threevec()),
                               j.x0(), gj0, j.threevec(), djdt, curl);
  // derivatives of the field, A = F2(rho) j
  FourVector dA[4];
  for (int k = 0; k < 4; k++)
    dA[k] = d[k] * s.F2(rho) + j * (s.dF2(rho) * dr[k]);
  const double scale = 1e-9 * dsize * std::abs(j[0]) * 20.;
  const Vec gA(dA[1].x0(), dA[2].x0(), dA[3].x0()),
      curlA(dA[2].x3() - dA[3].x2(), dA[3].x1() - dA[1].x3(),
            dA[1].x2() - dA[2].x1());
  same(c, f.first, -1. * (gA + dA[0].threevec()), 1e-8, scale, "E");
  same(c, f.second, curlA, 1e-8, scale, "B");
  const auto direct = pot.vdf_force(gA, dA[0].threevec(), curlA);
  same(c, direct.first, -1. * (gA + dA[0].threevec()), 1e-12, 1e-14,
       "E of the field");
  same(c, direct.second, curlA, 1e-12, 1e-14, "B of the field");
  // charge conjugation: density, current and derivatives change sign
  const FourVector anti = pot.vdf_pot(-rho, j * -1.);
  const auto fa = pot.vdf_force(
      -rho, -dr[0], -grho, grho.cross_product(j.threevec()), -j.x0(), -gj0,
      -j.threevec(), -djdt, -curl);
  for (int m = 0; m < 4; m++)
    PBT_CLOSE(c, anti[m], -a[m], 1e-12, 1e-14, "field of antimatter");
  same(c, fa.first, -f.first, 1e-12, scale, "E in antimatter");
  same(c, fa.second, -f.second, 1e-12, scale, "B in antimatter");
  // nothing there
  const FourVector none = pot.vdf_pot(0., FourVector());
  PBT_CHECK(c, none == FourVector(), "field without matter");
  c.label("antimatter", rho < 0);
  c.nontrivial();
}

// potentials and forces at a point from a list of particles
PBT_PROP(point, 5000, 250000) {
  const kit::Params par = params(c);
  Set s = generate(c);
  const int kind = c.below(4);
  s.skyrme = kind == 0 || kind == 1;
  s.symmetry = kind == 1 || kind == 2;
  s.vdf = kind == 3;
  const Potentials pot = s.make(par);
  const Vec r = kit::position3(c, 3.);
  ParticleList l;
  const size_t n = c.count(0, 12);
  for (size_t i = 0; i < n; i++)
    l.push_back(particle(c, r + kit::direction(c) * par.sigma * par.cutoff *
                                    c.uniform(0., 1.2)));
  const DensityParameters dp(par.make());
  const auto b = current_eckart(r, l, dp, DensityType::Baryon, true, true);
  const auto i3 = current_eckart(r, l, dp, DensityType::BaryonicIsospin, true,
                                 true);
  const double rho = std::get<0>(b), iso = std::get<0>(i3);
  // where the density is lost in rounding its derivatives are as well
  if (rho != 0. && std::abs(rho) < 1e-7) c.discard();
  if (s.symmetry && s.gamma && std::abs(rho) < 1e-3 && rho != 0.) c.discard();
  const FourVector j = std::get<1>(b);
  const ParticleType &t =
      ParticleType::find(PdgCode::from_decimal(c.pick(species)));
  const auto sc = scales(t);
  PBT_CLOSE(c, Potentials::force_scale(t).first, sc.first, 1e-12, 1e-12,
            "scale of the force on " << t.name());
  PBT_CHECK(c, Potentials::force_scale(t).second == sc.second,
            "baryon number of " << t.name());
  const double rel = t.pdgcode().is_nucleus() ? t.isospin3_rel()
                     : t.isospin() == 0
                         ? 0.
                         : static_cast<double>(t.isospin3()) / t.isospin();
  double want = 0;
  if (acted(t)) {
    if (s.skyrme) want += sc.first * s.U(rho);
    if (s.symmetry) want += sc.second * rel * s.V(iso, rho);
    if (s.vdf) want += rho == 0. ? 0. : sc.first * s.F2(rho) * j[0];
  }
  // (the potential of antibaryons with isospin is not specified clearly)
  if (!(s.symmetry && sc.second < 0 && rel != 0.))
    PBT_CLOSE(c, pot.potential(r, l, t), want, 1e-9, 1e-12,
              "potential of " << t.name());
  const auto f = pot.all_forces(r, l);
  Vec E, B, Ei, Bi;
  const Vec drive = std::get<2>(b) + std::get<4>(b).threevec(),
            idrive = std::get<2>(i3) + std::get<4>(i3).threevec();
  double scale = drive.abs() + std::get<3>(b).abs();
  double ds = 0;
  if (s.skyrme) {
    E = -1. * s.dU(rho) * drive;
    B = s.dU(rho) * std::get<3>(b);
    ds = std::abs(s.dU(rho));
  }
  if (s.symmetry) {
    Ei = -1. * (s.dV_di(iso, rho) * idrive + s.dV_drho(iso, rho) * drive);
    Bi = s.dV_di(iso, rho) * std::get<3>(i3) +
         s.dV_drho(iso, rho) * std::get<3>(b);
    scale += idrive.abs() + std::get<3>(i3).abs();
    ds += std::abs(s.dV_di(iso, rho)) + std::abs(s.dV_drho(iso, rho));
  }
  if (s.vdf && rho != 0.) {
    const FourVector d[4] = {std::get<4>(b), std::get<5>(b), std::get<6>(b),
                             std::get<7>(b)};
    FourVector dA[4];
    double big = 0;
    for (int k = 0; k < 4; k++) {
      dA[k] = d[k] * s.F2(rho) + j * (s.dF2(rho) * j.Dot(d[k]) / rho);
      for (int m = 0; m < 4; m++) big = std::max(big, std::abs(d[k][m]));
    }
    E = -1. * (Vec(dA[1].x0(), dA[2].x0(), dA[3].x0()) + dA[0].threevec());
    B = Vec(dA[2].x3() - dA[3].x2(), dA[3].x1() - dA[1].x3(),
            dA[1].x2() - dA[2].x1());
    scale = big * (1. + j[0] * j[0] / (rho * rho));
    for (size_t i = 0; i < s.b.size(); i++)
      ds += mev * std::abs(s.C_i[i]) * 10. *
            std::pow(std::abs(rho) / s.sat, s.b[i] - 2.) / s.sat;
  }
  same(c, std::get<0>(f), E, 1e-7, 1e-9 * scale * ds, "E");
  same(c, std::get<1>(f), B, 1e-7, 1e-9 * scale * ds, "B");
  same(c, std::get<2>(f), Ei, 1e-7, 1e-9 * scale * ds, "E of isospin");
  same(c, std::get<3>(f), Bi, 1e-7, 1e-9 * scale * ds, "B of isospin");
  c.label("VDF", s.vdf && rho != 0.);
  c.label("symmetry", s.symmetry && iso != 0.);
  if (rho != 0.) c.nontrivial();
}

// energies with momentum-dependent potentials
PBT_PROP(momentum_dependence, 3000, 150000) {
  Set s = generate(c);
  s.skyrme = s.momdep = true;
  if (c.flip()) {
    s.A = c.uniform(-120., 20.);
    s.B = c.uniform(-10., 80.);
    s.C = c.uniform(-60., 10.);
  }
  s.outside = c.flip();
  const kit::Params par = params(c);
  const Potentials pot = s.make(par);
  PBT_CHECK(c, pot.use_momentum_dependence(), "momentum dependence is used");
  const double m = c.uniform(0.9, 2.), rho = c.uniform(0.005, 0.6);
  const double p = c.below(6) == 0 ? 0. : c.logreal(1e-3, 5.);
  const double U = s.U(rho) + s.Up(p, rho);
  const FourVector lrf(std::sqrt(m * m + p * p) + U, kit::direction(c) * p);
  c.note() << "m " << m << ", p " << p << ", density " << rho << ", U " << U
           << "\n";
  // at rest
  const FourVector still(rho, 0., 0., 0.);
  // stay in the domain of the model: attraction much weaker than the mass
  if (U < -0.3 * m || s.U(0.4) + s.Up(0., 0.4) < -0.3 * m) c.discard();
  if (std::abs(U) < 0.05)
    PBT_CLOSE(c, pot.calculation_frame_energy(lrf.threevec(), still, m),
              lrf[0], 1e-6, 1e-6, "energy in matter at rest");
  // in moving matter: the same particle, seen from another frame
  const Vec v = kit::direction(c) * c.uniform(0., 0.8);
  const FourVector moving = still.lorentz_boost(v), q = lrf.lorentz_boost(v);
  const double E = pot.calculation_frame_energy(q.threevec(), moving, m),
               free = std::sqrt(m * m + q.threevec().sqr());
  c.note() << "moving with " << v << ": expected " << q[0] << ", free " << free
           << "\n";
  if (std::abs(q[0] - free) < 0.045) {
    PBT_CLOSE(c, E, q[0], 1e-5, 1e-5, "energy in moving matter");
    c.nontrivial();
  } else {
    // some solution of the defining equation
    const FourVector x = FourVector(E, q.threevec()).lorentz_boost(-v);
    const Vec back = FourVector(E, q.threevec())
                         .lorentz_boost(moving.velocity())
                         .threevec();
    const double pl = back.abs(), e = std::sqrt(m * m + pl * pl) + s.U(rho) +
                                     s.Up(pl, rho);
    (void)x;
    PBT_CLOSE(c, E * E - q.threevec().sqr(), e * e - pl * pl, 1e-4,
              1e-3 * (1. + E * E), "mass shell");
    c.label("strong");
  }
  // gradient of the energy: central difference of the documented step
  const Vec r = kit::position3(c, 2.);
  ParticleList l;
  for (size_t i = 0, n = c.count(1, 6); i < n; i++) {
    ParticleData d{ParticleType::find(0x2212)};
    d.set_4momentum(0.938, kit::direction(c) * c.uniform(0., 1.));
    d.set_4position(FourVector(0., r + kit::direction(c) * c.uniform(0., 2.)));
    l.push_back(d);
  }
  const Vec mom = kit::momentum3(c, 2.);
  const DensityParameters dp(par.make());
  std::unique_ptr<DensityLattice> lat;
  const bool on = c.flip();
  std::array<double, 3> h{0.1, 0.1, 0.1};
  if (on) {
    const bool away = c.below(4) == 0;
    const std::array<int, 3> n{4, 5, 6};
    h = {c.uniform(0.3, 1.), c.uniform(0.3, 1.), c.uniform(0.3, 1.)};
    std::array<double, 3> len, o;
    for (int i = 0; i < 3; i++) {
      len[i] = h[i] * n[i];
      o[i] = r[i] - len[i] * c.uniform(0.1, 0.9) + (away ? 50. : 0.);
    }
    lat = std::make_unique<DensityLattice>(len, n, o, false,
                                           LatticeUpdate::EveryTimestep);
    for (auto &node : *lat) {
      node.add_to_jmu_pos(
          FourVector(c.uniform(0.1, 0.4), vec(c, 0.05)));
    }
  }
  Vec want;
  bool none = false;
  for (int i = 0; i < 3 && !none; i++) {
    double side[2];
    for (int k = 0; k < 2; k++) {
      Vec x = r;
      x[i] += (k ? 1 : -1) * h[i];
      DensityOnLattice node;
      FourVector j;
      if (lat && lat->value_at(x, node))
        j = node.jmu_net();
      else if (s.outside)
        j = std::get<1>(
            current_eckart(x, l, dp, DensityType::Baryon, false, true));
      else {
        none = true;
        break;
      }
      side[k] = pot.calculation_frame_energy(mom, j, m);
      // (the search for solutions far away is random)
      if (std::abs(side[k] - std::sqrt(m * m + mom.sqr())) > 0.4) c.discard();
    }
    if (!none) want[i] = (side[1] - side[0]) / (2 * h[i]);
  }
  if (none) want = Vec();
  same(c, pot.single_particle_energy_gradient(lat.get(), r, mom, m, l), want,
       1e-5, 1e-5, "gradient of the energy");
  c.label("gradient from a lattice", on && !none);
}

// electric and magnetic fields of charges on a lattice
PBT_PROP(fields, 4000, 200000) {
  const std::array<int, 3> n{1 + static_cast<int>(c.below(6)),
                             1 + static_cast<int>(c.below(6)),
                             1 + static_cast<int>(c.below(6))};
  const std::array<double, 3> len{c.uniform(1., 8.), c.uniform(1., 8.),
                                  c.uniform(1., 8.)},
      o{c.uniform(-5., 5.), c.uniform(-5., 5.), c.uniform(-5., 5.)};
  DensityLattice lat(len, n, o, false, LatticeUpdate::EveryTimestep);
  for (auto &node : lat) {
    if (c.flip()) node.add_to_jmu_pos(FourVector(c.uniform(0.2, 1.),
                                                 vec(c, 0.1)));
    if (c.flip()) node.add_to_jmu_neg(FourVector(-c.uniform(0.2, 1.),
                                                 vec(c, 0.1)));
  }
  const double cut = c.uniform(0.5, 15.);
  Vec at;
  const size_t node = c.below(lat.size());
  if (c.flip())
    at = lat.cell_center(node);
  else
    at = Vec(o[0] + c.uniform(0., len[0]), o[1] + c.uniform(0., len[1]),
             o[2] + c.uniform(0., len[2]));
  double vol = 1;
  for (int i = 0; i < 3; i++) vol *= len[i] / n[i];
  const double e = std::sqrt(4. * M_PI / 137.035999);
  Vec E, B, wE, wB;
  lat.integrate_volume(E, Potentials::E_field_integrand, cut, at);
  lat.integrate_volume(B, Potentials::B_field_integrand, cut, at);
  double size = 0;
  int used = 0;
  for (size_t i = 0; i < lat.size(); i++) {
    const Vec x = lat.cell_center(i), d = at - x;
    bool in = true;
    for (int k = 0; k < 3; k++) {
      // cells that are only partly in range are left to the lattice
      if (std::abs(d[k]) > cut - len[k] / n[k] &&
          std::abs(d[k]) < cut + len[k] / n[k])
        c.discard();
      in = in && std::abs(d[k]) < cut;
    }
    if (!in || d.abs() < 1e-6) continue;
    used++;
    const double r3 = std::pow(d.abs(), 3);
    // Coulomb's law: alpha hbarc / r^2 between two elementary charges
    wE += e / (4. * M_PI) * lat[i].rho() / r3 * vol * d;
    wB += e / (4. * M_PI) / r3 * vol * lat[i].jmu_net().threevec().cross_product(d);
    size += e / (4. * M_PI) / r3 * vol * d.abs();
  }
  // (the elementary charge is known to a few digits only)
  same(c, E, wE, 2e-4, 1e-4 * size, "electric field");
  same(c, B, wB, 2e-4, 1e-4 * size, "magnetic field");
  if (used) c.nontrivial();
}

// momenta change according to the forces
PBT_PROP(update, 5000, 250000) {
  kit::Params par = params(c);
  Set s = generate(c);
  const int kind = c.below(5);
  s.skyrme = kind == 0 || kind == 1 || kind == 4;
  s.momdep = kind == 4;
  s.symmetry = kind == 1 || kind == 2 || (kind == 4 && c.flip());
  s.vdf = kind == 3;
  s.coulomb = c.flip();
  s.outside = c.flip();
  if (s.momdep) {
    // (only matter of moderate density has a unique energy)
    par.sigma = c.uniform(1., 2.);
    par.testparticles += 5;
    s.A = c.uniform(-60., 20.);
    s.B = c.uniform(-10., 40.);
    s.C = c.uniform(-30., 10.);
  }
  const Potentials pot = s.make(par);
  using Fields = RectangularLattice<std::pair<Vec, Vec>>;
  const std::array<int, 3> n{3, 2, 4};
  const std::array<double, 3> len{6., 5., 7.}, o{-3., -2., -4.};
  auto lattice = [&](double size) {
    auto l = std::make_unique<Fields>(len, n, o, false,
                                      LatticeUpdate::EveryTimestep);
    for (auto &node : *l) node = {vec(c, size), vec(c, size)};
    return l;
  };
  std::unique_ptr<Fields> fb, fi, em;
  if ((s.skyrme || s.vdf) && c.below(4)) fb = lattice(0.2);
  if (s.symmetry && c.below(4)) fi = lattice(0.2);
  if (s.coulomb) em = lattice(5.);
  std::vector<Particles> ens(par.ensembles);
  ParticleList all;
  const size_t np = c.count(1, 12);
  for (size_t i = 0; i < np; i++) {
    ParticleData d = particle(c, Vec(c.uniform(-4., 4.), c.uniform(-3., 4.),
                                     c.uniform(-5., 4.)));
    if (!s.momdep || d.type().baryon_number() >= 0) all.push_back(d);
  }
  std::vector<ParticleList> before(ens.size());
  ParticleList snapshot;
  for (auto &d : all) {
    const size_t k = c.below(ens.size());
    before[k].push_back(ens[k].insert(d));
  }
  for (auto &e : ens) {
    const ParticleList copy = e.copy_to_vector();
    snapshot.insert(snapshot.end(), copy.begin(), copy.end());
  }
  const double dt = c.uniform(0.01, 0.2);
  update_momenta(ens, dt, pot, fb.get(), fi.get(), em.get(), nullptr);
  bool used_lattice = false, used_point = false, lorentz = false;
  for (size_t k = 0; k < ens.size(); k++) {
    PBT_CHECK(c, ens[k].size() == before[k].size(), "number of particles");
    for (const auto &b : before[k]) {
      const ParticleData &d = ens[k].lookup(b);
      PBT_CHECK(c, d.id() == b.id() && d.type() == b.type() &&
                       d.position() == b.position(),
                "only momenta change");
      const auto sc = scales(b.type());
      const Vec r = b.position().threevec(), v = b.velocity();
      auto at = [&](const std::unique_ptr<Fields> &l, std::pair<Vec, Vec> &f) {
        return l && l->value_at(r, f);
      };
      std::pair<Vec, Vec> B, I, EM;
      bool on = true, act = acted(b.type());
      if (s.skyrme || s.vdf) on = on && at(fb, B);
      if (s.symmetry) on = on && at(fi, I);
      if (!on && !s.outside) act = false;
      Vec force;
      bool unspecified = false;
      if (act) {
        if (!on) {
          const auto f = pot.all_forces(r, snapshot);
          B = {std::get<0>(f), std::get<1>(f)};
          I = {std::get<2>(f), std::get<3>(f)};
        }
        if (s.momdep)
          force = -1. * sc.first *
                  pot.single_particle_energy_gradient(
                      nullptr, r, b.momentum().threevec(), b.effective_mass(),
                      snapshot);
        else if (s.skyrme || s.vdf)
          force += sc.first * (B.first + v.cross_product(B.second));
        if (s.symmetry) {
          const double rel =
              b.type().pdgcode().is_nucleus() ? b.type().isospin3_rel()
              : b.type().isospin() == 0
                  ? 0.
                  : static_cast<double>(b.type().isospin3()) /
                        b.type().isospin();
          force += sc.second * rel * (I.first + v.cross_product(I.second));
          unspecified = sc.second < 0 && rel != 0.;
        }
        if (s.coulomb && at(em, EM)) {
          force += hc * std::sqrt(4. * M_PI / 137.036) *
                   b.type().pdgcode().charge() *
                   (EM.first + v.cross_product(EM.second));
          if (b.type().charge()) lorentz = true;
        }
        (on ? used_lattice : used_point) = true;
      }
      PBT_CLOSE(c, d.effective_mass(), b.effective_mass(), 1e-7,
                1e-7 + 1e-14 * d.momentum()[0] * d.momentum()[0] /
                           b.effective_mass(),
                "mass of " << b.type().name());
      if (unspecified) continue;
      const Vec change = d.momentum().threevec() - b.momentum().threevec();
      same(c, change, force * dt, 1e-4,
           1e-9 * (1. + b.momentum()[0]) + 1e-4 * force.abs() * dt +
               (s.momdep ? 2e-5 * dt : 0.),
           b.type().name().c_str());
      if (!act)
        PBT_CHECK(c, d.momentum() == b.momentum(),
                  b.type().name() << " feels no force");
    }
  }
  c.label("on the lattice", used_lattice);
  c.label("off the lattice", used_point);
  c.label("Lorentz force", lorentz);
  if (used_lattice || used_point) c.nontrivial();
}

PBT_MAIN
