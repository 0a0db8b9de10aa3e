// P02: frame changes, rotations and angles obey the geometry they stand for.
#include "smash/angles.h"
#include "smashkit.h"

using namespace smash;

namespace {
using L = long double;
constexpr double eps = 2.3e-16;

FourVector any4(pbt::Case &c) {
  const double s = c.below(4) ? 1. : c.logreal(1e-3, 1e4);
  return FourVector(s * c.real(-10., 10.), s * kit::position3(c, 10.));
}
double norm4(const FourVector &a) {
  return std::sqrt(a.x0() * a.x0() + a.sqr3());
}
// textbook active boost into the frame that moves with velocity v
std::array<L, 4> ref_boost(const FourVector &x, const ThreeVector &v) {
  const L v2 = (L)v.x1() * v.x1() + (L)v.x2() * v.x2() + (L)v.x3() * v.x3();
  const L g = 1 / sqrtl(1 - v2);
  const L vx = (L)v.x1() * x.x1() + (L)v.x2() * x.x2() + (L)v.x3() * x.x3();
  const L k = v2 > 0 ? (g - 1) * vx / v2 : 0;
  return {g * (x.x0() - vx), x.x1() + v.x1() * (k - g * x.x0()),
          x.x2() + v.x2() * (k - g * x.x0()),
          x.x3() + v.x3() * (k - g * x.x0())};
}
double gamma_of(const ThreeVector &v) { return 1 / std::sqrt(1 - v.sqr()); }
}  // namespace

PBT_PROP(boost, 150000, 3000000) {
  const FourVector x = any4(c), y = any4(c);
  const ThreeVector v = kit::velocity(c, 1000.);
  const double g = gamma_of(v);
  c.note() << "x=" << kit::show(x) << " y=" << kit::show(y)
           << " v=" << kit::show(v);
  c.nontrivial(g > 1.01 && norm4(x) > 0);
  c.label("ultrarelativistic", g > 10);
  c.label("at-rest", g == 1);
  const FourVector b = x.lorentz_boost(v), by = y.lorentz_boost(v);
  const auto r = ref_boost(x, v);
  const double tol = 60 * eps * g * g * g * norm4(x);
  for (int i = 0; i < 4; i++)
    PBT_CLOSE(c, b[i], (double)r[i], 0, tol,
              "component " << i << " of the boosted vector");
  const double tol2 =
      300 * eps * g * g * g * g * norm4(x) * std::max(norm4(y), norm4(x));
  PBT_CLOSE(c, b.sqr(), x.sqr(), 0, tol2, "x.x is not invariant");
  PBT_CLOSE(c, b.Dot(by), x.Dot(y), 0, tol2, "x.y is not invariant");
  const FourVector back = b.lorentz_boost(-v);
  const double tol3 = 300 * eps * std::pow(g, 4) * norm4(x);
  for (int i = 0; i < 4; i++)
    PBT_CLOSE(c, back[i], x[i], 0, tol3, "boost by v and -v, component " << i);
  const FourVector s = (x + y).lorentz_boost(v);
  for (int i = 0; i < 4; i++)
    PBT_CLOSE(c, s[i], b[i] + by[i], 0,
              2 * tol + 60 * eps * g * g * g * norm4(y), "linearity " << i);
}

PBT_PROP(rest_frame, 60000, 1000000) {
  const double m = c.logreal(0.01, 10.);
  const ThreeVector p = kit::momentum3(c, 5.);
  const FourVector q(std::sqrt(m * m + p.sqr()), p);
  const double g = q.x0() / m;
  if (g > 2000) c.discard();
  c.note() << "m=" << m << " p=" << kit::show(q);
  c.nontrivial(g > 1.01);
  const ThreeVector v = q.velocity();
  for (int i = 0; i < 3; i++)
    PBT_CLOSE(c, v[i] * q.x0(), p[i], 1e-13, 1e-300, "velocity is p/E");
  const FourVector r = q.lorentz_boost(v);
  const double tol = 100 * eps * g * g * q.x0();
  PBT_CLOSE(c, r.x0(), m, 0, tol, "rest-frame energy");
  PBT_CHECK(c, r.abs3() <= tol, "rest-frame momentum " << kit::show(r));
  PBT_CLOSE(c, q.abs(), m, 0, 20 * eps * q.x0() * q.x0() / m, "invariant mass");
  static const ParticleType &pion = ParticleType::find(0x211);
  ParticleData d{pion};
  d.set_4momentum(m, p);
  PBT_CLOSE(c, d.momentum().x0(), q.x0(), 1e-14, 0, "on-shell energy");
  d.set_4momentum(m, p.x1(), p.x2(), p.x3());
  PBT_CLOSE(c, d.momentum().x0(), q.x0(), 1e-14, 0, "on-shell energy (xyz)");
  for (int i = 1; i < 4; i++)
    PBT_CHECK(c, d.momentum()[i] == q[i], "momentum component kept");
  PBT_CLOSE(c, d.inverse_gamma(), 1 / g, 20 * eps * g * g, 0, "1/gamma");
  const FourVector x(c.real(0, 50), kit::position3(c, 20.));
  d.set_4position(x);
  const ThreeVector u = kit::velocity(c, 20.);
  const FourVector bp = d.momentum().lorentz_boost(u), bx = x.lorentz_boost(u);
  ParticleData e = d;
  e.boost(u);
  ParticleData f = d;
  f.boost_momentum(u);
  for (int i = 0; i < 4; i++) {
    PBT_CLOSE(c, e.momentum()[i], bp[i], 1e-13, 1e-13, "boosted momentum");
    PBT_CLOSE(c, e.position()[i], bx[i], 1e-13, 1e-13, "boosted position");
    PBT_CLOSE(c, f.momentum()[i], bp[i], 1e-13, 1e-13, "boost_momentum");
    PBT_CHECK(c, f.position()[i] == x[i], "boost_momentum moved the particle");
  }
  const ThreeVector delta = kit::position3(c, 30.);
  const ParticleData t = d.translated(delta);
  PBT_CHECK(c, t.position().x0() == x.x0(), "translated changed the time");
  for (int i = 0; i < 3; i++)
    PBT_CLOSE(c, t.position()[i + 1], x[i + 1] + delta[i], 1e-14, 1e-14,
              "translated position");
  for (int i = 0; i < 4; i++)
    PBT_CHECK(c, t.momentum()[i] == d.momentum()[i], "translated momentum");
}

PBT_PROP(rotations, 100000, 2000000) {
  ThreeVector a = kit::position3(c, 10.), b = kit::position3(c, 10.);
  const double phi = c.real(-7., 7.), th = c.real(-7., 7.), psi = c.real(-7., 7.);
  c.note() << "a=" << kit::show(a) << " b=" << kit::show(b) << " phi=" << phi
           << " theta=" << th << " psi=" << psi;
  c.nontrivial(a.sqr() > 1e-3 && b.sqr() > 1e-3);
  const double s = 1e-13 * (1 + a.abs()) * (1 + b.abs());
  // z-x-z Euler rotation, composed of elementary ones in long double
  auto rz = [](std::array<L, 3> v, L t) -> std::array<L, 3> {
    return {cosl(t) * v[0] - sinl(t) * v[1], sinl(t) * v[0] + cosl(t) * v[1],
            v[2]};
  };
  auto rx = [](std::array<L, 3> v, L t) -> std::array<L, 3> {
    return {v[0], cosl(t) * v[1] - sinl(t) * v[2],
            sinl(t) * v[1] + cosl(t) * v[2]};
  };
  std::array<L, 3> r{a[0], a[1], a[2]};
  const auto rz_only = rz(r, th);
  r = rz(rx(rz(r, psi), th), phi);
  ThreeVector ra = a, rb = b;
  ra.rotate(phi, th, psi);
  rb.rotate(phi, th, psi);
  for (int i = 0; i < 3; i++)
    PBT_CLOSE(c, ra[i], (double)r[i], 0, s, "Euler rotation component " << i);
  PBT_CLOSE(c, ra * rb, a * b, 0, 10 * s, "rotation keeps scalar products");
  ThreeVector ry = a, rzv = a;
  ry.rotate_around_y(th);
  rzv.rotate_around_z(th);
  PBT_CLOSE(c, ry[0], (double)(cosl(th) * a[0] + sinl(th) * a[2]), 0, s, "Ry x");
  PBT_CHECK(c, ry[1] == a[1], "Ry y");
  PBT_CLOSE(c, ry[2], (double)(-sinl(th) * a[0] + cosl(th) * a[2]), 0, s, "Ry z");
  for (int i = 0; i < 3; i++)
    PBT_CLOSE(c, rzv[i], (double)rz_only[i], 0, s, "Rz component " << i);
  // rotate_z_axis_to maps the z axis onto the direction given
  if (b.abs() > 1e-3 && std::hypot(b[0], b[1]) > 1e-5) {
    const double len = c.logreal(0.1, 10.);
    ThreeVector z(0, 0, len);
    z.rotate_z_axis_to(b);
    for (int i = 0; i < 3; i++)
      PBT_CLOSE(c, z[i], b[i] / b.abs() * len, 0, 1e-7 * len,
                "rotated z axis, component " << i);
    ThreeVector w = a;
    w.rotate_z_axis_to(b);
    PBT_CLOSE(c, w.sqr(), a.sqr(), 1e-12, 1e-12, "length");
    PBT_CLOSE(c, w * b / b.abs(), a[2], 0, 1e-6 * (1 + a.abs()),
              "projection on the new axis");
    PBT_CLOSE(c, std::cos(b.get_theta()), b[2] / b.abs(), 0, 1e-12, "theta");
    PBT_CHECK(c, b.get_theta() >= 0 && b.get_theta() <= M_PI, "theta range");
    PBT_CLOSE(c, std::hypot(b[0], b[1]) * std::cos(b.get_phi()), b[0], 0, 1e-12,
              "phi, x");
    PBT_CLOSE(c, std::hypot(b[0], b[1]) * std::sin(b.get_phi()), b[1], 0, 1e-12,
              "phi, y");
  }
  const ThreeVector x = a.cross_product(b), y = b.cross_product(a);
  PBT_CLOSE(c, x * a, 0, 0, 20 * s * (1 + a.abs()), "a x b orthogonal to a");
  PBT_CLOSE(c, x * b, 0, 0, 20 * s * (1 + b.abs()), "a x b orthogonal to b");
  PBT_CLOSE(c, x.sqr() + (a * b) * (a * b), a.sqr() * b.sqr(), 1e-11, 1e-11,
            "Lagrange identity");
  // right-handed: x cross y = z
  PBT_CLOSE(c, x[2], a[0] * b[1] - a[1] * b[0], 0, s, "orientation");
  for (int i = 0; i < 3; i++) PBT_CHECK(c, x[i] == -y[i], "antisymmetry");
  // vector space
  const double f = c.real(-3, 3), d = c.logreal(0.01, 100.);
  for (int i = 0; i < 3; i++) {
    PBT_CHECK(c, (a + b)[i] == a[i] + b[i], "sum");
    PBT_CHECK(c, (a - b)[i] == a[i] - b[i], "difference");
    PBT_CHECK(c, (-a)[i] == -a[i], "negation");
    PBT_CHECK(c, (f * a)[i] == f * a[i] && (a * f)[i] == f * a[i], "scaling");
    PBT_CLOSE(c, (a / d)[i], a[i] / d, 1e-15, 0, "division");
  }
  PBT_CLOSE(c, a * b, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 0, s, "dot");
  PBT_CLOSE(c, a.abs() * a.abs(), a.sqr(), 1e-14, 0, "abs");
  PBT_CLOSE(c, a.sqr(), a * a, 1e-15, 0, "sqr");
}

PBT_PROP(fourvector_algebra, 60000, 1000000) {
  const FourVector a = any4(c), b = any4(c);
  const double f = c.real(-3, 3), d = c.logreal(0.01, 100.);
  c.note() << "a=" << kit::show(a) << " b=" << kit::show(b) << " f=" << f;
  c.nontrivial(norm4(a) > 0 && norm4(b) > 0 && f != 0);
  for (int i = 0; i < 4; i++) {
    PBT_CHECK(c, (a + b)[i] == a[i] + b[i], "sum");
    PBT_CHECK(c, (a - b)[i] == a[i] - b[i], "difference");
    PBT_CHECK(c, (f * a)[i] == f * a[i] && (a * f)[i] == f * a[i], "scaling");
    PBT_CLOSE(c, (a / d)[i], a[i] / d, 1e-15, 0, "division");
  }
  const double n = norm4(a) * norm4(b);
  PBT_CLOSE(c, a.Dot(b), (double)((L)a[0] * b[0] - (L)a[1] * b[1] -
                                  (L)a[2] * b[2] - (L)a[3] * b[3]),
            0, 4 * eps * n, "Minkowski product");
  PBT_CHECK(c, a.Dot(b) == b.Dot(a), "symmetry");
  PBT_CLOSE(c, a.sqr(), a.Dot(a), 0, 8 * eps * norm4(a) * norm4(a), "square");
  PBT_CLOSE(c, a.sqr3(), a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 1e-14, 0,
            "sqr3");
  PBT_CLOSE(c, a.abs3() * a.abs3(), a.sqr3(), 1e-14, 0, "abs3");
  const double s = a.sqr();
  if (s > 1e-3) {
    PBT_CLOSE(c, a.abs() * a.abs(), s, 1e-13, 0, "abs of time-like");
    c.label("timelike");
  } else if (s < -1e-3) {
    c.label("spacelike");
    bool thrown = false;
    try {
      a.abs();
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown, "abs() of a space-like vector must be refused");
  }
  PBT_CHECK(c, (a == b) == (b == a), "== symmetric");
  PBT_CHECK(c, a == a && !(a != a), "== reflexive");
  // Milne coordinates
  if (a.x0() > std::abs(a.x3()) * 1.0001 && a.x0() > 0.01) {
    const double t = a.tau(), e = a.eta();
    c.label("milne");
    PBT_CLOSE(c, t * std::cosh(e), a.x0(), 1e-9, 0, "tau cosh eta = t");
    PBT_CLOSE(c, t * std::sinh(e), a.x3(), 1e-9, 1e-12, "tau sinh eta = z");
  }
}

PBT_PROP(angles, 80000, 1500000) {
  Angles a;
  const double phi = c.below(3) ? c.real(-40., 40.) : c.real(0., 2 * M_PI);
  const double ct = c.real(-1., 1.);
  a.set_phi(phi);
  a.set_costheta(ct);
  c.note() << "phi=" << phi << " costheta=" << ct;
  c.nontrivial(std::abs(ct) < 1);
  auto in_range = [&](const Angles &x) {
    PBT_CHECK(c, x.phi() >= 0 && x.phi() <= 2 * M_PI, "phi " << x.phi());
    PBT_CHECK(c, x.costheta() >= -1 && x.costheta() <= 1,
              "cos theta " << x.costheta());
    PBT_CHECK(c, x.theta() >= 0 && x.theta() <= M_PI + 1e-15, "theta");
    PBT_CLOSE(c, x.threevec().sqr(), 1, 1e-13, 0, "unit vector");
  };
  in_range(a);
  PBT_CHECK(c, a.costheta() == ct, "costheta kept");
  PBT_CLOSE(c, std::cos(a.phi()), std::cos(phi), 0, 1e-13, "phi modulo 2 pi");
  PBT_CLOSE(c, std::sin(a.phi()), std::sin(phi), 0, 1e-13, "phi modulo 2 pi");
  const ThreeVector v = a.threevec();
  const double st = std::sqrt(1 - ct * ct);
  PBT_CLOSE(c, v[0], st * std::cos(phi), 0, 1e-13, "x");
  PBT_CLOSE(c, v[1], st * std::sin(phi), 0, 1e-13, "y");
  PBT_CLOSE(c, v[2], ct, 0, 1e-15, "z");
  PBT_CHECK(c, a.x() == v[0] && a.y() == v[1] && a.z() == v[2], "accessors");
  PBT_CLOSE(c, a.sintheta(), st, 0, 1e-14, "sin theta");
  const double theta = c.real(-10., 10.);
  Angles t = a;
  t.set_theta(theta);
  PBT_CLOSE(c, t.costheta(), std::cos(theta), 0, 1e-14, "set_theta");
  // moving along a meridian: the direction (theta+delta, phi) in the sense of
  // the parametrisation extended beyond the poles
  const double delta = c.real(-M_PI, M_PI);
  const double th0 = a.theta(), ph0 = a.phi();
  Angles m = a;
  const bool flipped = m.add_to_theta(delta);
  c.note() << " delta=" << delta;
  in_range(m);
  const ThreeVector w = m.threevec();
  const double tt = th0 + delta;
  PBT_CLOSE(c, w[0], std::sin(tt) * std::cos(ph0), 0, 2e-7, "meridian x");
  PBT_CLOSE(c, w[1], std::sin(tt) * std::sin(ph0), 0, 2e-7, "meridian y");
  PBT_CLOSE(c, w[2], std::cos(tt), 0, 1e-12, "meridian z");
  if (std::abs(tt) > 1e-9 && std::abs(tt - M_PI) > 1e-9)
    PBT_CHECK(c, flipped == (tt < 0 || tt > M_PI), "pole crossing reported");
  c.label("pole-crossing", flipped);
  Angles n = a;
  n.add_to_theta(delta, true);
  PBT_CLOSE(c, n.costheta(), std::cos(th0 - delta), 0, 1e-12, "reversed step");
  bool thrown = false;
  const double bad = (c.flip() ? 1 : -1) * (1.001 + c.real(0, 5));
  try {
    a.set_costheta(bad);
  } catch (const Angles::InvalidTheta &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown, "cos theta = " << bad << " must be refused");
}

void pbt::setup() {
  kit::quiet();
  kit::load("π 0.138 7.7e-9 - 111 211\n", "");
}
void pbt::reset_case(uint64_t) { kit::seed(42); }
PBT_MAIN
