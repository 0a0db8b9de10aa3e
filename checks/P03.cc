// P03: kinematic conversions agree with explicit four-vector kinematics.
#include "smash/kinematics.h"

#include "smash/constants.h"
#include "smashkit.h"

using namespace smash;
using L = long double;

namespace {
double mass(pbt::Case &c) {
  return c.below(3) ? c.uniform(0.1, 3.) : c.logreal(1e-2, 250.);
}
L s_beams(L p1, L m1, L p2, L m2) {  // head-on beams with momenta p1, -p2
  const L e1 = sqrtl(m1 * m1 + p1 * p1), e2 = sqrtl(m2 * m2 + p2 * p2);
  // (e1+e2)^2 - (p1-p2)^2 without cancellation
  return m1 * m1 + m2 * m2 + 2 * e1 * e2 + 2 * p1 * p2;
}
}  // namespace

PBT_PROP(cm_momentum, 150000, 3000000) {
  const double ma = mass(c), mb = c.below(8) ? mass(c) : ma;
  const double x = c.below(6) ? c.logreal(1e-6, 100.) : 0.;
  const double srts = (ma + mb) * (1 + x);
  c.note() << "ma=" << ma << " mb=" << mb << " sqrts=" << srts;
  c.nontrivial(x > 0);
  const double p = pCM(srts, ma, mb);
  const L s = (L)srts * srts;
  const L d = (s - ((L)ma + mb) * ((L)ma + mb)) * (s - ((L)ma - mb) * ((L)ma - mb));
  const double ref2 = (double)(d / (4 * s));
  const double tol = 20e-16 * srts * srts;
  PBT_CLOSE(c, pCM_sqr(srts, ma, mb), ref2, 0, tol, "p^2");
  PBT_CLOSE(c, pCM_sqr_from_s(srts * srts, ma, mb), ref2, 0, tol, "p^2(s)");
  PBT_CLOSE(c, p * p, std::max(0., ref2), 0, tol, "p");
  PBT_CLOSE(c, pCM_from_s(srts * srts, ma, mb), p, 1e-14, 0, "p(s)");
  PBT_CLOSE(c, pCM(srts, mb, ma), p, 0, std::sqrt(tol), "symmetry");
  PBT_CLOSE(c, std::sqrt(p * p + ma * ma) + std::sqrt(p * p + mb * mb), srts,
            0, 1e-14 * srts * (1 + srts / std::min(ma, mb)), "energies add up");
  // below threshold there is no momentum
  PBT_CHECK(c, pCM((ma + mb) * (1 - c.real(1e-6, 0.3)), ma, mb) >= 0, "p >= 0");
  const double below = std::abs(ma - mb) + (ma + mb - std::abs(ma - mb)) *
                                               c.uniform(0.1, 0.999);
  PBT_CHECK(c, pCM(below, ma, mb) == 0, "p below threshold " << below);
}

PBT_PROP(lab_momentum, 150000, 3000000) {
  const double m1 = mass(c), m2 = mass(c);
  const double p1 = c.below(5) ? c.logreal(1e-2, 1e4) : 0.;
  const double p2 = c.below(5) ? c.logreal(1e-2, 1e4) : 0.;
  c.note() << "m1=" << m1 << " m2=" << m2 << " p1=" << p1 << " p2=" << p2;
  c.nontrivial(p1 > 0 && p2 > 0 && m1 != m2);
  const double s_ft = (double)s_beams(p1, m1, 0, m2);
  const double e1 = std::sqrt(m1 * m1 + p1 * p1), e2 = std::sqrt(m2 * m2 + p2 * p2);
  PBT_CLOSE(c, s_from_plab(p1, m1, m2), s_ft, 1e-13, 0, "s from plab");
  PBT_CLOSE(c, s_from_Etot(e1, m1, m2), s_ft, 1e-13, 0, "s from Etot");
  PBT_CLOSE(c, s_from_Ekin(e1 - m1, m1, m2), s_ft, 1e-12, 0, "s from Ekin");
  const double s2 = (double)s_beams(p1, m1, p2, m2);
  // the energies lose the small momenta: p from E has an error E*eps/p
  const double t2 = 1e-12 * (e1 + e2) * (e1 + e2) *
                    (1 + (p1 > 0 ? e1 / p1 : 0) * (e1 / m1) +
                     (p2 > 0 ? e2 / p2 : 0) * (e2 / m2));
  const bool skip1 = p1 > 0 && p1 < 1e-3 * m1, skip2 = p2 > 0 && p2 < 1e-3 * m2;
  if (!skip1 && !skip2) {
    // rounding may push E^2 - m^2 of a particle at rest below zero
    const double E1 = p1 > 0 ? e1 : m1, E2 = p2 > 0 ? e2 : m2;
    PBT_CLOSE(c, s_from_Etot(E1, E2, m1, m2), s2, 0, t2, "s, two beams, Etot");
    if (p1 > 0 && p2 > 0) {
      PBT_CLOSE(c, s_from_Ekin(E1 - m1, E2 - m2, m1, m2), s2, 0, t2,
                "s, two beams, Ekin");
      PBT_CLOSE(c, s_from_plab(p1, p2, m1, m2), s2, 0, t2,
                "s, two beams, plab");
    }
    c.label("two-beam", p1 > 0 && p2 > 0);
  }
  // inverse
  if (p1 > 1e-2 * std::max(m1, m2) && p1 > 1e-2) {
    PBT_CLOSE(c, plab_from_s(s_ft, m1, m2), p1, 1e-7, 0, "plab(s)");
    const double s_eq = s_from_plab(p1, m1, m1);
    PBT_CLOSE(c, plab_from_s(s_eq, m1), p1, 1e-7, 0, "plab(s), equal masses");
    const double s_nn = s_from_plab(p1, nucleon_mass, nucleon_mass);
    PBT_CLOSE(c, plab_from_s(s_nn), p1, 1e-7, 0, "plab(s), nucleons");
    const double v = fixed_target_projectile_v(s_ft, m1, m2);
    PBT_CLOSE(c, v, p1 / e1, 0, 1e-9, "fixed-target projectile velocity");
    c.label("inverse");
  }
}

PBT_PROP(frames, 100000, 2000000) {
  const double m1 = mass(c), m2 = mass(c);
  const double srts = (m1 + m2) * (1 + c.logreal(1e-4, 30.));
  c.note() << "m1=" << m1 << " m2=" << m2 << " sqrts=" << srts;
  c.nontrivial(m1 != m2);
  const double v = center_of_velocity_v(srts * srts, m1, m2);
  PBT_CHECK(c, v >= 0 && v < 1, "v=" << v);
  const double g = 1 / std::sqrt(1 - v * v);
  // in that frame both move with the same speed and the invariant mass is s
  const FourVector a(g * m1, 0, 0, g * m1 * v), b(g * m2, 0, 0, -g * m2 * v);
  PBT_CLOSE(c, (a + b).sqr(), srts * srts, 1e-9 * g * g, 0, "s");
  // an impossible energy is refused in builds with assertions
}

PBT_PROP(mandelstam_t, 100000, 2000000) {
  const double m1 = mass(c), m2 = mass(c), m3 = mass(c), m4 = mass(c);
  const double srts = std::max(m1 + m2, m3 + m4) * (1 + c.logreal(1e-3, 30.));
  c.note() << "m=" << m1 << "," << m2 << "->" << m3 << "," << m4 << " sqrts="
           << srts;
  c.nontrivial(true);
  const auto t = get_t_range<double>(srts, m1, m2, m3, m4);
  const L s = (L)srts * srts;
  auto pf = [&](L a, L b) {
    return sqrtl((s - (a + b) * (a + b)) * (s - (a - b) * (a - b)) / (4 * s));
  };
  const L pi = pf(m1, m2), po = pf(m3, m4);
  const L e1 = (s + (L)m1 * m1 - (L)m2 * m2) / (2 * (L)srts);
  const L e3 = (s + (L)m3 * m3 - (L)m4 * m4) / (2 * (L)srts);
  const L de = (e1 - e3) * (e1 - e3);
  // momenta come from p^2, whose rounding error is relative to s
  auto dp = [&](L p) {
    const double d2 = 20e-16 * srts * srts;
    return std::min(std::sqrt(d2), p > 0 ? d2 / (double)p : 1e300);
  };
  const double tol = 1e-13 * srts * srts +
                     4 * (double)(pi + po) * (dp(pi) + dp(po));
  PBT_CLOSE(c, t[0], (double)(de - (pi - po) * (pi - po)), 0, tol, "t_min");
  PBT_CLOSE(c, t[1], (double)(de - (pi + po) * (pi + po)), 0, tol, "t_max");
  PBT_CHECK(c, t[0] >= t[1] - tol, "order");
  // any scattering angle lands inside
  const L ct = c.real(-1, 1);
  const L tt = de - (pi * pi + po * po - 2 * pi * po * ct);
  PBT_CHECK(c, (double)tt <= t[0] + tol && (double)tt >= t[1] - tol, "range");
}

void pbt::setup() { kit::quiet(); }
void pbt::reset_case(uint64_t) {}
PBT_MAIN
