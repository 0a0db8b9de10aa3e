// P29: photons from 2 -> 2 scatterings and bremsstrahlung
#include <cmath>
#include <set>

#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>

#include "pbt.h"
#include "smash/bremsstrahlungaction.h"
#include "smash/constants.h"
#include "smash/crosssectionsbrems.h"
#include "smash/crosssectionsphoton.h"
#include "smash/interpolation.h"
#include "smash/interpolation2D.h"
#include "smash/kinematics.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smash/scatteractionphoton.h"
#include "smashkit.h"
#include "stat.h"

using namespace smash;
using XS = CrosssectionsPhoton<ComputationMethod::Analytic>;

namespace {
using stat_::count_surprise;
using stat_::ks_limit;
using stat_::kSurprise;
double ks_uniform(const std::vector<double> &v) {
  return stat_::ks(v, [](double x) { return x; });
}
double sq(double x) { return x * x; }
ParticleTypePtr pion(int q) {
  return &ParticleType::find(q > 0 ? pdg::pi_p : q < 0 ? pdg::pi_m : pdg::pi_z);
}
ParticleTypePtr rho(int q) {
  return &ParticleType::find(q > 0   ? pdg::rho_p
                             : q < 0 ? pdg::rho_m
                                     : pdg::rho_z);
}
bool is_pion(ParticleTypePtr t) { return t->pdgcode().is_pion(); }
bool is_rho(ParticleTypePtr t) {
  const int c = std::abs(t->pdgcode().code());
  return c == 0x113 || c == 0x213;
}
ParticleData particle(pbt::Case &c, ParticleTypePtr t) {
  ParticleData p{*t};
  const double m = t->is_stable()
                       ? t->mass()
                       : c.uniform(t->min_mass_spectral() + 0.01, 1.2);
  p.set_4momentum(m, kit::momentum3(c, 2.));
  p.set_4position(FourVector(c.uniform(0., 10.), kit::position3(c)));
  p.set_formation_time(c.uniform(-1., 10.));
  if (c.below(3) == 0) p.set_cross_section_scaling_factor(c.uniform(0., 1.));
  return p;
}
// the reaction: outgoing hadron, or nothing
ParticleTypePtr expected_hadron(ParticleTypePtr a, ParticleTypePtr b) {
  if (!is_pion(a)) std::swap(a, b);
  if (!is_pion(a)) return {};
  const int q = a->charge() + b->charge();
  if (std::abs(q) > 1) return {};
  if (is_pion(b)) return a->charge() || b->charge() ? rho(q) : ParticleTypePtr{};
  return is_rho(b) ? pion(q) : ParticleTypePtr{};
}
// dipole form factors, with the t of the lightest exchange particle
double dipole(double t) { return std::pow(2 / (2 - t), 8); }
double ff_pion(double e) {
  return dipole(34.5096 * std::pow(e, 0.737) - 67.557 * std::pow(e, 0.7584) +
                32.858 * std::pow(e, 0.7806));
}
double ff_omega(double e) {
  return dipole(-61.595 * std::pow(e, 0.9979) + 28.592 * std::pow(e, 1.1579) +
                37.738 * std::pow(e, 0.9317) - 5.282 * std::pow(e, 1.3686));
}
double capped(double x) { return std::min(x, 200.); }
enum Channel { kPiPiRho0, kPiPi0Rho, kPiRho0Pi, kPiRhoPi0, kPi0RhoPi, kPi0Rho0 };
const char *kChannel[] = {"pi+pi->rho0",  "pi+pi0->rho", "pi+rho0->pi",
                          "pi+rho->pi0", "pi0+rho->pi", "pi0+rho0->pi0"};
Channel channel(ParticleTypePtr a, ParticleTypePtr b) {
  if (!is_pion(a)) std::swap(a, b);
  if (is_pion(b))
    return a->charge() && b->charge() ? kPiPiRho0 : kPiPi0Rho;
  if (a->charge() && b->charge()) return kPiRhoPi0;
  if (a->charge()) return kPiRho0Pi;
  return b->charge() ? kPi0RhoPi : kPi0Rho0;
}
// contributions by pion (rho, a1) and by omega exchange
struct Two {
  double pion = 0, omega = 0;
};
Two diff(Channel ch, double s, double t, double m) {
  switch (ch) {
    case kPiPiRho0:
      return {XS::xs_diff_pi_pi_rho0(s, t, m), 0.};
    case kPiPi0Rho:
      return {XS::xs_diff_pi_pi0_rho(s, t, m), 0.};
    case kPiRho0Pi:
      return {XS::xs_diff_pi_rho0_pi(s, t, m), 0.};
    case kPiRhoPi0:
      return {XS::xs_diff_pi_rho_pi0_rho_mediated(s, t, m),
              XS::xs_diff_pi_rho_pi0_omega_mediated(s, t, m)};
    case kPi0RhoPi:
      return {XS::xs_diff_pi0_rho_pi_rho_mediated(s, t, m),
              XS::xs_diff_pi0_rho_pi_omega_mediated(s, t, m)};
    default:
      return {0., XS::xs_diff_pi0_rho0_pi0(s, t, m)};
  }
}
Two total(Channel ch, double s, double m) {
  switch (ch) {
    case kPiPiRho0:
      return {XS::xs_pi_pi_rho0(s, m), 0.};
    case kPiPi0Rho:
      return {XS::xs_pi_pi0_rho(s, m), 0.};
    case kPiRho0Pi:
      return {XS::xs_pi_rho0_pi(s, m), 0.};
    case kPiRhoPi0:
      return {XS::xs_pi_rho_pi0_rho_mediated(s, m),
              XS::xs_pi_rho_pi0_omega_mediated(s, m)};
    case kPi0RhoPi:
      return {XS::xs_pi0_rho_pi_rho_mediated(s, m),
              XS::xs_pi0_rho_pi_omega_mediated(s, m)};
    default:
      return {0., XS::xs_pi0_rho0_pi0(s, m)};
  }
}
// what is used instead of slightly negative values
Two no_negative(Two x, double v) {
  if (x.pion < 0) x.pion = v;
  if (x.omega < 0) x.omega = v;
  return x;
}
double with_ff(Two x, double e) {
  return capped((x.pion != 0 ? ff_pion(e) * x.pion : 0) +
                (x.omega != 0 ? ff_omega(e) * x.omega : 0));
}
std::vector<ParticleTypePtr> &pions_and_rhos() {
  static std::vector<ParticleTypePtr> l{pion(-1), pion(0), pion(1),
                                        rho(-1),  rho(0),  rho(1)};
  return l;
}
std::vector<std::pair<ParticleTypePtr, ParticleTypePtr>> pairs(bool brem) {
  std::vector<std::pair<ParticleTypePtr, ParticleTypePtr>> l;
  for (auto a : pions_and_rhos())
    for (auto b : pions_and_rhos())
      if (brem ? is_pion(a) && is_pion(b) : bool(expected_hadron(a, b)))
        l.push_back({a, b});
  return l;
}
double angle_between(const ThreeVector &a, const ThreeVector &b) {
  return std::atan2(a.cross_product(b).abs(), a * b);
}
// azimuth around an axis
double azimuth(const ThreeVector &axis, const ThreeVector &v) {
  const ThreeVector n = axis / axis.abs();
  ThreeVector e1 = std::abs(n.x1()) < 0.8 ? ThreeVector(1, 0, 0)
                                          : ThreeVector(0, 1, 0);
  e1 = e1 - n * (e1 * n);
  e1 = e1 / e1.abs();
  const ThreeVector e2 = n.cross_product(e1);
  return std::atan2(v * e2, v * e1) / (2 * M_PI) + 0.5;
}
template <class A>
void common(pbt::Case &c, const A &a, const ParticleList &in, double time) {
  const ParticleList &out = a.outgoing_particles();
  FourVector pin, pout;
  int qin = 0, qout = 0;
  for (auto &p : in) pin += p.momentum(), qin += p.type().charge();
  for (auto &p : out) pout += p.momentum(), qout += p.type().charge();
  const double scale = pin.x0();
  PBT_CHECK(c, (pin - pout).abs3() < 1e-7 * scale &&
                   std::abs(pin.x0() - pout.x0()) < 1e-7 * scale,
            "momentum " << kit::show(pin) << " -> " << kit::show(pout));
  PBT_CHECK(c, qin == qout, "charge " << qin << " -> " << qout);
  const ParticleData &g = out.back();
  PBT_CHECK(c, g.type().pdgcode() == pdg::photon, "no photon");
  PBT_CLOSE(c, g.momentum().abs3(), g.momentum().x0(), 1e-9, 1e-9,
            "massless photon");
  const FourVector where = a.get_interaction_point();
  for (auto &p : out) {
    PBT_CHECK(c, (p.position() - where).abs3() < 1e-12 &&
                     p.position().x0() == where.x0(),
              "position " << kit::show(p.position()));
    PBT_CLOSE(c, p.formation_time(), time, 1e-12, 1e-12, "formation time");
    PBT_CLOSE(c, p.xsec_scaling_factor(), 1., 0., 0., "scaling factor");
    if (p.type().is_stable())
      PBT_CLOSE(c, p.momentum().sqr(), sq(p.type().mass()), 1e-6,
                1e-8 * sq(p.momentum().x0()), "mass of " << p.type().name());
  }
}
class Recorder : public OutputInterface {
 public:
  explicit Recorder(const std::string &name) : OutputInterface(name) {}
  void at_interaction(const Action &a, const double density) override {
    n++;
    dens += std::abs(density);
    sum += a.get_total_weight();
    for (auto &p : a.outgoing_particles()) q += p.type().charge();
    ids.insert(a.outgoing_particles().back().momentum().x1());
  }
  int n = 0, q = 0;
  double sum = 0, dens = 0;
  std::set<double> ids;
};
struct Brems {
  std::unique_ptr<InterpolateDataLinear<double>> sigma;
  std::unique_ptr<InterpolateData2DSpline> dk, dth;
};
Brems &brems(int i) {
  static std::vector<Brems> l = [] {
    std::vector<Brems> r(5);
    const std::vector<double> s = BREMS_SQRTS, k = BREMS_K, th = BREMS_THETA;
    auto set = [&](int j, std::vector<double> a, std::vector<double> b,
                   std::vector<double> d) {
      r[j].sigma = std::make_unique<InterpolateDataLinear<double>>(s, a);
      r[j].dk = std::make_unique<InterpolateData2DSpline>(k, s, b);
      r[j].dth = std::make_unique<InterpolateData2DSpline>(th, s, d);
    };
    set(0, BREMS_PIPI_PIPI_OPP_SIG, BREMS_PIPI_PIPI_OPP_DIFF_SIG_K,
        BREMS_PIPI_PIPI_OPP_DIFF_SIG_THETA);
    set(1, BREMS_PIPI_PIPI_SAME_SIG, BREMS_PIPI_PIPI_SAME_DIFF_SIG_K,
        BREMS_PIPI_PIPI_SAME_DIFF_SIG_THETA);
    set(2, BREMS_PIPI0_PIPI0_SIG, BREMS_PIPI0_PIPI0_DIFF_SIG_K,
        BREMS_PIPI0_PIPI0_DIFF_SIG_THETA);
    set(3, BREMS_PIPI_PI0PI0_SIG, BREMS_PIPI_PI0PI0_DIFF_SIG_K,
        BREMS_PIPI_PI0PI0_DIFF_SIG_THETA);
    set(4, BREMS_PI0PI0_PIPI_SIG, BREMS_PI0PI0_PIPI_DIFF_SIG_K,
        BREMS_PI0PI0_PIPI_DIFF_SIG_THETA);
    return r;
  }();
  return l[i];
}
double positive(double x) { return x < 0 ? really_small : x; }
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
  gsl_set_error_handler_off();
}
void reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }
}  // namespace pbt

PBT_PROP(reactions, 5000, 100000) {
  ParticleList in;
  const size_t n = c.below(10) == 0 ? (c.flip() ? 1 : 3) : 2;
  for (size_t i = 0; i < n; i++) {
    auto t = c.below(3) == 0 ? kit::species(c) : c.pick(pions_and_rhos());
    in.push_back(ParticleData{*t});
  }
  const ParticleTypePtr a = &in[0].type(), b = &in[n - 1].type();
  const ParticleTypePtr h = n == 2 ? expected_hadron(a, b) : ParticleTypePtr{};
  PBT_CHECK(c, ScatterActionPhoton::is_photon_reaction(in) == bool(h),
            a->name() << " + " << b->name() << " is "
                      << (h ? "a" : "no") << " photon reaction");
  const bool brem = n == 2 && is_pion(a) && is_pion(b);
  PBT_CHECK(c, BremsstrahlungAction::is_bremsstrahlung_reaction(in) == brem,
            "bremsstrahlung of " << a->name() << " + " << b->name());
  const double rs = c.logreal(0.05, 5.);
  const bool possible =
      ScatterActionPhoton::is_kinematically_possible(rs, in);
  if (h) {
    PBT_CHECK(c, ScatterActionPhoton::outgoing_hadron_type(in) == h,
              "outgoing hadron of " << a->name() << " + " << b->name());
    const double limit = h->is_stable() ? h->mass() : h->min_mass_spectral();
    if (std::abs(rs - limit) > 2e-6)
      PBT_CHECK(c, possible == (rs > limit),
                h->name() << " at sqrt(s) = " << rs);
    c.label("possible", possible);
  } else {
    PBT_CHECK(c, !possible, "kinematics without a reaction");
  }
  c.nontrivial(bool(h) || brem);
}

// the differential cross sections integrate to the total ones
PBT_PROP(analytic, 300, 20000) {
  static gsl_integration_workspace *ws = gsl_integration_workspace_alloc(2000);
  const Channel ch = static_cast<Channel>(c.below(6));
  const double mr = c.uniform(0.3, 1.3), mp = pion_mass;
  const bool rho_out = ch == kPiPiRho0 || ch == kPiPi0Rho;
  const double threshold = std::max(2 * mp, rho_out ? mr : mr + mp);
  const double rs = threshold + c.logreal(0.02, 2.);
  const double s = rs * rs;
  const double m2 = rho_out ? mp : mr, mo = rho_out ? mr : mp;
  const auto t = get_t_range(rs, mp, m2, mo, 0.);
  struct P {
    Channel ch;
    double s, m;
    bool omega, capped;
  } p{ch, s, mr, false, false};
  gsl_function f;
  f.params = &p;
  f.function = [](double x, void *q) {
    P &r = *static_cast<P *>(q);
    const Two d = diff(r.ch, r.s, x, r.m);
    const double y = r.omega ? d.omega : d.pion;
    if (y >= 200.) r.capped = true;
    return y;
  };
  const Two sum = total(ch, s, mr);
  for (bool omega : {false, true}) {
    const double want = omega ? sum.omega : sum.pion;
    p.omega = omega;
    p.capped = false;
    double got, err;
    gsl_integration_qag(&f, t[1], t[0], 1e-12, 1e-7, 2000, GSL_INTEG_GAUSS61,
                        ws, &got, &err);
    if (p.capped || want >= 200.) {
      c.label("cut off");
      continue;
    }
    PBT_CLOSE(c, want, got, 1e-4, 1e-9 + 3 * err,
              "cross section of " << kChannel[ch] << (omega ? " (omega)" : "")
                                  << " at sqrt(s) = " << rs << ", rho mass "
                                  << mr);
  }
  if (ch == kPiRhoPi0 || ch == kPi0RhoPi) {
    const double both =
        ch == kPiRhoPi0 ? XS::xs_pi_rho_pi0(s, mr) : XS::xs_pi0_rho_pi(s, mr);
    if (sum.pion + sum.omega < 200.)
      PBT_CLOSE(c, both, sum.pion + sum.omega, 1e-6, 1e-12,
                "sum of the contributions to " << kChannel[ch]);
  }
  c.label(kChannel[ch]);
  c.nontrivial(sum.pion + sum.omega > 0);
}

PBT_PROP(scatter, 1500, 60000) {
  const auto pair = c.pick(pairs(false));
  const ParticleTypePtr ta = pair.first, tb = pair.second;
  const ParticleList in{particle(c, ta), particle(c, tb)};
  const FourVector ptot = in[0].momentum() + in[1].momentum();
  const double rs = ptot.abs(), s = ptot.sqr();
  // the rest frame is less precise for fast pairs
  const double noise = 1 + sq(ptot.x0() / rs) / 30;
  const ParticleTypePtr h = expected_hadron(ta, tb);
  if (rs < in[0].effective_mass() + in[1].effective_mass() + 0.01) return;
  if (!ScatterActionPhoton::is_kinematically_possible(rs, in) ||
      rs < h->min_mass_kinematic() + 0.05)
    return;
  const int nfrac = c.flip() ? 1 : static_cast<int>(c.count(2, 50));
  const double sigma = c.logreal(0.1, 100.), time = c.uniform(0., 3.);
  kit::seed(c.seed32());
  ScatterActionPhoton a(in, time, nfrac, sigma);
  a.add_dummy_hadronic_process(sigma);
  a.add_single_process();
  PBT_CLOSE(c, a.hadronic_cross_section(), sigma, 0., 0., "cross section");
  const Channel ch = channel(ta, tb);
  // the pion comes first, and the neutral one if there are two
  const bool swap = is_pion(ta) ? (is_pion(tb) && ta->charge() &&
                                   !tb->charge())
                                : true;
  const ParticleData &p1 = in[swap ? 1 : 0], &p2 = in[swap ? 0 : 1];
  const ThreeVector beta = ptot.velocity();
  const ThreeVector axis = p1.momentum().lorentz_boost(beta).threevec();
  const double scaling =
      in[0].xsec_scaling_factor() * in[1].xsec_scaling_factor();
  std::vector<double> us, phis;
  const size_t shots = c.below(4) == 0 ? 300 : 3;
  double mh = -1;
  for (size_t i = 0; i < shots; i++) {
    a.generate_final_state();
    common(c, a, in, a.time_of_execution());
    const ParticleList &out = a.outgoing_particles();
    PBT_CHECK(c, out.size() == 2 && out[0].type() == *h, "final state");
    PBT_CHECK(c, a.get_type() == ProcessType::TwoToTwo, "process type");
    const double m_out =
        h->is_stable() ? h->mass() : std::sqrt(out[0].momentum().sqr());
    if (mh < 0) mh = m_out;
    PBT_CLOSE(c, m_out, mh, 1e-5, 1e-6, "mass of the outgoing hadron");
    const FourVector k = out[1].momentum();
    const double m1 = p1.effective_mass(), m2 = p2.effective_mass();
    const auto tr = get_t_range(rs, m1, m2, m_out, 0.);
    const FourVector kcm = k.lorentz_boost(beta),
                     p2cm = p2.momentum().lorentz_boost(beta);
    const double t = sq(m2) - 2 * (kcm.x0() * p2cm.x0() -
                                   kcm.threevec() * p2cm.threevec());
    const double u = (t - tr[1]) / (tr[0] - tr[1]);
    PBT_CHECK(c, u > -1e-4 && u < 1 + 1e-4, "t = " << t << " is outside");
    us.push_back(std::min(1., std::max(0., u)));
    phis.push_back(azimuth(axis, kcm.threevec()));
    const bool out_rho = is_rho(h);
    const double mr = out_rho ? m_out : p2.effective_mass();
    double w, dw;
    if (nfrac > 1) {
      const double dt = (tr[0] - tr[1]) / (nfrac * sigma) * scaling;
      auto at = [&](double x, double m) {
        return with_ff(no_negative(diff(ch, s, x, m), 0.01), k.x0()) * dt;
      };
      w = at(t, mr);
      const double e = noise * (1e-7 + 1e-7 * (tr[0] - tr[1])) +
                       1.5e-6 / axis.abs() * (tr[0] - tr[1]);
      dw = std::abs(at(t + e, mr) - w) + std::abs(at(t - e, mr) - w) +
           std::abs(at(t, mr + 1e-6 * out_rho) - w);
      // numerical noise at the edge
      const Two d = diff(ch, s, t, mr);
      if (d.pion + d.omega < 1e-3) continue;
    } else {
      auto at = [&](double m) {
        return with_ff(no_negative(total(ch, s, m), 0.1), k.x0()) / sigma *
               scaling;
      };
      w = at(mr);
      dw = out_rho ? std::abs(at(mr + 1e-6) - w) + std::abs(at(mr - 1e-6) - w)
                   : 0;
      const Two d = total(ch, s, mr);
      if (d.pion + d.omega < 1e-3) continue;
    }
    PBT_CLOSE(c, a.get_total_weight(), w, 1e-4, 3 * dw + 1e-12,
              "weight for " << kChannel[ch] << " with " << nfrac
                            << " photons at sqrt(s) = " << rs << ", t = " << t
                            << ", k = " << k.x0());
  }
  if (shots > 100) {
    PBT_CHECK(c, ks_uniform(us) < ks_limit(us.size()),
              "t is not uniform: " << ks_uniform(us));
    PBT_CHECK(c, ks_uniform(phis) < ks_limit(phis.size()),
              "azimuth is not uniform: " << ks_uniform(phis));
  }
  c.label(kChannel[ch]);
  c.label("fractional", nfrac > 1);
  c.nontrivial(scaling > 0);
}

PBT_PROP(brems, 1500, 60000) {
  ParticleTypePtr ta = pion(c.below(3) - 1), tb = pion(c.below(3) - 1);
  const ParticleList in{particle(c, ta), particle(c, tb)};
  const FourVector ptot = in[0].momentum() + in[1].momentum();
  const double rs = ptot.abs(), s = ptot.sqr();
  // the rest frame is less precise for fast pairs
  const double noise = 1 + sq(ptot.x0() / rs) / 30;
  if (rs < ta->mass() + tb->mass() + 0.01) return;
  const int nfrac = static_cast<int>(c.count(1, 50));
  const double sigma = c.logreal(0.1, 100.), time = c.uniform(0., 3.);
  kit::seed(c.seed32());
  BremsstrahlungAction a(in, time, nfrac, sigma);
  a.add_dummy_hadronic_process(sigma);
  a.add_single_process();
  const ThreeVector beta = ptot.velocity();
  const int q1 = ta->charge(), q2 = tb->charge();
  // polar angles are with respect to the (charged) first pion
  const ThreeVector axis = in[q1 == 0 && q2 != 0 ? 1 : 0]
                               .momentum()
                               .lorentz_boost(beta)
                               .threevec();
  const double scaling =
      in[0].xsec_scaling_factor() * in[1].xsec_scaling_factor();
  std::vector<double> ks, ths, phis, phip, ctp;
  const size_t shots = c.below(4) == 0 ? 300 : 3;
  double kmax = 0;
  for (size_t i = 0; i < shots; i++) {
    a.generate_final_state();
    common(c, a, in, a.time_of_execution());
    const ParticleList &out = a.outgoing_particles();
    PBT_CHECK(c, out.size() == 3 && is_pion(&out[0].type()) &&
                     is_pion(&out[1].type()),
              "final state");
    PBT_CHECK(c, a.get_type() == ProcessType::Bremsstrahlung, "process type");
    const int o1 = out[0].type().charge(), o2 = out[1].type().charge();
    int table;
    if (q1 * q2 == -1)
      table = o1 == 0 ? 3 : 0;
    else if (q1 * q2 == 1)
      table = 1;
    else
      table = q1 + q2 ? 2 : 4;
    const bool same = (o1 == q1 && o2 == q2) || (o1 == q2 && o2 == q1);
    PBT_CHECK(c, table == 3   ? o2 == 0
                 : table == 4 ? o1 * o2 == -1
                              : same,
              q1 << " + " << q2 << " -> " << o1 << " + " << o2);
    const FourVector kcm = out[2].momentum().lorentz_boost(beta);
    const double k = kcm.x0();
    const double mo = out[0].type().mass() + out[1].type().mass();
    kmax = (s - mo * mo) / (2 * rs);
    PBT_CHECK(c, k > 0.001 - 1e-6 && k < kmax + 1e-6,
              "photon momentum " << k << " not in [0.001, " << kmax << "]");
    const double th = angle_between(axis, kcm.threevec());
    ks.push_back(std::min(1., std::max(0., (k - 0.001) / (kmax - 0.001))));
    ths.push_back(th / M_PI);
    phis.push_back(azimuth(axis, kcm.threevec()));
    // isotropic decay of the pion pair
    const FourVector pair = ptot.lorentz_boost(beta) - kcm;
    const ThreeVector pp = out[0]
                               .momentum()
                               .lorentz_boost(beta)
                               .lorentz_boost(pair.velocity())
                               .threevec();
    if (pp.abs() > 1e-4) {
      ctp.push_back(0.5 + 0.5 * std::cos(angle_between(axis, pp)));
      phip.push_back(azimuth(axis, pp));
    }
    Brems &b = brems(table);
    auto at = [&](double kk, double tt) {
      return std::sqrt(positive((*b.dk)(kk, rs)) * (kmax - 0.001) *
                       positive((*b.dth)(tt, rs)) * M_PI) /
             (nfrac * sigma) * scaling;
    };
    const double w = at(k, th), ek = 1e-6 * noise,
                 et = 1e-6 * noise + 1.5e-6 / axis.abs();  // get_phi()
    const double dw = std::abs(at(k + ek, th) - w) +
                      std::abs(at(k - ek, th) - w) +
                      std::abs(at(k, th + et) - w) +
                      std::abs(at(k, std::abs(th - et)) - w);
    PBT_CLOSE(c, a.get_total_weight(), w, 1e-4, 3 * dw + 1e-12,
              "weight of bremsstrahlung off " << ta->name() << tb->name()
                                              << " at sqrt(s) = " << rs
                                              << ", k = " << k << ", theta = "
                                              << th);
  }
  if (shots > 100) {
    auto uniform = [&](const std::vector<double> &x, const char *what) {
      if (x.size() > 100)
        PBT_CHECK(c, ks_uniform(x) < ks_limit(x.size()),
                  what << " is not uniform: " << ks_uniform(x));
    };
    uniform(ks, "photon momentum");
    uniform(ths, "polar angle");
    uniform(phis, "azimuth");
    uniform(ctp, "polar angle of the pion in the pair");
    uniform(phip, "azimuth of the pion in the pair");
  }
  c.label(std::string(ta->name()) + tb->name());
  c.nontrivial(scaling > 0);
}

// the choice among the final states of pi+ pi-
PBT_PROP(final_states, 40, 1000) {
  ParticleData a{*pion(1)}, b{*pion(-1)};
  const double p = c.uniform(0.08, 1.5);
  a.set_4momentum(a.type().mass(), kit::direction(c) * p);
  b.set_4momentum(b.type().mass(), -a.momentum().threevec());
  a.set_formation_time(0.);
  b.set_formation_time(0.);
  const double rs = (a.momentum() + b.momentum()).abs();
  const double s0 = std::max(really_small, (*brems(3).sigma)(rs)),
               s1 = std::max(really_small, (*brems(0).sigma)(rs));
  kit::seed(c.seed32());
  const int n = 2000;
  int neutral = 0;
  for (int i = 0; i < n; i++) {
    BremsstrahlungAction act({a, b}, 0., 1, 10.);
    act.add_single_process();
    act.generate_final_state();
    neutral += act.outgoing_particles()[0].type().charge() == 0;
  }
  PBT_CHECK(c, count_surprise(neutral, n, s0 / (s0 + s1)) < kSurprise,
            neutral << " of " << n << " are pi0 pi0, but expected "
                    << n * s0 / (s0 + s1));
  c.nontrivial(true);
}

// every photon goes to the photon outputs, and only there
PBT_PROP(outputs, 300, 10000) {
  const bool brem = c.flip();
  const auto pair = c.pick(pairs(brem));
  const ParticleTypePtr ta = pair.first, tb = pair.second;
  const ParticleList in{particle(c, ta), particle(c, tb)};
  const double rs = (in[0].momentum() + in[1].momentum()).abs();
  if (rs < in[0].effective_mass() + in[1].effective_mass() + 0.01) return;
  if (!brem && (!ScatterActionPhoton::is_kinematically_possible(rs, in) ||
                rs < expected_hadron(ta, tb)->min_mass_kinematic() + 0.05))
    return;
  OutputsList outputs;
  std::vector<Recorder *> rec;
  std::vector<bool> wants;
  for (const char *name : {"Photons", "Particles", "Collisions", "Photons"}) {
    auto o = std::make_unique<Recorder>(name);
    rec.push_back(o.get());
    wants.push_back(std::string(name) == "Photons");
    outputs.push_back(std::move(o));
  }
  const int n = static_cast<int>(c.count(1, 20));
  kit::seed(c.seed32());
  if (brem) {
    BremsstrahlungAction a(in, 0., n, 10.);
    a.add_single_process();
    a.perform_bremsstrahlung(outputs);
  } else {
    ScatterActionPhoton a(in, 0., n, 10.);
    a.add_single_process();
    a.perform_photons(outputs);
  }
  for (size_t i = 0; i < rec.size(); i++) {
    PBT_CHECK(c, rec[i]->n == (wants[i] ? n : 0),
              rec[i]->n << " photons in output " << i << " instead of " << n);
    if (!wants[i]) continue;
    PBT_CHECK(c, rec[i]->ids.size() == static_cast<size_t>(n),
              "the same photon several times");
    PBT_CHECK(c, rec[i]->q == n * (ta->charge() + tb->charge()), "charge");
    PBT_CLOSE(c, rec[i]->dens, 0., 0., 0., "density");
    PBT_CLOSE(c, rec[i]->sum, rec[0]->sum, 1e-12, 0., "weights");
  }
  c.label(brem ? "bremsstrahlung" : "scattering");
  c.nontrivial(n > 1);
}

PBT_MAIN
