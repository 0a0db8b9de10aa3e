// P16: lattices, densities, currents and energy-momentum tensors.
#include <algorithm>
#include <map>
#include <set>

#include "params.h"
#include "smash/density.h"
#include "smash/energymomentumtensor.h"
#include "smash/lattice.h"
#include "smash/particles.h"
#include "smashkit.h"

using namespace smash;

namespace {
using L = long double;
const char *particles =
    "π  0.138   7.7e-9    -      111      211\n"
    "K  0.494   0         -      311 321\n"
    "ρ  0.776  0.149      -      113 213\n"
    "N  0.938   0         +      2112 2212\n"
    "Δ  1.232  0.117      +      1114 2114 2214 2224\n"
    "Λ  1.116   0         +      3122\n"
    "Ω  1.672   0         +      3334\n"
    "d  1.8756  0         +      1000010020\n"
    "γ  0       0         -      22\n"
    "e⁻ 0.000511 0        +      11\n";
const char *decays =
    "ρ\n1. 1 π π\n\nΔ\n1. 1 N π\n\n";

template <class T>
struct Lat {
  std::array<double, 3> l, o;
  std::array<int, 3> n;
  bool per;
  RectangularLattice<T> make(LatticeUpdate u =
                                 LatticeUpdate::EveryTimestep) const {
    return RectangularLattice<T>(l, n, o, per, u);
  }
  double h(int i) const { return l[i] / n[i]; }
  double centre(int i, int k) const { return o[i] + h(i) * (k + 0.5); }
  size_t cells() const { return static_cast<size_t>(n[0]) * n[1] * n[2]; }
  size_t index(int x, int y, int z) const {
    return x + n[0] * (y + static_cast<size_t>(n[1]) * z);
  }
  static int wrap(int i, int n) { return ((i % n) + n) % n; }
};
using Plain = Lat<double>;

Plain lattice(pbt::Case &c, int nmin, int nmax) {
  Plain p;
  for (int i = 0; i < 3; i++) {
    p.l[i] = c.uniform(0.5, 12.);
    p.o[i] = c.flip() ? -0.5 * p.l[i] : c.uniform(-10., 10.);
    p.n[i] = nmin + c.below(nmax - nmin + 1);
  }
  p.per = c.flip();
  c.note() << (p.per ? "periodic " : "") << p.n[0] << "x" << p.n[1] << "x"
           << p.n[2] << " " << p.l[0] << "," << p.l[1] << "," << p.l[2]
           << " at " << p.o[0] << "," << p.o[1] << "," << p.o[2] << "\n";
  return p;
}

using Key3 = std::array<int, 3>;

// the quantum numbers of a density, from the PDG code
double factor(const ParticleType &t, DensityType d) {
  const int b = t.pdgcode().baryon_number();
  switch (d) {
    case DensityType::Hadron:
      return t.is_hadron() ? 1. : 0.;
    case DensityType::Baryon:
      return b;
    case DensityType::BaryonicIsospin:
      // I3/I of baryons; a nucleus has as many of either as nucleons
      if (t.is_nucleus()) return t.isospin3_rel();
      return b == 0 || t.isospin() == 0
                 ? 0.
                 : static_cast<double>(t.isospin3()) / t.isospin();
    case DensityType::Pion:
      return std::abs(t.pdgcode().get_decimal()) == 211 ||
                     t.pdgcode().get_decimal() == 111
                 ? 1.
                 : 0.;
    case DensityType::Isospin3_tot:
      return t.is_hadron() ? t.isospin3() : 0.;
    case DensityType::Charge:
      return t.pdgcode().charge();
    case DensityType::Strangeness:
      return t.pdgcode().strangeness();
    default:
      return 0.;
  }
}
const std::vector<DensityType> kinds = {
    DensityType::Hadron,       DensityType::Baryon,
    DensityType::BaryonicIsospin, DensityType::Pion,
    DensityType::Isospin3_tot, DensityType::Charge,
    DensityType::Strangeness,  DensityType::None};

struct V4 {
  L v[4] = {0, 0, 0, 0};
};
// current of one particle and its derivatives (by analytic differentiation of
// the documented kernel written in the distance in the rest frame)
struct Current {
  V4 pos, neg, d[4];
  void add(const ParticleData &q, double f, L sf, const L *grad) {
    const FourVector p = q.momentum();
    for (int m = 0; m < 4; m++) {
      const L u = static_cast<L>(p[m]) / p[0] * f;
      (f > 0 ? pos : neg).v[m] += u * sf;
      L dt = 0;
      for (int k = 0; k < 3; k++) {
        d[k + 1].v[m] += u * grad[k];
        dt -= static_cast<L>(p[k + 1]) / p[0] * grad[k];
      }
      d[0].v[m] += u * dt;
    }
  }
  static L mag(const V4 &a) {
    return a.v[0] * a.v[0] - a.v[1] * a.v[1] - a.v[2] * a.v[2] -
           a.v[3] * a.v[3];
  }
  static L abs(const V4 &a) {
    const L m = mag(a);
    return m > 0 ? sqrtl(m) : 0;
  }
  L rho() const { return abs(pos) - abs(neg); }
  L net(int m) const { return pos.v[m] + neg.v[m]; }
};
// normalized covariant Gaussian at r for a particle, and whether the point is
// so close to the cut that rounding decides
bool kernel(const ParticleData &q, const ThreeVector &r, const kit::Params &par,
            L &sf, L *grad) {
  const FourVector p = q.momentum();
  L d[3], b[3], g, bd = 0, b2 = 0, d2 = 0;
  for (int i = 0; i < 3; i++) {
    d[i] = static_cast<L>(r[i]) - q.position()[i + 1];
    b[i] = static_cast<L>(p[i + 1]) / p[0];
    bd += b[i] * d[i];
    b2 += b[i] * b[i];
  }
  g = 1 / sqrtl(1 - b2);
  // distance in the rest frame of the particle
  L x[3];
  for (int i = 0; i < 3; i++) {
    x[i] = d[i] + g * g / (1 + g) * b[i] * bd;
    d2 += x[i] * x[i];
  }
  const L cut = par.cutoff * par.sigma, s2 = static_cast<L>(par.sigma) *
                                             par.sigma;
  sf = 0;
  for (int i = 0; i < 3; i++) grad[i] = 0;
  if (fabsl(sqrtl(d2) - cut) < 1e-9L * cut) return false;
  if (d2 > cut * cut) return true;
  const L a = par.cutoff / sqrtl(2.L);
  const L inside = erfl(a) - 2 / sqrtl(M_PIl) * a * expl(-a * a);
  sf = g * expl(-d2 / (2 * s2)) /
       (powl(2 * M_PIl * s2, 1.5L) * inside * par.testparticles *
        par.ensembles);
  // grad of d2/2 = d_i + g^2 b_i (b d)
  for (int i = 0; i < 3; i++) grad[i] = -sf * (d[i] + g * g * b[i] * bd) / s2;
  return true;
}

kit::Params params(pbt::Case &c) {
  kit::Params p;
  p.sigma = c.uniform(0.3, 2.);
  p.cutoff = c.uniform(1., 5.);
  p.testparticles = 1 + c.below(20);
  p.ensembles = 1 + c.below(3);
  p.participants = c.below(3) == 0;
  return p;
}

ParticleData particle(pbt::Case &c, const ThreeVector &r) {
  ParticleTypePtr t = c.chance(0.5)
                          ? &ParticleType::find(PdgCode::from_decimal(
                                c.one_of<int>({2212, 2112, -2212, -2112})))
                          : &c.pick(ParticleType::list_all());
  if (t->mass() < 1e-6) t = &ParticleType::find(0x111);
  ParticleData d{*t};
  const double g = 1. + (c.flip() ? c.uniform(0., 1.) : c.logreal(1e-6, 50.));
  d.set_4momentum(t->mass() * (t->is_stable() ? 1. : c.uniform(0.8, 1.2)),
                  kit::direction(c) * t->mass() * std::sqrt(g * g - 1.));
  d.set_4position(FourVector(0., r));
  if (c.flip())
    d.set_history(1 + c.below(3), 1, ProcessType::TwoToTwo, 0., {d, d});
  return d;
}
bool counted(const ParticleData &q, const kit::Params &p) {
  return !p.participants || q.get_history().collisions_per_particle > 0;
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  kit::load(particles, decays);
}
void pbt::reset_case(uint64_t) { kit::seed(1); }

// which nodes a position and a range refer to
PBT_PROP(nodes, 6000, 300000) {
  const Plain p = lattice(c, 1, 6);
  auto lat = p.make();
  std::vector<double> want(p.cells());
  for (int z = 0; z < p.n[2]; z++)
    for (int y = 0; y < p.n[1]; y++)
      for (int x = 0; x < p.n[0]; x++) {
        const size_t i = p.index(x, y, z);
        PBT_CHECK(c, static_cast<size_t>(lat.index1d(x, y, z)) == i, "index");
        want[i] = 1. + i;
        lat.assign_value(i, want[i]);
        for (const ThreeVector &r :
             {lat.cell_center(x, y, z), lat.cell_center(static_cast<int>(i))}) {
          PBT_CLOSE(c, r[0], p.centre(0, x), 1e-14, 1e-13, "centre");
          PBT_CLOSE(c, r[1], p.centre(1, y), 1e-14, 1e-13, "centre");
          PBT_CLOSE(c, r[2], p.centre(2, z), 1e-14, 1e-13, "centre");
        }
      }
  PBT_CHECK(c, lat.size() == p.cells(), "number of nodes");
  // any point, given by a cell (maybe outside) and a position inside of it
  Key3 k;
  ThreeVector r;
  bool inside = true;
  for (int i = 0; i < 3; i++) {
    k[i] = c.below(3) ? static_cast<int>(c.below(p.n[i]))
                      : static_cast<int>(c.below(p.n[i] * 3)) - p.n[i];
    r[i] = p.o[i] + p.h(i) * (k[i] + c.uniform(0.001, 0.999));
    inside = inside && k[i] >= 0 && k[i] < p.n[i];
  }
  c.note() << "point " << kit::show(r) << "\n";
  auto at = [&](int x, int y, int z) {
    return p.index(Plain::wrap(x, p.n[0]), Plain::wrap(y, p.n[1]),
                   Plain::wrap(z, p.n[2]));
  };
  double v = -1.;
  const bool found = lat.value_at(r, v);
  PBT_CHECK(c, found == (inside || p.per), "value_at: on the lattice: "
                                               << found);
  PBT_CHECK(c, lat.out_of_bounds(k[0], k[1], k[2]) == (!inside && !p.per),
            "out_of_bounds");
  PBT_CHECK(c, v == (found ? want[at(k[0], k[1], k[2])] : 0.),
            "value_at: " << v);
  if (inside || p.per)
    PBT_CHECK(c, lat.node(k[0], k[1], k[2]) == want[at(k[0], k[1], k[2])],
              "node");
  // nodes within a distance in every direction
  std::array<double, 3> d;
  const bool cube = c.flip();
  d[0] = c.uniform(0.01, 2. * p.l[0]);
  for (int i = 1; i < 3; i++) d[i] = cube ? d[0] : c.uniform(0.01, 2. * p.l[i]);
  std::multiset<Key3> expect, got;
  Key3 lo, hi;
  for (int i = 0; i < 3; i++) {
    lo[i] = static_cast<int>(std::floor((r[i] - d[i] - p.o[i]) / p.h(i))) - 2;
    hi[i] = static_cast<int>(std::floor((r[i] + d[i] - p.o[i]) / p.h(i))) + 2;
    if (p.per && lo[i] < -200 * p.n[i]) c.discard();
    if (hi[i] - lo[i] > 60) c.discard();
    if (!p.per) {
      lo[i] = std::max(lo[i], 0);
      hi[i] = std::min(hi[i], p.n[i] - 1);
    }
  }
  for (int x = lo[0]; x <= hi[0]; x++)
    for (int y = lo[1]; y <= hi[1]; y++)
      for (int z = lo[2]; z <= hi[2]; z++) {
        bool in = true;
        const int q[3] = {x, y, z};
        for (int i = 0; i < 3; i++) {
          const double e = std::fabs(p.centre(i, q[i]) - r[i]) - d[i];
          if (std::fabs(e) < 1e-9) c.discard();
          in = in && e < 0;
        }
        if (in) expect.insert(Key3{x, y, z});
      }
  auto visit = [&](double &node, int x, int y, int z) {
    got.insert(Key3{x, y, z});
    PBT_CHECK(c, &node == &lat[at(x, y, z)], "wrong node of the lattice");
  };
  if (cube)
    lat.iterate_in_cube(r, d[0], visit);
  else
    lat.iterate_in_rectangle(r, d, visit);
  PBT_CHECK(c, got == expect, "visited " << got.size() << " nodes, expected "
                                         << expect.size());
  if (cube) {
    double sum = 0., sum_want = 0.;
    lat.integrate_volume<double>(
        sum,
        [](ThreeVector x, double &value, ThreeVector pt) {
          return value * (x - pt).sqr();
        },
        d[0], r);
    for (auto &q : expect) {
      const ThreeVector x{p.centre(0, q[0]), p.centre(1, q[1]),
                          p.centre(2, q[2])};
      sum_want += want[at(q[0], q[1], q[2])] * (x - r).sqr() * p.h(0) *
                  p.h(1) * p.h(2);
    }
    PBT_CLOSE(c, sum, sum_want, 1e-11, 1e-11, "volume integral");
  }
  // the node of the point and its neighbours
  std::multiset<size_t> near, near_want;
  lat.iterate_nearest_neighbors(r, [&](double &node, int i, int centre) {
    near.insert(i);
    PBT_CHECK(c, static_cast<size_t>(centre) == at(k[0], k[1], k[2]),
              "centre of the neighbours");
    PBT_CHECK(c, &node == &lat[i], "wrong neighbour");
  });
  if (inside || p.per) {
    const int step[7][3] = {{0, 0, 0},  {1, 0, 0},  {-1, 0, 0}, {0, 1, 0},
                            {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    for (auto &s : step) {
      const int x = k[0] + s[0], y = k[1] + s[1], z = k[2] + s[2];
      if (p.per || (x >= 0 && x < p.n[0] && y >= 0 && y < p.n[1] && z >= 0 &&
                    z < p.n[2]))
        near_want.insert(at(x, y, z));
    }
  }
  PBT_CHECK(c, near == near_want, "visited " << near.size()
                                             << " neighbours, expected "
                                             << near_want.size());
  c.nontrivial(!expect.empty());
  c.label("outside", !inside);
  // structure
  Plain other = p;
  if (c.flip()) {
    switch (c.below(4)) {
      case 0:
        other.l[c.below(3)] *= 1.01;
        break;
      case 1:
        other.o[c.below(3)] += 0.01;
        break;
      case 2:
        other.n[c.below(3)]++;
        break;
      default:
        other.per = !other.per;
    }
    const auto b = other.make();
    PBT_CHECK(c, !lat.identical_to_lattice(&b), "different lattices");
  } else {
    const auto b = Lat<FourVector>{p.l, p.o, p.n, p.per}.make();
    PBT_CHECK(c, lat.identical_to_lattice(&b), "identical lattices");
  }
  // a new shape
  auto copy = lat;
  PBT_CHECK(c, std::equal(copy.begin(), copy.end(), lat.begin()), "copy");
  std::optional<std::array<double, 3>> nl, no;
  std::optional<std::array<int, 3>> nn;
  other.per = p.per;
  if (c.flip()) nl = other.l;
  if (c.flip()) no = other.o;
  if (c.flip()) {
    for (int i = 0; i < 3; i++) other.n[i] = 1 + c.below(7);
    nn = other.n;
  }
  bool thrown = false;
  try {
    copy.reset_and_resize(nl, no, nn);
  } catch (std::invalid_argument &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown == !(nl || no || nn), "resize without arguments");
  if (!thrown) {
    if (!nl) other.l = p.l;
    if (!no) other.o = p.o;
    if (!nn) other.n = p.n;
    const auto b = other.make();
    PBT_CHECK(c, copy.identical_to_lattice(&b), "resized lattice");
    PBT_CHECK(c, copy.size() == other.cells(), "number of nodes");
    for (int i = 0; i < 3; i++)
      PBT_CLOSE(c, copy.cell_sizes()[i], other.h(i), 1e-14, 0., "cell size");
    for (double x : copy) PBT_CHECK(c, x == 0., "not reset");
  }
}

// finite differences
PBT_PROP(gradients, 4000, 200000) {
  const Plain p = lattice(c, 1, 6);
  auto lat = p.make();
  Lat<FourVector> q{p.l, p.o, p.n, p.per};
  auto now = q.make(), before = q.make();
  const double dt = c.logreal(1e-3, 1.);
  const bool linear = c.flip();
  double a[5][4];
  for (auto &i : a)
    for (auto &j : i) j = c.uniform(-3., 3.);
  auto value = [&](int m, int x, int y, int z, double t) {
    if (linear)
      return a[m][0] * p.centre(0, x) + a[m][1] * p.centre(1, y) +
             a[m][2] * p.centre(2, z) + a[m][3] * t;
    return c.uniform(-1., 1.);
  };
  for (int z = 0; z < p.n[2]; z++)
    for (int y = 0; y < p.n[1]; y++)
      for (int x = 0; x < p.n[0]; x++) {
        const size_t i = p.index(x, y, z);
        lat[i] = value(0, x, y, z, 0.);
        for (int m = 0; m < 4; m++) {
          now[i][m] = value(m + 1, x, y, z, 0.);
          before[i][m] = value(m + 1, x, y, z, -dt);
        }
      }
  Plain other = p;
  const bool mismatch = c.below(8) == 0;
  if (mismatch) other.o[0] += 1.;
  auto g3 = Lat<ThreeVector>{other.l, other.o, other.n, other.per}.make();
  auto g4 = Lat<std::array<FourVector, 4>>{other.l, other.o, other.n,
                                           other.per}
                .make();
  const bool small = *std::min_element(p.n.begin(), p.n.end()) < 2;
  for (int k = 0; k < 2; k++) {
    bool thrown = false;
    try {
      if (k)
        now.compute_four_gradient_lattice(before, dt, g4);
      else
        lat.compute_gradient_lattice(g3);
    } catch (std::exception &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown == (small || mismatch), "exception: " << thrown);
  }
  if (small || mismatch) return;
  for (int z = 0; z < p.n[2]; z++)
    for (int y = 0; y < p.n[1]; y++)
      for (int x = 0; x < p.n[0]; x++) {
        const size_t i = p.index(x, y, z);
        const int pos[3] = {x, y, z};
        for (int m = 0; m < 5; m++) {
          auto val = [&](size_t j) { return m ? now[j][m - 1] : lat[j]; };
          for (int d = 0; d < 3; d++) {
            int up[3] = {x, y, z}, down[3] = {x, y, z};
            double w = 2.;
            up[d]++;
            down[d]--;
            if (p.per) {
              up[d] = Plain::wrap(up[d], p.n[d]);
              down[d] = Plain::wrap(down[d], p.n[d]);
            } else {
              if (up[d] == p.n[d]) up[d]--, w = 1.;
              if (down[d] < 0) down[d]++, w = 1.;
            }
            const double want = (val(p.index(up[0], up[1], up[2])) -
                                 val(p.index(down[0], down[1], down[2]))) /
                                (w * p.h(d));
            const double got = m ? g4[i][d + 1][m - 1] : g3[i][d];
            PBT_CLOSE(c, got, want, 1e-12, 1e-11,
                      "derivative " << d << " of component " << m << " at "
                                    << x << "," << y << "," << z);
            if (linear && !p.per)
              PBT_CLOSE(c, got, a[m][d], 1e-9, 1e-9, "slope");
          }
          if (m)
            PBT_CLOSE(c, g4[i][0][m - 1], (now[i][m - 1] - before[i][m - 1]) /
                                              dt,
                      1e-12, 1e-10, "time derivative");
        }
        (void)pos;
      }
  c.nontrivial();
}

// the current of smeared particles at a point
PBT_PROP(current, 8000, 400000) {
  kit::Params par = params(c);
  const auto ep = par.make();
  const DensityParameters dp(ep);
  const ThreeVector r = kit::position3(c, 3.);
  ParticleList l;
  const size_t n = c.count(0, 12);
  for (size_t i = 0; i < n; i++)
    l.push_back(particle(
        c, r + kit::direction(c) * par.sigma * par.cutoff * c.uniform(0., 1.3)));
  const DensityType kind = c.pick(kinds);
  const bool gradient = c.flip(), smear = c.below(4) != 0;
  Current j;
  size_t close = 0;
  L scale = 0;
  for (auto &q : l) {
    const double f = factor(q.type(), kind);
    PBT_CLOSE(c, density_factor(q.type(), kind), f, 1e-15, 0.,
              "charge of " << q.type().name());
    if (f == 0. || !counted(q, par)) continue;
    L sf, grad[3];
    if (!kernel(q, r, par, sf, grad)) c.discard();
    if (sf > 0) close++;
    scale = std::max(scale, sf);
    j.add(q, f, smear ? sf : 1, grad);
  }
  std::tuple<double, FourVector, ThreeVector, ThreeVector, FourVector,
             FourVector, FourVector, FourVector>
      got;
  if (c.flip()) {
    got = current_eckart(r, l, dp, kind, gradient, smear);
  } else {
    Particles ps;
    for (auto &q : l) ps.insert(q);
    got = current_eckart(r, ps, dp, kind, gradient, smear);
  }
  const double s = smear ? static_cast<double>(scale) : 1.;
  for (int m = 0; m < 4; m++)
    PBT_CLOSE(c, std::get<1>(got)[m], static_cast<double>(j.net(m)), 1e-9,
              1e-11 * s * (n + 1), "current component " << m);
  if (smear) {
    // near light-like currents lose half of the digits
    PBT_CLOSE(c, std::get<0>(got), static_cast<double>(j.rho()), 1e-8,
              1e-7 * s, "rest frame density");
  }
  const FourVector d[4] = {std::get<4>(got), std::get<5>(got),
                           std::get<6>(got), std::get<7>(got)};
  const double g = s / par.sigma * par.cutoff * 100.;
  for (int k = 0; k < 4; k++)
    for (int m = 0; m < 4; m++)
      PBT_CLOSE(c, d[k][m], gradient ? static_cast<double>(j.d[k].v[m]) : 0.,
                1e-8, 1e-11 * g, "derivative " << k << " of component " << m);
  for (int k = 0; k < 3; k++) {
    const int a = (k + 1) % 3 + 1, b = (k + 2) % 3 + 1;
    PBT_CLOSE(c, std::get<2>(got)[k],
              gradient ? static_cast<double>(j.d[k + 1].v[0]) : 0., 1e-8,
              1e-11 * g, "gradient of the density");
    PBT_CLOSE(c, std::get<3>(got)[k],
              gradient ? static_cast<double>(j.d[a].v[b] - j.d[b].v[a]) : 0.,
              1e-8, 1e-11 * g, "curl of the current");
  }
  c.nontrivial(close > 1);
  c.label("smeared", smear && close);
  c.label("gradient", gradient && close);
}

// densities on a lattice
// a node as a sum of contributions
PBT_PROP(node, 2000, 50000) {
  DensityOnLattice n;
  L pos[4] = {}, neg[4] = {}, d[4][4] = {}, scale = 1e-30;
  auto vector4 = [&] {
    return FourVector(c.uniform(-2, 2), c.uniform(-2, 2), c.uniform(-2, 2),
                      c.uniform(-2, 2));
  };
  FourVector drho;
  const size_t ops = c.count(1, 12);
  for (size_t k = 0; k < ops; k++) {
    const ParticleData pd = particle(c, ThreeVector());
    const double f = c.uniform(-2, 2);
    const ThreeVector v = pd.velocity();
    const ThreeVector g(c.uniform(-2, 2), c.uniform(-2, 2), c.uniform(-2, 2));
    const FourVector j = vector4();
    auto u = [&](int m) { return m ? v[m - 1] : 1.; };
    switch (c.below(8)) {
      case 0:
        n.add_to_jmu_pos(j);
        for (int m = 0; m < 4; m++) pos[m] += j[m];
        break;
      case 1:
        n.add_to_jmu_neg(j);
        for (int m = 0; m < 4; m++) neg[m] += j[m];
        break;
      case 2:
        n.overwrite_djmu_dt_to_zero();
        for (L &x : d[0]) x = 0;
        break;
      case 3:
        n.overwrite_drho_dxnu(drho = j);
        break;
      case 4:
        n.overwrite_drho_dt_to_zero();
        drho[0] = 0;
        break;
      case 5: {
        FourVector a[4];
        for (auto &x : a) x = vector4();
        n.overwrite_djmu_dxnu(a[0], a[1], a[2], a[3]);
        for (int i = 0; i < 4; i++)
          for (int m = 0; m < 4; m++) d[i][m] = a[i][m];
        break;
      }
      case 6:
        n.add_particle_for_derivatives(pd, f, g);
        for (int i = 1; i < 4; i++)
          for (int m = 0; m < 4; m++) {
            d[i][m] += f * u(m) * g[i - 1];
            d[0][m] -= f * u(m) * g[i - 1] * v[i - 1];
          }
        break;
      default:
        n.add_particle(pd, f);
        for (int m = 0; m < 4; m++) (f > 0 ? pos : neg)[m] += f * u(m);
    }
    scale += 4;
  }
  c.nontrivial(ops > 3);
  const double norm = c.uniform(0.1, 5),
               tol = static_cast<double>(scale) * 1e-12;
  for (int m = 0; m < 4; m++) {
    PBT_CLOSE(c, n.jmu_net()[m], static_cast<double>(pos[m] + neg[m]), 0, tol,
              "current component " << m);
    for (int i = 0; i < 4; i++)
      PBT_CLOSE(c, n.djmu_dxnu()[i][m], static_cast<double>(d[i][m]), 0, tol,
                "derivative " << i << " of the component " << m);
    PBT_CLOSE(c, n.drho_dxnu()[m], drho[m], 0, 0, "derivative of the density");
  }
  const ThreeVector j = n.jmu_net().threevec(), curl = n.curl_vecj(norm),
                    cross = n.grad_rho_cross_vecj(), gj = n.grad_j0(norm),
                    dj = n.dvecj_dt(norm);
  for (int a = 0; a < 3; a++) {
    const int b = (a + 1) % 3, e = (a + 2) % 3;
    PBT_CLOSE(c, curl[a],
              norm * static_cast<double>(d[b + 1][e + 1] - d[e + 1][b + 1]), 0,
              9 * tol, "curl");
    PBT_CLOSE(c, gj[a], norm * static_cast<double>(d[a + 1][0]), 0, 9 * tol,
              "gradient");
    PBT_CLOSE(c, dj[a], norm * static_cast<double>(d[0][a + 1]), 0, 9 * tol,
              "time derivative");
    PBT_CLOSE(c, cross[a], drho[b + 1] * j[e] - drho[e + 1] * j[b], 0, 9 * tol,
              "cross product");
    PBT_CLOSE(c, n.curl_vecj()[a] * norm, curl[a], 0, 9 * tol, "default norm");
    PBT_CLOSE(c, n.grad_j0()[a] * norm, gj[a], 0, 9 * tol, "default norm");
    PBT_CLOSE(c, n.dvecj_dt()[a] * norm, dj[a], 0, 9 * tol, "default norm");
  }
  auto sq = [](const L *x) {
    return x[0] * x[0] - x[1] * x[1] - x[2] * x[2] - x[3] * x[3];
  };
  // FourVector::abs is defined for timelike vectors
  if (sq(pos) > 1e-6 && sq(neg) > 1e-6)
    PBT_CLOSE(c, n.rho(norm),
              norm * static_cast<double>(sqrtl(sq(pos)) - sqrtl(sq(neg))), 1e-9,
              1e-6 * norm, "density");
}

PBT_PROP(lattice_density, 2500, 100000) {
  Plain p = lattice(c, 1, 6);
  kit::Params par = params(c);
  par.smearing = c.one_of({SmearingMode::CovariantGaussian,
                           SmearingMode::Discrete, SmearingMode::Triangular});
  par.derivatives = c.one_of({DerivativesMode::CovariantGaussian,
                              DerivativesMode::FiniteDifference,
                              DerivativesMode::Off});
  if (par.smearing != SmearingMode::CovariantGaussian &&
      par.derivatives == DerivativesMode::CovariantGaussian)
    par.derivatives = DerivativesMode::FiniteDifference;
  par.rfdd = c.flip() ? RestFrameDensityDerivativesMode::On
                      : RestFrameDensityDerivativesMode::Off;
  if (par.derivatives == DerivativesMode::FiniteDifference)
    for (auto &i : p.n) i = std::max(i, 2);
  // (a cell that is its own neighbour has no weight of its own)
  if (par.smearing == SmearingMode::Discrete && p.per)
    for (auto &i : p.n) i = std::max(i, 2);
  par.discrete = c.real(1. / 7., 1.);
  par.triangular = c.flip() ? 1. + c.below(4) : c.uniform(0.6, 4.);
  const auto ep = par.make();
  const DensityParameters dp(ep);
  std::vector<Particles> ens(par.ensembles);
  std::vector<ParticleList> all(2);
  const DensityType kind = c.pick(kinds);
  const double dt = c.uniform(0.05, 1.);
  auto fill = [&](ParticleList &keep) {
    for (auto &e : ens) {
      e.reset();
      const size_t n = c.count(0, 5);
      for (size_t i = 0; i < n; i++) {
        ThreeVector r;
        for (int k = 0; k < 3; k++)
          r[k] = p.o[k] + p.l[k] * (c.below(4) ? c.uniform(0., 1.)
                                               : p.per ? c.uniform(-0.2, 1.2)
                                                       : c.uniform(-1., 2.));
        keep.push_back(particle(c, r));
        e.insert(keep.back());
      }
    }
  };
  const LatticeUpdate when = c.one_of(
      {LatticeUpdate::EveryTimestep, LatticeUpdate::AtOutput});
  auto lat = Lat<DensityOnLattice>{p.l, p.o, p.n, p.per}.make(when);
  Lat<FourVector> q{p.l, p.o, p.n, p.per};
  auto old_j = q.make(), new_j = q.make();
  auto grad4 = Lat<std::array<FourVector, 4>>{p.l, p.o, p.n, p.per}.make();
  auto tmn = Lat<EnergyMomentumTensor>{p.l, p.o, p.n, p.per}.make(when);
  std::vector<Current> want[2];
  std::vector<std::array<L, 10>> twant(p.cells());
  L scale = 1e-30;
  size_t touched = 0;
  const double vol = p.h(0) * p.h(1) * p.h(2);
  for (int step = 0; step < 2; step++) {
    fill(all[step]);
    want[step].resize(p.cells());
    std::fill(twant.begin(), twant.end(), std::array<L, 10>{});
    for (auto &pd : all[step]) {
      if (!counted(pd, par)) continue;
      const double f = factor(pd.type(), kind);
      // energy-momentum tensor counts particles
      const double h = factor(pd.type(), DensityType::Hadron);
      if (f == 0. && h == 0.) continue;
      const ThreeVector r = pd.position().threevec();
      Key3 lo, hi, home;
      for (int i = 0; i < 3; i++) {
        const double x = (r[i] - p.o[i]) / p.h(i);
        home[i] = static_cast<int>(std::floor(x));
        if (std::fabs(x - std::round(x)) < 1e-7) c.discard();
        const double range =
            par.smearing == SmearingMode::Triangular
                ? par.triangular + 1
                : par.smearing == SmearingMode::Discrete
                      ? 1.
                      : par.sigma * par.cutoff / p.h(i) + 1;
        if (range > 100.) c.discard();
        lo[i] = home[i] - static_cast<int>(range) - 1;
        hi[i] = home[i] + static_cast<int>(range) + 1;
        if (p.per && lo[i] < -200 * p.n[i]) c.discard();
        if (!p.per) {
          lo[i] = std::max(0, lo[i]);
          hi[i] = std::min(p.n[i] - 1, hi[i]);
        }
      }
      const double cells = (hi[0] - lo[0] + 1.) * (hi[1] - lo[1] + 1.) *
                           (hi[2] - lo[2] + 1.);
      if (cells > 30000) c.discard();
      const bool on = !lat.out_of_bounds(home[0], home[1], home[2]);
      for (int x = lo[0]; x <= hi[0]; x++)
        for (int y = lo[1]; y <= hi[1]; y++)
          for (int z = lo[2]; z <= hi[2]; z++) {
            const int cell[3] = {x, y, z};
            L sf = 0, grad[3] = {0, 0, 0};
            if (par.smearing == SmearingMode::CovariantGaussian) {
              // (the kernel decreases with the distance)
              if (!kernel(pd, {p.centre(0, x), p.centre(1, y), p.centre(2, z)},
                          par, sf, grad))
                c.discard();
            } else if (par.smearing == SmearingMode::Discrete) {
              const int away = std::abs(x - home[0]) + std::abs(y - home[1]) +
                               std::abs(z - home[2]);
              if (on)
                sf = away == 0 ? par.discrete
                               : away == 1 ? (1 - par.discrete) / 6 : 0;
              sf /= vol * par.testparticles * par.ensembles;
            } else {
              sf = 1;
              for (int i = 0; i < 3; i++) {
                const L w = par.triangular -
                            fabsl(p.centre(i, cell[i]) - r[i]) / p.h(i);
                sf *= std::max<L>(0, w) /
                      (par.triangular * par.triangular * p.h(i));
              }
              sf /= par.testparticles * par.ensembles;
            }
            const size_t i =
                p.index(Plain::wrap(x, p.n[0]), Plain::wrap(y, p.n[1]),
                        Plain::wrap(z, p.n[2]));
            if (sf != 0) touched++;
            scale = std::max(scale, sf);
            if (f != 0) want[step][i].add(pd, f, sf, grad);
            if (h != 0) {
              int k = 0;
              for (int m = 0; m < 4; m++)
                for (int n = m; n < 4; n++)
                  twant[i][k++] += sf * pd.momentum()[m] * pd.momentum()[n] /
                                   pd.momentum()[0];
            }
          }
    }
    const bool skip = c.below(10) == 0;
    const LatticeUpdate now =
        !skip ? when
              : when == LatticeUpdate::AtOutput ? LatticeUpdate::EveryTimestep
                                                : LatticeUpdate::AtOutput;
    if (skip) {
      const auto kept = lat[0].jmu_net();
      update_lattice(&lat, &old_j, &new_j, &grad4, now, kind, dp, ens, dt,
                     true);
      PBT_CHECK(c, lat[0].jmu_net() == kept, "updated at the wrong time");
    }
    update_lattice(&lat, &old_j, &new_j, &grad4, when, kind, dp, ens, dt,
                   par.derivatives == DerivativesMode::CovariantGaussian);
    update_lattice_accumulating_ensembles(&tmn, when, DensityType::Hadron, dp,
                                          ens, false);
  }
  const double s = static_cast<double>(scale);
  L total = 0;
  for (size_t i = 0; i < p.cells(); i++) {
    const Current &w = want[1][i];
    DensityOnLattice &node = lat[i];
    for (int m = 0; m < 4; m++)
      PBT_CLOSE(c, node.jmu_net()[m], static_cast<double>(w.net(m)), 1e-9,
                1e-9 * s, "current component " << m << " in node " << i);
    PBT_CLOSE(c, node.rho(), static_cast<double>(w.rho()), 1e-7, 1e-6 * s,
              "rest frame density in node " << i);
    total += node.jmu_net()[0] * vol;
    int k = 0;
    for (int m = 0; m < 4; m++)
      for (int n = m; n < 4; n++, k++)
        PBT_CLOSE(c, tmn[i][EnergyMomentumTensor::tmn_index(m, n)],
                  static_cast<double>(twant[i][k]), 1e-9, 1e-7 * s,
                  "energy-momentum tensor " << m << n << " in node " << i);
    // derivatives
    const auto d = node.djmu_dxnu();
    if (par.derivatives == DerivativesMode::FiniteDifference) {
      for (int m = 0; m < 4; m++) {
        const L t = (w.net(m) - want[0][i].net(m)) / dt;
        PBT_CLOSE(c, d[0][m], static_cast<double>(t), 1e-8, 1e-8 * s / dt,
                  "time derivative");
        const int pos[3] = {static_cast<int>(i) % p.n[0],
                            static_cast<int>(i) / p.n[0] % p.n[1],
                            static_cast<int>(i) / p.n[0] / p.n[1]};
        for (int a = 0; a < 3; a++) {
          int up[3] = {pos[0], pos[1], pos[2]}, down[3] = {pos[0], pos[1],
                                                           pos[2]};
          double span = 2.;
          up[a]++;
          down[a]--;
          if (p.per) {
            up[a] = Plain::wrap(up[a], p.n[a]);
            down[a] = Plain::wrap(down[a], p.n[a]);
          } else {
            if (up[a] == p.n[a]) up[a]--, span = 1.;
            if (down[a] < 0) down[a]++, span = 1.;
          }
          const L diff = want[1][p.index(up[0], up[1], up[2])].net(m) -
                         want[1][p.index(down[0], down[1], down[2])].net(m);
          PBT_CLOSE(c, d[a + 1][m],
                    static_cast<double>(diff / (span * p.h(a))), 1e-8,
                    1e-8 * s / p.h(a), "difference quotient");
        }
      }
    } else {
      const bool cov = par.derivatives == DerivativesMode::CovariantGaussian;
      for (int a = 0; a < 4; a++)
        for (int m = 0; m < 4; m++)
          PBT_CLOSE(c, d[a][m], cov ? static_cast<double>(w.d[a].v[m]) : 0.,
                    1e-8, 1e-7 * s / par.sigma,
                    "derivative " << a << " of component " << m);
    }
    // views of the derivatives
    for (int a = 0; a < 3; a++) {
      const int b = (a + 1) % 3, e = (a + 2) % 3;
      PBT_CLOSE(c, node.curl_vecj()[a], d[b + 1][e + 1] - d[e + 1][b + 1],
                1e-12, 1e-12 * s, "curl");
      PBT_CLOSE(c, node.grad_j0(2.)[a], 2. * d[a + 1][0], 1e-12, 1e-12 * s,
                "gradient of the density");
      PBT_CLOSE(c, node.dvecj_dt()[a], d[0][a + 1], 1e-12, 1e-12 * s,
                "time derivative of the current");
    }
    // derivative of sqrt(j j), where there is one kind of charge only
    const FourVector j = node.jmu_net(), dr = node.drho_dxnu();
    if (par.rfdd == RestFrameDensityDerivativesMode::On) {
      const double rho = node.rho();
      if (std::fabs(rho) > 1e-6 * s)
        for (int a = 0; a < 4; a++)
          PBT_CLOSE(c, dr[a], j.Dot(d[a]) / rho, 1e-10,
                    1e-10 * s / par.sigma,
                    "derivative of the rest frame density");
      const ThreeVector x = node.grad_rho_cross_vecj();
      for (int a = 0; a < 3; a++) {
        const int b = (a + 1) % 3, e = (a + 2) % 3;
        const double u = dr[b + 1] * j[e + 1], v = dr[e + 1] * j[b + 1];
        PBT_CLOSE(c, x[a], u - v, 1e-10, 1e-12 * (std::fabs(u) + std::fabs(v)),
                  "grad rho x j");
      }
    } else {
      PBT_CHECK(c, dr == FourVector(), "derivative of the density is off");
    }
  }
  // charge is neither lost nor created where nothing leaves the lattice
  const bool exact =
      p.per && ((par.smearing == SmearingMode::Discrete) ||
                (par.smearing == SmearingMode::Triangular &&
                 par.triangular == std::floor(par.triangular)));
  if (exact) {
    L charge = 0;
    for (auto &pd : all[1])
      if (counted(pd, par)) charge += factor(pd.type(), kind);
    PBT_CLOSE(c, static_cast<double>(total),
              static_cast<double>(charge) / par.testparticles / par.ensembles,
              1e-9, 1e-9, "charge on the lattice");
  }
  c.nontrivial(touched > 1);
  c.label(par.smearing == SmearingMode::Discrete
              ? "discrete"
              : par.smearing == SmearingMode::Triangular ? "triangular"
                                                         : "gaussian");
  c.label("finite differences",
          par.derivatives == DerivativesMode::FiniteDifference);
  c.label("periodic", p.per);
}

// energy-momentum tensors
PBT_PROP(tensor, 5000, 200000) {
  const size_t n = c.count(1, 20);
  const ThreeVector flow =
      c.flip() ? ThreeVector() : kit::direction(c) * c.uniform(0., 0.95);
  EnergyMomentumTensor t, a, b;
  L sum[4][4] = {};
  std::vector<FourVector> ps;
  for (size_t i = 0; i < n; i++) {
    const double m = c.uniform(0.1, 2.);
    const ThreeVector k = kit::direction(c) * c.uniform(0., 3.);
    FourVector p(std::sqrt(m * m + k.sqr()), k);
    p = p.lorentz_boost(flow);
    ps.push_back(p);
    t.add_particle(p);
    (c.flip() ? a : b).add_particle(p);
    for (int u = 0; u < 4; u++)
      for (int v = 0; v < 4; v++)
        sum[u][v] += static_cast<L>(p[u]) * p[v] / p[0];
  }
  const EnergyMomentumTensor ab = a + b, w = ab * 2. - t / 2.;
  const double s = static_cast<double>(sum[0][0]);
  for (int u = 0; u < 4; u++)
    for (int v = 0; v < 4; v++) {
      const int i = EnergyMomentumTensor::tmn_index(u, v);
      PBT_CHECK(c, i == EnergyMomentumTensor::tmn_index(v, u), "symmetry");
      PBT_CLOSE(c, t[i], static_cast<double>(sum[u][v]), 1e-12, 1e-12 * s,
                "component " << u << v);
      PBT_CLOSE(c, ab[i], t[i], 1e-12, 1e-12 * s, "sum of tensors");
      PBT_CLOSE(c, w[i], 1.5 * t[i], 1e-12, 1e-12 * s, "linear combination");
    }
  // the tensor seen from another frame is the one of the boosted momenta
  const ThreeVector v = kit::direction(c) * c.uniform(0., 0.95);
  const double g = 1. / std::sqrt(1. - v.sqr());
  // (velocities are given with lower indices)
  const EnergyMomentumTensor tb = t.boosted(FourVector(g, -g * v));
  L other[4][4] = {};
  for (auto &p : ps) {
    const FourVector q = p.lorentz_boost(v);
    for (int x = 0; x < 4; x++)
      for (int y = 0; y < 4; y++)
        other[x][y] += static_cast<L>(q[x]) * q[y] / p[0];
  }
  for (int x = 0; x < 4; x++)
    for (int y = 0; y < 4; y++)
      PBT_CLOSE(c, tb[EnergyMomentumTensor::tmn_index(x, y)],
                static_cast<double>(other[x][y]), 1e-10, 1e-10 * s * g * g,
                "boosted component " << x << y);
  // in the Landau frame no momentum is left
  const FourVector u = t.landau_frame_4velocity();
  PBT_CLOSE(c, u.sqr(), 1., 1e-8, 0., "Landau velocity");
  PBT_CHECK(c, u[0] >= 1. - 1e-9, "Landau velocity " << kit::show(u));
  const EnergyMomentumTensor rest = t.boosted(u);
  const double acc = 1e-7 * s * u[0] * u[0];
  for (int i = 1; i < 4; i++)
    PBT_CLOSE(c, rest[i], 0., 0., acc, "momentum in the Landau frame");
  PBT_CHECK(c, rest[0] >= -acc, "energy density " << rest[0]);
  const double trace = t[0] - t[4] - t[7] - t[9];
  PBT_CLOSE(c, rest[0] - rest[4] - rest[7] - rest[9], trace, 1e-8, acc,
            "trace");
  for (int i : {4, 7, 9})
    PBT_CHECK(c, rest[i] >= -acc, "pressure " << rest[i]);
  c.nontrivial(n > 1);
}

PBT_MAIN
