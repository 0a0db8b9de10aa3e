// P32: outputs of thermodynamic quantities, lattices and VTK files
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>

#include "params.h"
#include "pbt.h"
#include "smash/clock.h"
#include "smash/density.h"
#include "smash/energymomentumtensor.h"
#include "smash/grandcan_thermalizer.h"
#include "smash/lattice.h"
#include "smash/outputparameters.h"
#include "smash/particles.h"
#include "smash/thermodynamiclatticeoutput.h"
#include "smash/thermodynamicoutput.h"
#include "smash/vtkoutput.h"
#include "smashkit.h"

using namespace smash;
namespace fs = std::filesystem;

namespace {
struct Mute {
  std::streambuf *old = std::cout.rdbuf(nullptr);
  ~Mute() { std::cout.rdbuf(old); }
};
// avoids the compilation of the large table
void empty_table() {
  std::ofstream f("hadgas_eos.dat");
  f << "0.001 0.001 0.001\n2 2 2\n";
  for (int n = 0; n < 8; n++) f << "0 0 0 0 0\n";
}
struct Scratch {
  fs::path dir = fs::path("out");
  Scratch() {
    fs::remove_all(dir);
    fs::create_directory(dir);
  }
  ~Scratch() { fs::remove_all(dir); }
};
std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  if (!f) pbt::fail("there is no file " + p.filename().string());
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
template <typename... A>
std::string fmt(const char *f, A... a) {
  char b[400];
  std::snprintf(b, sizeof b, f, a...);
  return b;
}
std::vector<std::string> lines_of(const std::string &s) {
  std::vector<std::string> l;
  std::istringstream f(s);
  for (std::string x; std::getline(f, x);) l.push_back(x);
  return l;
}
std::vector<double> numbers(const std::string &s) {
  std::vector<double> v;
  std::istringstream f(s);
  for (std::string x; f >> x;) {
    char *e;
    v.push_back(std::strtod(x.c_str(), &e));
    if (*e) pbt::fail("'" + x + "' is not a number");
  }
  return v;
}
const char *density_name(DensityType t) {
  switch (t) {
    case DensityType::Hadron:
      return "hadron";
    case DensityType::Baryon:
      return "net_baryon";
    case DensityType::BaryonicIsospin:
      return "net_baryonI3";
    case DensityType::Pion:
      return "pion";
    default:
      return "none";
  }
}
double weight(const ParticleType &t, DensityType d) {
  const PdgCode c = t.pdgcode();
  switch (d) {
    case DensityType::Hadron:
      return c.is_hadron() ? 1 : 0;
    case DensityType::Baryon:
      return c.baryon_number();
    case DensityType::BaryonicIsospin:
      return c.is_baryon() && t.isospin() != 0
                 ? double(t.isospin3()) / t.isospin()
                 : 0;
    case DensityType::Pion:
      return c.is_pion() ? 1 : 0;
    case DensityType::Charge:
      return t.charge();
    case DensityType::Strangeness:
      return c.strangeness();
    default:
      return 0;
  }
}
double sq(double x) { return x * x; }
// energy-momentum tensor of an ideal fluid
EnergyMomentumTensor fluid(double e, double p, const ThreeVector &v) {
  const double g = 1 / std::sqrt(1 - v.sqr());
  const FourVector u(g, v * g);
  EnergyMomentumTensor::tmn_type T;
  T.fill(0.);
  for (int i = 0; i < 4; i++)
    for (int j = i; j < 4; j++)
      T[static_cast<size_t>(EnergyMomentumTensor::tmn_index(i, j))] =
          (e + p) * u[i] * u[j] - (i != j ? 0. : i == 0 ? p : -p);
  return EnergyMomentumTensor(T);
}
ParticleData particle(pbt::Case &c, double t, double range) {
  static const auto all = kit::hadrons();
  ParticleData p{
      *(c.flip() ? c.pick(all)
                 : &ParticleType::find(PdgCode::from_decimal(c.one_of<int>(
                       {2212, 2112, -2212, -2112, 211, 321}))))};
  const double m = p.type().mass();
  p.set_4momentum(m * (c.flip() ? 1. : c.uniform(0.9, 1.1)),
                  kit::momentum3(c, 1.));
  p.set_4position(FourVector(
      t, ThreeVector(c.uniform(-1., 1.), c.uniform(-1., 1.),
                     c.uniform(-1., 1.)) *
             range));
  p.set_formation_time(t + (c.flip() ? 0. : c.uniform(-2., 2.)));
  if (c.flip()) p.set_cross_section_scaling_factor(c.uniform(0., 1.));
  HistoryData h;
  h.collisions_per_particle = static_cast<int>(c.below(4));
  p.set_history(std::move(h));
  return p;
}
struct Grid3 {
  std::array<double, 3> l, o;
  std::array<int, 3> n;
  std::array<double, 3> cell() const {
    return {l[0] / n[0], l[1] / n[1], l[2] / n[2]};
  }
};
Grid3 grid(pbt::Case &c) {
  Grid3 g;
  for (size_t i = 0; i < 3; i++) {
    g.n[i] = 1 + static_cast<int>(c.below(4));
    g.l[i] = c.uniform(1., 20.);
    g.o[i] = c.uniform(-20., 20.);
  }
  return g;
}
struct Node {
  double e, p;
  ThreeVector v;
};
Node node(pbt::Case &c) {
  Node n;
  n.e = c.below(6) ? c.logreal(0.01, 100.) : 0.;
  n.p = n.e * c.uniform(0.05, 0.33);
  n.v = n.e > 0 ? kit::direction(c) * c.uniform(0., 0.9) : ThreeVector();
  return n;
}
OutputParameters output_parameters(pbt::Case &c, unsigned what) {
  OutputParameters out;
  out.td_rho_eckart = what & 1;
  out.td_tmn = what & 2;
  out.td_tmn_landau = what & 4;
  out.td_v_landau = what & 8;
  out.td_jQBS = what & 16;
  out.td_smearing = c.flip();
  out.td_only_participants = c.flip();
  out.td_dens_type = c.one_of<DensityType>(
      {DensityType::Hadron, DensityType::Baryon, DensityType::BaryonicIsospin,
       DensityType::Pion, DensityType::Hadron});
  out.td_position = ThreeVector(c.uniform(-2., 2.), c.uniform(-2., 2.),
                                c.uniform(-2., 2.));
  return out;
}
// the currents j+ and j- of both signs at a point, or of all particles
std::pair<FourVector, FourVector> currents(
    const std::vector<Particles> &ensembles, DensityType type, bool smearing,
    const ThreeVector &r, const kit::Params &par) {
  FourVector pos, neg;
  const double cut = par.cutoff * par.sigma, a = par.cutoff;
  const double norm =
      std::pow(2 * M_PI * sq(par.sigma), 1.5) *
      (std::erf(a / std::sqrt(2.)) -
       std::sqrt(2 / M_PI) * a * std::exp(-0.5 * a * a)) *
      par.ensembles * par.testparticles;
  for (const auto &list : ensembles)
    for (const ParticleData &p : list) {
      if (par.participants && p.get_history().collisions_per_particle == 0)
        continue;
      const double w = weight(p.type(), type);
      if (w == 0) continue;
      const FourVector mom = p.momentum();
      const double m = mom.abs();
      double f = w / mom.x0();
      if (smearing) {
        const ThreeVector d = p.position().threevec() - r;
        const double s = d.sqr() + sq(d * mom.threevec() / m);
        if (s > cut * cut) continue;
        f *= mom.x0() / m * std::exp(-s / 2 / sq(par.sigma)) / norm;
      }
      (w > 0 ? pos : neg) += mom * f;
    }
  return {pos, neg};
}
std::array<double, 10> tensor(const std::vector<Particles> &ensembles,
                              DensityType type, bool smearing,
                              const ThreeVector &r, const kit::Params &par) {
  std::array<double, 10> T;
  T.fill(0.);
  for (const auto &list : ensembles)
    for (const ParticleData &p : list) {
      Particles one;
      ParticleData q = p;
      q.set_id(-1);
      std::vector<Particles> single(1);
      single[0].insert(p);
      auto j = currents(single, type, smearing, r, par);
      const FourVector current = j.first + j.second;
      size_t k = 0;
      for (int m = 0; m < 4; m++)
        for (int n = m; n < 4; n++) T[k++] += current[m] * p.momentum()[n];
    }
  return T;
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t s) { kit::seed(static_cast<int64_t>(s >> 1)); }
}  // namespace pbt

// quantities at a point or of all particles
PBT_PROP(point, 1500, 60000) {
  Scratch dir;
  const OutputParameters out =
      output_parameters(c, static_cast<unsigned>(c.below(32)));
  kit::Params par;
  par.ensembles = static_cast<int>(c.count(1, 3));
  par.testparticles = c.flip() ? 1 : 5;
  par.sigma = c.uniform(0.5, 1.5);
  par.participants = out.td_only_participants;
  const auto ep = par.make();
  const DensityParameters dens(ep);
  std::vector<std::vector<double>> want;
  std::vector<size_t> per_event;
  std::vector<double> scale;
  double most = 0.;
  size_t particles = 0;
  std::string events;
  {
    ThermodynamicOutput o(dir.dir, "Thermodynamics", out);
    OutputInterface &output = o;
    const size_t ne = c.count(1, 2);
    for (size_t e = 0; e < ne; e++) {
      std::vector<Particles> ensembles(static_cast<size_t>(par.ensembles));
      output.at_eventstart(ensembles, static_cast<int>(10 * e));
      const size_t nt = c.count(1, 2);
      per_event.push_back(nt);
      for (size_t k = 0; k < nt; k++) {
        const double t = c.uniform(0., 100.);
        for (auto &list : ensembles) {
          list.reset();
          const size_t n = c.count(0, 6);
          for (size_t i = 0; i < n; i++) list.insert(particle(c, t, 3.));
          particles += n;
        }
        std::unique_ptr<Clock> clock =
            std::make_unique<UniformClock>(t, 1., 1000.);
        output.at_intermediate_time(ensembles, clock, dens);
        std::vector<double> w{t};
        double s = 0.;
        if (out.td_rho_eckart) {
          // always smeared
          const auto j = currents(ensembles, out.td_dens_type, true,
                                  out.td_position, par);
          w.push_back(j.first.abs() - j.second.abs());
        }
        if (out.td_tmn || out.td_tmn_landau || out.td_v_landau) {
          const auto T = tensor(ensembles, out.td_dens_type, out.td_smearing,
                                out.td_position, par);
          if (out.td_tmn) w.insert(w.end(), T.begin(), T.end());
          s = std::abs(T[0]);
          // the net tensor of other densities may have no rest frame
          const int landau = (out.td_tmn_landau ? 10 : 0) +
                             (out.td_v_landau ? 3 : 0);
          for (int i = 0; i < landau; i++) w.push_back(NAN);
        }
        if (out.td_jQBS)
          for (DensityType d : {DensityType::Charge, DensityType::Baryon,
                                DensityType::Strangeness}) {
            const auto j = currents(ensembles, d, out.td_smearing,
                                    out.td_position, par);
            for (int i = 0; i < 4; i++)
              w.push_back(j.first[i] + j.second[i]);
          }
        for (size_t i = 1; i < w.size(); i++)
          if (w[i] == w[i]) most = std::max(most, std::abs(w[i]));
        want.push_back(w);
        scale.push_back(s);
      }
      output.at_eventend(ensembles, static_cast<int>(10 * e));
    }
  }
  const auto l = lines_of(slurp(dir.dir / "thermodynamics.dat"));
  size_t i = 0;
  auto next = [&]() -> const std::string & {
    if (i >= l.size()) pbt::fail("the file is too short");
    return l[i++];
  };
  const std::string unit = out.td_smearing ? "/fm^3" : "";
  PBT_CHECK(c, next().find("thermodynamics output") != std::string::npos,
            "first line");
  if (out.td_only_participants)
    PBT_CHECK(c, next() == "# only participants are taken into account",
              "participants");
  PBT_CHECK(c,
            next() == (out.td_smearing
                           ? fmt("# @ point (%6.2f, %6.2f, %6.2f) [fm]",
                                 out.td_position.x1(), out.td_position.x2(),
                                 out.td_position.x3())
                           : "# averaged over the entire volume"),
            "point");
  PBT_CHECK(c, next() == std::string("# ") + density_name(out.td_dens_type),
            "type of the density");
  std::string head = "# time [fm], ";
  if (out.td_rho_eckart) head += "rho_eckart [fm^-3], ";
  if (out.td_tmn)
    head += "tmn [GeV" + unit + "] 00 01 02 03 11 12 13 22 23 33, ";
  if (out.td_tmn_landau)
    head += "tmn_landau [GeV" + unit + "] 00 01 02 03 11 12 13 22 23 33, ";
  if (out.td_v_landau) head += "v_landau x y z, ";
  if (out.td_jQBS) head += "j_QBS [(Q,B,S)" + unit + "] (0 1 2 3)x3";
  PBT_CHECK(c, next() == head, "names of the columns");
  size_t k = 0;
  for (size_t e = 0; e < per_event.size(); e++) {
    PBT_CHECK(c, next() == fmt("# event %d", static_cast<int>(10 * e)),
              "event");
    for (size_t x = 0; x < per_event[e]; x++, k++) {
      const auto v = numbers(next());
      const auto &w = want[k];
      PBT_CHECK(c, v.size() == w.size(), v.size() << " columns");
      PBT_CLOSE(c, v[0], w[0], 0., 0.0051, "time");
      for (size_t q = 1; q < v.size(); q++)
        if (w[q] == w[q])
          PBT_CLOSE(c, v[q], w[q], 1e-9, 1e-9 * scale[k] + 1e-11,
                    "column " << q << " of " << head);
      // without smearing or for numbers of particles there is a rest frame
      if (out.td_dens_type != DensityType::Hadron || !out.td_tmn ||
          scale[k] <= 1e-4)
        continue;
      size_t q = out.td_rho_eckart ? 2 : 1;
      const double *T = &v[q], *L = nullptr, *vel = nullptr;
      q += 10;
      if (out.td_tmn_landau) L = &v[q], q += 10;
      if (out.td_v_landau) vel = &v[q];
      const double tol = 1e-6 * scale[k] + 1e-10;
      if (L)
        for (int m = 1; m < 4; m++)
          PBT_CLOSE(c, L[m], 0., 0., tol, "momentum density in the rest frame");
      // T^mu_nu u^nu = e u^mu
      if (L && vel) {
        static const int index[4][4] = {
            {0, 1, 2, 3}, {1, 4, 5, 6}, {2, 5, 7, 8}, {3, 6, 8, 9}};
        for (int m = 0; m < 4; m++) {
          double sum = T[index[m][0]];
          for (int n = 1; n < 4; n++) sum -= T[index[m][n]] * vel[n - 1];
          PBT_CLOSE(c, sum, L[0] * (m ? vel[m - 1] : 1.), 0., 10 * tol,
                    "velocity of the rest frame");
        }
        c.label("rest frame");
      }
      if (L)
        PBT_CLOSE(c, L[0] - L[4] - L[7] - L[9], T[0] - T[4] - T[7] - T[9], 0.,
                  10 * tol, "trace of the tensor");
    }
  }
  PBT_CHECK(c, i == l.size(), "surplus lines");
  c.label(out.td_smearing ? "smearing" : "no smearing");
  c.nontrivial(particles > 2 && most > 1e-3);
}

// quantities on a lattice, in ASCII and binary
PBT_PROP(lattice, 1000, 40000) {
  Scratch dir;
  OutputParameters out =
      output_parameters(c, 1 + static_cast<unsigned>(c.below(31)));
  const bool ascii = c.flip();
  kit::Params par;
  par.ensembles = static_cast<int>(c.count(1, 2));
  par.participants = out.td_only_participants;
  const auto ep = par.make();
  const DensityParameters dens(ep);
  const Grid3 g = grid(c);
  RectangularLattice<DensityOnLattice> rho(g.l, g.n, g.o, false,
                                           LatticeUpdate::AtOutput);
  RectangularLattice<EnergyMomentumTensor> tmn(g.l, g.n, g.o, false,
                                               LatticeUpdate::AtOutput);
  using Q = ThermodynamicQuantity;
  const std::vector<std::tuple<Q, bool, const char *, int>> all{
      {Q::EckartDensity, out.td_rho_eckart, "rho_eckart", 0},
      {Q::Tmn, out.td_tmn, "tmn", 1},
      {Q::TmnLandau, out.td_tmn_landau, "tmn_landau", 2},
      {Q::LandauVelocity, out.td_v_landau, "v_landau", 3},
      {Q::j_QBS, out.td_jQBS, "j_QBS", 4}};
  ThermodynamicLatticeOutput o(dir.dir, "Thermodynamics", out, ascii, !ascii);
  OutputInterface &output = o;
  const size_t ne = c.count(1, 2);
  size_t filled = 0;
  for (size_t e = 0; e < ne; e++) {
    const int event = static_cast<int>(
        c.flip() ? e : 1000 * e + c.below(1000));
    // per quantity the expected values
    std::map<Q, std::vector<double>> want;
    for (auto &x : all) {
      if (!std::get<1>(x)) continue;
      const Q q = std::get<0>(x);
      if (q == Q::EckartDensity || q == Q::j_QBS)
        output.at_eventstart(event, q, out.td_dens_type, rho);
      else
        output.at_eventstart(event, q, out.td_dens_type, tmn);
    }
    const size_t nt = c.count(0, 2);
    for (size_t k = 0; k < nt; k++) {
      const double t = c.uniform(0., 100.);
      std::vector<Particles> ensembles(static_cast<size_t>(par.ensembles));
      for (auto &list : ensembles) {
        const size_t n = c.count(0, 4);
        for (size_t i = 0; i < n; i++) {
          ParticleData p = particle(c, t, 1.);
          p.set_4position(FourVector(
              t, g.o[0] + g.l[0] * c.unit(), g.o[1] + g.l[1] * c.unit(),
              g.o[2] + g.l[2] * c.unit()));
          list.insert(p);
        }
      }
      std::vector<Node> nodes;
      for (size_t i = 0; i < tmn.size(); i++) {
        nodes.push_back(node(c));
        tmn[i] = fluid(nodes[i].e, nodes[i].p, nodes[i].v);
        filled += nodes[i].e > 0;
        DensityOnLattice d;
        const size_t n = c.below(3);
        for (size_t m = 0; m < n; m++)
          d.add_particle(particle(c, t, 1.),
                         c.uniform(0.1, 1.) * (c.flip() ? 1 : -1));
        rho[i] = d;
      }
      for (auto &x : all) {
        if (!std::get<1>(x)) continue;
        const Q q = std::get<0>(x);
        auto &w = want[q];
        w.push_back(t);
        switch (q) {
          case Q::EckartDensity:
            output.thermodynamics_lattice_output(rho, t);
            for (auto &d : rho) w.push_back(d.rho());
            break;
          case Q::j_QBS:
            output.thermodynamics_lattice_output(rho, t, ensembles, dens);
            for (int z = 0; z < g.n[2]; z++)
              for (int y = 0; y < g.n[1]; y++)
                for (int xx = 0; xx < g.n[0]; xx++) {
                  const auto s = g.cell();
                  const ThreeVector r(g.o[0] + (xx + 0.5) * s[0],
                                      g.o[1] + (y + 0.5) * s[1],
                                      g.o[2] + (z + 0.5) * s[2]);
                  for (DensityType d :
                       {DensityType::Charge, DensityType::Baryon,
                        DensityType::Strangeness}) {
                    const auto j =
                        currents(ensembles, d, out.td_smearing, r, par);
                    for (int i = 0; i < 4; i++)
                      w.push_back(j.first[i] + j.second[i]);
                  }
                }
            break;
          case Q::LandauVelocity:
            output.thermodynamics_lattice_output(q, tmn, t);
            for (auto &n : nodes)
              for (int i = 0; i < 3; i++) w.push_back(n.v[i]);
            break;
          default:
            output.thermodynamics_lattice_output(q, tmn, t);
            for (size_t m = 0; m < 10; m++)
              for (size_t i = 0; i < nodes.size(); i++) {
                const double rest =
                    m == 0 ? nodes[i].e
                           : m == 4 || m == 7 || m == 9 ? nodes[i].p : 0.;
                w.push_back(q == Q::Tmn ? tmn[i][m] : rest);
              }
        }
      }
    }
    for (auto &x : all) {
      if (!std::get<1>(x)) continue;
      const Q q = std::get<0>(x);
      output.at_eventend(q);
      const std::string name = fmt("%s_%s_%07d.%s",
                                   density_name(out.td_dens_type),
                                   std::get<2>(x), event,
                                   ascii ? "dat" : "bin");
      const std::string s = slurp(dir.dir / name);
      std::vector<double> v;
      const auto cell = g.cell();
      if (ascii) {
        const auto l = lines_of(s);
        PBT_CHECK(c, l.size() >= 5, "header");
        PBT_CHECK(c, l[0] == "#Thermodynamic Lattice Output version: 1.00",
                  l[0]);
        PBT_CHECK(c, l[1] == std::string("#Quantity: ") + std::get<2>(x),
                  l[1]);
        PBT_CHECK(c,
                  l[2] == fmt("#Grid dimensions: %d %d %d", g.n[0], g.n[1],
                              g.n[2]),
                  l[2]);
        PBT_CHECK(c,
                  l[3] == fmt("#Grid spacing: %.6f %.6f %.6f", cell[0],
                              cell[1], cell[2]),
                  l[3]);
        PBT_CHECK(c,
                  l[4] == fmt("#Grid origin: %.6f %.6f %.6f", g.o[0], g.o[1],
                              g.o[2]),
                  l[4]);
        // one line for each row, or each node
        const size_t per = q == Q::LandauVelocity ? 3
                           : q == Q::j_QBS        ? 12
                                                  : static_cast<size_t>(g.n[0]);
        const size_t rows =
            q == Q::LandauVelocity || q == Q::j_QBS
                ? tmn.size()
                : tmn.size() / static_cast<size_t>(g.n[0]) *
                      (q == Q::EckartDensity ? 1 : 10);
        PBT_CHECK(c, l.size() == 5 + nt * (rows + 1),
                  l.size() << " lines in " << name);
        for (size_t i = 5; i < l.size(); i++) {
          const auto row = numbers(l[i]);
          PBT_CHECK(c, row.size() == ((i - 5) % (rows + 1) ? per : 1),
                    row.size() << " columns in line " << i);
          v.insert(v.end(), row.begin(), row.end());
        }
      } else {
        size_t pos = 0;
        auto read = [&](auto *to) {
          if (pos + sizeof(*to) > s.size()) pbt::fail("the file is too short");
          std::memcpy(to, &s[pos], sizeof(*to));
          pos += sizeof(*to);
        };
        double d;
        int i;
        read(&d);
        PBT_CLOSE(c, d, 1., 0., 0., "version");
        read(&i);
        PBT_CHECK(c, i == std::get<3>(x), "number " << i);
        for (int n : g.n) {
          read(&i);
          PBT_CHECK(c, i == n, "cells");
        }
        for (double n : cell) {
          read(&d);
          PBT_CLOSE(c, d, n, 1e-14, 0., "cell size");
        }
        for (double n : g.o) {
          read(&d);
          PBT_CLOSE(c, d, n, 1e-14, 0., "origin");
        }
        while (pos < s.size()) {
          read(&d);
          v.push_back(d);
        }
      }
      const auto &w = want[q];
      PBT_CHECK(c, v.size() == w.size(), v.size() << " numbers in " << name
                                                  << " instead of "
                                                  << w.size());
      const double tol = q == Q::Tmn || q == Q::EckartDensity ? 1e-12
                         : q == Q::j_QBS                      ? 1e-9
                                                              : 1e-5;
      for (size_t i = 0; i < w.size(); i++)
        PBT_CLOSE(c, v[i], w[i], tol,
                  q == Q::Tmn || q == Q::EckartDensity ? 1e-14
                  : q == Q::TmnLandau                  ? 1e-4
                                                       : 1e-6,
                  "number " << i << " of " << name);
    }
  }
  c.label(ascii ? "ASCII" : "binary");
  c.nontrivial(filled > 0);
}

// particles in VTK files
PBT_PROP(vtk_particles, 800, 30000) {
  Scratch dir;
  OutputParameters out;
  VtkOutput o(dir.dir, "Particles", out);
  OutputInterface &output = o;
  const int ensembles = static_cast<int>(c.count(1, 3));
  std::map<std::string, Particles> files;
  size_t n = 0;
  const std::unique_ptr<Clock> clock =
      std::make_unique<UniformClock>(0., 1., 1000.);
  kit::Params par;
  const auto ep = par.make();
  const DensityParameters dens(ep);
  const EventInfo info{};
  size_t count = 0;
  for (int e = 0; e < 2; e++) {
    const int event =
        c.below(8) ? e : e + static_cast<int>(c.uniform(0., 200000.));
    const int steps = static_cast<int>(c.below(3));
    for (int k = 0; k <= steps; k++)
      for (int i = 0; i < ensembles; i++) {
        Particles list;
        const double t = c.uniform(0., 20.);
        const size_t np = c.count(0, 5);
        for (size_t m = 0; m < np; m++) list.insert(particle(c, t, 10.));
        n += np;
        EventLabel label{event, i};
        if (k == 0)
          output.at_eventstart(list, label, info);
        else
          output.at_intermediate_time(list, clock, dens, label, info);
        if (k == steps) output.at_eventend(list, label, info);
        std::string want = fmt("POINTS %zu double\n", np);
        for (auto &p : list)
          want += fmt("%g %g %g\n", p.position().x1(), p.position().x2(),
                      p.position().x3());
        want += fmt("CELLS %zu %zu\n", np, 2 * np);
        for (size_t m = 0; m < np; m++) want += fmt("1 %zu\n", m);
        want += fmt("CELL_TYPES %zu\n", np);
        for (size_t m = 0; m < np; m++) want += "1\n";
        want += fmt("POINT_DATA %zu\n", np);
        auto scalar = [&](const char *name, auto f) {
          want += fmt("SCALARS %s 1\nLOOKUP_TABLE default\n", name);
          for (auto &p : list) want += f(p) + "\n";
        };
        using P = const ParticleData &;
        scalar("pdg_codes int", [](P p) { return p.pdgcode().string(); });
        scalar("is_formed int", [&](P p) {
          return std::string(p.formation_time() > t ? "0" : "1");
        });
        scalar("cross_section_scaling_factor double",
               [](P p) { return fmt("%g", p.xsec_scaling_factor()); });
        scalar("mass double", [](P p) { return fmt("%g", p.momentum().abs()); });
        scalar("N_coll int", [](P p) {
          return fmt("%d", p.get_history().collisions_per_particle);
        });
        scalar("particle_ID int", [](P p) { return fmt("%d", p.id()); });
        scalar("baryon_number int",
               [](P p) { return fmt("%d", p.pdgcode().baryon_number()); });
        scalar("strangeness int",
               [](P p) { return fmt("%d", p.pdgcode().strangeness()); });
        want += "VECTORS momentum double\n";
        for (auto &p : list)
          want += fmt("%g %g %g\n", p.momentum().x1(), p.momentum().x2(),
                      p.momentum().x3());
        count++;
        const std::string name =
            fmt("pos_ev%05d_ens%05d_tstep%05d.vtk", event, i, k);
        const std::string s = slurp(dir.dir / name);
        const std::string start = "# vtk DataFile Version 2.0\n";
        const size_t at = s.find("\nASCII\nDATASET UNSTRUCTURED_GRID\n");
        PBT_CHECK(c, s.compare(0, start.size(), start) == 0 &&
                         at != std::string::npos &&
                         s.find('\n', start.size()) == at,
                  "header of " << name);
        const auto have = lines_of(s.substr(s.find("POINTS"))),
                   exp = lines_of(want);
        for (size_t m = 0; m < std::min(have.size(), exp.size()); m++)
          if (have[m] != exp[m]) {
            // the last of six digits may be rounded differently
            const bool text = std::isalpha(static_cast<unsigned char>(exp[m][0]));
            PBT_CHECK(c, !text, name << ": '" << have[m] << "' instead of '"
                                     << exp[m] << "'");
            const auto a = numbers(have[m]), b = numbers(exp[m]);
            PBT_CHECK(c, a.size() == b.size(), "columns");
            for (size_t q = 0; q < a.size(); q++)
              PBT_CLOSE(c, a[q], b[q], 1.1e-5, 0.,
                        name << " line " << m << " after " << exp[m - 1]);
          }
        PBT_CHECK(c, have.size() == exp.size(),
                  have.size() << " lines in " << name << " instead of "
                              << exp.size());
      }
  }
  size_t found = 0;
  for (auto &f : fs::directory_iterator(dir.dir)) found += f.exists();
  PBT_CHECK(c, found == count, found << " files instead of " << count);
  c.nontrivial(n > 3);
}

// lattices in VTK files
PBT_PROP(vtk_lattice, 800, 30000) {
  Scratch dir;
  OutputParameters out;
  const bool fields = c.below(3) == 0;
  VtkOutput o(dir.dir, fields ? "Fields" : "Thermodynamics", out);
  OutputInterface &output = o;
  const Grid3 g = grid(c);
  const DensityType type = c.one_of<DensityType>(
      {DensityType::Hadron, DensityType::Baryon, DensityType::BaryonicIsospin,
       DensityType::Pion});
  size_t count = 0, filled = 0;
  using Q = ThermodynamicQuantity;
  auto compare = [&](const std::string &name, const std::string &title,
                     const std::vector<std::pair<std::string,
                                                 std::vector<double>>> &data) {
    count++;
    const auto l = lines_of(slurp(dir.dir / name));
    const auto cell = g.cell();
    std::ostringstream sizes, origin;
    sizes << "SPACING " << cell[0] << " " << cell[1] << " " << cell[2];
    origin << "ORIGIN " << g.o[0] << " " << g.o[1] << " " << g.o[2];
    const size_t n = static_cast<size_t>(g.n[0] * g.n[1] * g.n[2]);
    const std::vector<std::string> head{
        "# vtk DataFile Version 2.0",
        title,
        "ASCII",
        "DATASET STRUCTURED_POINTS",
        fmt("DIMENSIONS %d %d %d", g.n[0], g.n[1], g.n[2]),
        sizes.str(),
        origin.str(),
        fmt("POINT_DATA %zu", n)};
    size_t i = 0;
    auto next = [&]() -> const std::string & {
      if (i >= l.size()) pbt::fail(name + " is too short");
      return l[i++];
    };
    for (auto &h : head) {
      const std::string &x = next();
      PBT_CHECK(c, x == h, name << ": '" << x << "' instead of '" << h << "'");
    }
    for (auto &d : data) {
      const bool vec = d.second.size() == 3 * n;
      const std::string &x = next();
      PBT_CHECK(c,
                x == (vec ? "VECTORS " + d.first + " double"
                          : "SCALARS " + d.first + " double 1"),
                name << ": '" << x << "' for " << d.first);
      if (!vec) PBT_CHECK(c, next() == "LOOKUP_TABLE default", "lookup table");
      std::vector<double> v;
      while (v.size() < d.second.size()) {
        const auto row = numbers(next());
        PBT_CHECK(c, row.size() == (vec ? 3 : static_cast<size_t>(g.n[0])),
                  row.size() << " columns in line " << i << " of " << name);
        v.insert(v.end(), row.begin(), row.end());
      }
      for (size_t k = 0; k < v.size(); k++)
        PBT_CLOSE(c, v[k], d.second[k], 1e-5, 0.000501,
                  "number " << k << " of " << d.first << " in " << name);
    }
    PBT_CHECK(c, i == l.size(), "surplus lines in " << name);
  };
  Particles none;
  const EventInfo info{};
  const unsigned what = 1 + static_cast<unsigned>(c.below(31));
  std::unique_ptr<GrandCanThermalizer> th;
  const int ne = 1 + static_cast<int>(c.below(2)),
            ensembles = 1 + static_cast<int>(c.below(2));
  for (int e = 0; e < ne; e++) {
    const int event =
        c.below(8) ? e : e + static_cast<int>(c.uniform(0., 200000.));
    for (int i = 0; i < ensembles; i++)
      output.at_eventstart(none, {event, i}, info);
    const int steps = static_cast<int>(c.below(3));
    for (int k = 0; k < steps; k++) {
      auto name = [&](const std::string &s) {
        return s + fmt("_%05d_tstep%05d.vtk", event, k);
      };
      const std::string dn = std::string(density_name(type)) + "_";
      if (fields) {
        RectangularLattice<std::pair<ThreeVector, ThreeVector>> em(
            g.l, g.n, g.o, false, LatticeUpdate::EveryTimestep);
        std::vector<double> E, B;
        for (auto &n : em) {
          n.first = kit::direction(c) * c.uniform(0., 5.);
          n.second = kit::direction(c) * c.uniform(0., 5.);
          for (int q = 0; q < 3; q++)
            E.push_back(n.first[q]), B.push_back(n.second[q]);
        }
        filled++;
        output.fields_output("Efield", "Bfield", em);
        compare(name("Efield"), "Efield", {{"Efield", E}});
        compare(name("Bfield"), "Bfield", {{"Bfield", B}});
        continue;
      }
      RectangularLattice<EnergyMomentumTensor> tmn(g.l, g.n, g.o, false,
                                                   LatticeUpdate::AtOutput);
      std::vector<Node> nodes;
      for (auto &x : tmn) {
        nodes.push_back(node(c));
        filled += nodes.back().e > 0;
        x = fluid(nodes.back().e, nodes.back().p, nodes.back().v);
      }
      if (what & 1) {
        RectangularLattice<DensityOnLattice> rho(g.l, g.n, g.o, false,
                                                 LatticeUpdate::AtOutput);
        std::vector<double> w;
        for (auto &d : rho) {
          const size_t m = c.below(3);
          for (size_t q = 0; q < m; q++)
            d.add_particle(particle(c, 0., 1.),
                           c.uniform(0.1, 1.) * (c.flip() ? 1 : -1));
          w.push_back(d.rho());
        }
        output.thermodynamics_output(Q::EckartDensity, type, rho);
        compare(name(dn + "rho_eckart"), dn + "rho_eckart",
                {{dn + "rho_eckart", w}});
      }
      for (int landau = 0; landau < 2; landau++) {
        if (!(what & (landau ? 4 : 2))) continue;
        const std::string s = dn + (landau ? "tmn_landau" : "tmn");
        std::vector<std::pair<std::string, std::vector<double>>> w;
        size_t m = 0;
        for (int a = 0; a < 4; a++)
          for (int b = a; b < 4; b++, m++) {
            w.push_back({s + fmt("%d%d", a, b), {}});
            for (size_t q = 0; q < nodes.size(); q++)
              w.back().second.push_back(!landau  ? tmn[q][m]
                                        : a != b ? 0.
                                        : a == 0 ? nodes[q].e
                                                 : nodes[q].p);
          }
        output.thermodynamics_output(landau ? Q::TmnLandau : Q::Tmn, type,
                                     tmn);
        compare(name(s), s, w);
      }
      if (what & 8) {
        std::vector<double> w;
        for (auto &x : nodes)
          for (int q = 0; q < 3; q++) w.push_back(x.v[q]);
        output.thermodynamics_output(Q::LandauVelocity, type, tmn);
        compare(name(dn + "v_landau"), dn + "v_landau",
                {{dn + "v_landau", w}});
      }
      if (what & 16) {
        Mute mute;
        empty_table();
        if (!th)
          th = std::make_unique<GrandCanThermalizer>(
              g.l, g.n, g.o, false, 0.3, 0., 1.,
              ThermalizationAlgorithm::BiasedBF, false);
        std::vector<std::pair<std::string, std::vector<double>>> w{
            {"e", {}}, {"p", {}}, {"v", {}}, {"T", {}}, {"mub", {}}, {"mus", {}}};
        int fill = 3;
        for (auto &x : th->lattice()) {
          if (fill-- > 0)
            x.set_rest_frame_quantities(c.uniform(0.1, 0.2), c.uniform(0., 0.5),
                                      c.uniform(-0.2, 0.2), 0.,
                                      kit::direction(c) * c.uniform(0., 0.9));
          w[0].second.push_back(x.e());
          w[1].second.push_back(x.p());
          for (int q = 0; q < 3; q++) w[2].second.push_back(x.v()[q]);
          w[3].second.push_back(x.T());
          w[4].second.push_back(x.mub());
          w[5].second.push_back(x.mus());
        }
        output.thermodynamics_output(*th);
        compare(name("fluidization_td"), "fluidization_td", w);
      }
    }
    for (int i = 0; i < ensembles; i++)
      output.at_eventend(none, {event, i}, info);
  }
  size_t found = 0;
  for (auto &f : fs::directory_iterator(dir.dir)) found += f.exists();
  PBT_CHECK(c, found == count, found << " files instead of " << count);
  c.label(fields ? "fields" : "thermodynamics");
  c.nontrivial(filled > 0);
}

PBT_MAIN
