// P18: whole runs of the simulation.
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <map>
#include <set>

#include "params.h"
#include "smash/experiment.h"
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smashkit.h"

using namespace smash;
namespace fs = std::filesystem;

namespace {

// ---------------------------------------------------------------- the files
struct Line {
  double t, x[3], mass, p[4];
  int32_t pdg, id, charge, ncoll;
  double form, xsec;
  int32_t proc, type;
  double last;
  int32_t mother1, mother2, baryon, strange;
  bool operator==(const Line &o) const {
    return std::memcmp(&t, &o.t, 72) == 0 && pdg == o.pdg && id == o.id &&
           charge == o.charge && ncoll == o.ncoll && form == o.form &&
           xsec == o.xsec && proc == o.proc && type == o.type &&
           last == o.last && mother1 == o.mother1 && mother2 == o.mother2 &&
           baryon == o.baryon && strange == o.strange;
  }
};
std::ostream &operator<<(std::ostream &o, const Line &l) {
  return o << l.pdg << " id " << l.id << " x (" << l.t << ", " << l.x[0]
           << ", " << l.x[1] << ", " << l.x[2] << ") p (" << l.p[0] << ", "
           << l.p[1] << ", " << l.p[2] << ", " << l.p[3] << ") m " << l.mass
           << " ncoll " << l.ncoll << " proc " << l.proc << "/" << l.type
           << " last " << l.last << " form " << l.form;
}
struct Block {
  char kind;
  int32_t event = 0, ensemble = 0;
  std::vector<Line> in, out;  // 'p': in
  double density = 0, weight = 0, partial = 0, impact = 0;
  uint32_t type = 0;
  char empty = 0;
  bool operator==(const Block &o) const {
    return kind == o.kind && ensemble == o.ensemble && in == o.in &&
           out == o.out && density == o.density && weight == o.weight &&
           partial == o.partial && impact == o.impact && type == o.type &&
           empty == o.empty;
  }
};
std::string difference(const Block &a, const Block &b) {
  std::ostringstream s;
  s.precision(17);
  s << "type " << a.type << " and " << b.type << " weights " << a.weight << " "
    << b.weight << ", " << a.partial << " " << b.partial << " sizes "
    << a.in.size() << " " << b.in.size() << ", " << a.out.size() << " "
    << b.out.size();
  for (size_t i = 0; i < std::min(a.in.size(), b.in.size()); i++)
    if (!(a.in[i] == b.in[i])) {
      s << "; " << a.in[i] << " and " << b.in[i];
      return s.str();
    }
  for (size_t i = 0; i < std::min(a.out.size(), b.out.size()); i++)
    if (!(a.out[i] == b.out[i])) {
      s << "; " << a.out[i] << " and " << b.out[i];
      break;
    }
  return s.str();
}
// Known finding: the maxima of the rejection sampling of resonance masses
// are adapted while running and survive the event, so that the masses of
// resonances that are produced together with something else depend on the
// preceding events. This is how a history branches off because of that.
bool mass_memory(const Block &a, const Block &b) {
  if (a.kind != 'i' || b.kind != 'i' || a.type != b.type || !(a.in == b.in) ||
      a.weight != b.weight || a.partial != b.partial ||
      a.out.size() != b.out.size() || a.out.size() < 2)
    return false;
  bool differs = false;
  for (size_t i = 0; i < a.out.size(); i++) {
    if (a.out[i].pdg != b.out[i].pdg || a.out[i].id != b.out[i].id)
      return false;
    if (a.out[i].mass != b.out[i].mass) {
      if (ParticleType::find(PdgCode::from_decimal(a.out[i].pdg)).is_stable())
        return false;
      differs = true;
    }
  }
  return differs;
}
std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
struct Reader {
  const std::string &b;
  size_t pos = 0;
  template <typename T>
  T get() {
    T v;
    if (pos + sizeof(T) > b.size()) pbt::fail("truncated output file");
    std::memcpy(&v, b.data() + pos, sizeof(T));
    pos += sizeof(T);
    return v;
  }
  Line line() {
    Line l;
    l.t = get<double>();
    for (double &v : l.x) v = get<double>();
    l.mass = get<double>();
    for (double &v : l.p) v = get<double>();
    l.pdg = get<int32_t>();
    l.id = get<int32_t>();
    l.charge = get<int32_t>();
    l.ncoll = get<int32_t>();
    l.form = get<double>();
    l.xsec = get<double>();
    l.proc = get<int32_t>();
    l.type = get<int32_t>();
    l.last = get<double>();
    l.mother1 = get<int32_t>();
    l.mother2 = get<int32_t>();
    l.baryon = get<int32_t>();
    l.strange = get<int32_t>();
    return l;
  }
};
std::vector<Block> parse(const std::string &bytes) {
  Reader r{bytes};
  if (bytes.compare(0, 4, "SMSH") != 0) pbt::fail("no magic number");
  r.pos = 4;
  r.get<uint16_t>();
  r.get<uint16_t>();
  r.pos += r.get<uint32_t>();
  std::vector<Block> res;
  while (r.pos < bytes.size()) {
    Block b;
    b.kind = r.get<char>();
    if (b.kind == 'p') {
      b.event = r.get<int32_t>();
      b.ensemble = r.get<int32_t>();
      uint32_t n = r.get<uint32_t>();
      while (n--) b.in.push_back(r.line());
    } else if (b.kind == 'i') {
      uint32_t n = r.get<uint32_t>(), m = r.get<uint32_t>();
      b.density = r.get<double>();
      b.weight = r.get<double>();
      b.partial = r.get<double>();
      b.type = r.get<uint32_t>();
      while (n--) b.in.push_back(r.line());
      while (m--) b.out.push_back(r.line());
    } else if (b.kind == 'f') {
      b.event = r.get<int32_t>();
      b.ensemble = r.get<int32_t>();
      b.impact = r.get<double>();
      b.empty = r.get<char>();
    } else {
      pbt::fail("unknown block in the output");
    }
    res.push_back(std::move(b));
  }
  return res;
}

struct Scratch {
  fs::path dir;
  Scratch() {
    std::string t = (fs::temp_directory_path() / "verif-p18-XXXXXX").string();
    if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch() {
    std::error_code e;
    fs::remove_all(dir, e);
  }
};

// ------------------------------------------------------------------ the runs
struct Run {
  std::string modus, modi, term, general, potentials, lattice;
  double dt = 0.1, end = 10, interval = 3, box = 0, start = 0;
  int ensembles = 1, testparticles = 1, events = 1;
  int nproj = 0, ntarg = 0;
  bool within = false, frozen = false, force = true, none = false,
       no_coll = false, mean_field = false, stochastic = false;
  double impact = 0;
  int64_t seed = 1;
  std::vector<std::string> files;  // list modus: lines per event

  std::string yaml(int64_t s, int n, int more, const fs::path &dir) const {
    std::ostringstream y;
    y.precision(17);
    y << "General:\n  Modus: " << modus << "\n  Time_Step_Mode: "
      << (none ? "None" : "Fixed") << "\n  Delta_Time: " << dt
      << "\n  End_Time: " << end << "\n  Randomseed: " << s
      << "\n  Nevents: " << n << "\n  Ensembles: " << ensembles
      << "\n  Testparticles: " << testparticles << "\n"
      << general << "Output:\n  Output_Interval: " << interval
      << "\n  Particles:\n    Format: [\"Oscar2013_bin\""
      << (more ? ", \"Oscar2013\", \"Oscar1999\", \"VTK\"" : "")
      << "]\n    Extended: True\n    Only_Final: No\n"
      << "  Collisions:\n    Format: [\"Oscar2013_bin\""
      << (more ? ", \"Oscar2013\", \"Oscar1999\"" : "")
      << "]\n    Extended: True\n    Print_Start_End: True\n";
    if (more)
      y << "  Thermodynamics:\n    Format: [\"ASCII\"]\n    Quantities: "
           "[\"rho_eckart\", \"tmn\"]\n    Type: \"hadron\"\n";
    y << "Collision_Term:\n" << term << "Modi:\n  " << modus << ":\n" << modi;
    if (modus == "List" || modus == "ListBox")
      y << "    File_Directory: \"" << dir.string()
        << "\"\n    File_Prefix: \"in\"\n    Shift_Id: 0\n";
    y << potentials << lattice;
    return y.str();
  }
  void execute(const fs::path &dir, int64_t s, int n, int more) const {
    fs::create_directories(dir);
    for (size_t i = 0; i < files.size(); i++)
      std::ofstream(dir / ("in" + std::to_string(i)))
          << "#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID "
             "charge\n# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n"
          << files[i];
    Configuration conf = kit::config(yaml(s, n, more, dir));
    auto e = ExperimentBase::create(conf, dir);
    try {
      e->run();
    } catch (std::exception &x) {
      // documented refusal: the time step is too large for the density
      if (stochastic && std::string(x.what()).find("larger than 1 for stoch") !=
                            std::string::npos)
        throw pbt::Discard{};
      throw;
    }
  }
};

std::string nucleus(pbt::Case &c, int &size) {
  static const std::vector<std::pair<int, int>> pn = {
      {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 4}, {6, 6}, {8, 8}, {13, 14}};
  std::ostringstream s;
  switch (c.below(8)) {
    case 0: {
      const int a = c.one_of<int>({211, -211, 321, -321, -2212, 111, 3122});
      s << "{" << a << ": 1}";
      size = 1;
      break;
    }
    case 1: {
      const int n = 1 + c.below(3);
      s << "{-2212: " << n << ", -2112: " << n << "}";
      size = 2 * n;
      break;
    }
    default: {
      const auto &q = c.pick(pn);
      s << "{2212: " << q.first << ", 2112: " << q.second << "}";
      if (q.first == 0) s.str(""), s << "{2112: 1}";
      if (q.second == 0) s.str(""), s << "{2212: 1}";
      size = q.first + q.second;
    }
  }
  return s.str();
}
std::string multiplicities(pbt::Case &c, int most) {
  std::map<int, int> m;
  const int kinds = 1 + c.below(5);
  for (int i = 0; i < kinds; i++)
    m[c.one_of<int>({211, 111, -211, 2212, 2112, -2212, 321, -321, 3122, 113,
                     2224, 1114, 223, 221, -2112})] = 1 + c.below(most);
  std::ostringstream s;
  s << "{";
  const char *sep = "";
  for (auto &e : m) s << sep << e.first << ": " << e.second, sep = ", ";
  s << "}";
  return s.str();
}
std::string indent(const std::string &k, const std::string &v) {
  return "    " + k + ": " + v + "\n";
}
template <typename T>
std::string num(T v) {
  std::ostringstream s;
  s.precision(17);
  s << v;
  return s.str();
}

Run generate(pbt::Case &c, bool small = false, bool sampling = true) {
  Run r;
  r.seed = 1 + c.below(1ull << 40);
  const int modus = c.below(8);
  r.end = c.uniform(1., small ? 8. : 15.);
  r.dt = c.one_of<double>({0.1, 0.5, 0.05, 1., 0.23});
  r.none = c.below(3) == 0;
  r.stochastic = c.below(5) == 0;
  r.ensembles = c.below(4) ? 1 : 2 + c.below(2);
  r.testparticles = c.below(5) ? 1 : 2 + c.below(2);
  r.events = 1 + (c.below(3) == 0) * (1 + c.below(2));
  r.force = c.flip();
  r.no_coll = c.below(12) == 0;
  if (modus < 4) {
    r.modus = "Collider";
    const std::string a = nucleus(c, r.nproj), b = nucleus(c, r.ntarg);
    r.nproj *= r.testparticles;
    r.ntarg *= r.testparticles;
    const int f = c.below(3);
    r.frozen = f == 2;
    r.within = c.below(4) == 0;
    const double ekin = c.uniform(0.3, 5.);
    r.impact = c.flip() ? 0. : c.uniform(0., 3.);
    r.modi = indent("Projectile", "{Particles: " + a + "}") +
             indent("Target", "{Particles: " + b + "}") +
             indent("E_Kin", num(ekin)) +
             indent("Fermi_Motion",
                    f == 0   ? "\"off\""
                    : f == 1 ? "\"on\""
                             : "\"frozen\"") +
             indent("Impact", "{Value: " + num(r.impact) + "}") +
             indent("Initial_Distance", num(c.uniform(0.5, 3.))) +
             indent("Calculation_Frame",
                    c.one_of<const char *>({"\"center of velocity\"",
                                            "\"center of mass\"",
                                            "\"fixed target\""}));
    // (an option that is only read when there are collisions)
    if (r.no_coll) r.within = false;
    if (r.within) r.modi += indent("Collisions_Within_Nucleus", "True");
    c.note() << "E_Kin " << ekin << "\n";
  } else if (modus < 6) {
    r.modus = "Box";
    r.box = c.uniform(8., 12.);
    r.none = false;
    r.dt = std::min(r.dt, 0.2);
    r.start = c.below(3) ? 0. : c.uniform(-0.9, 0.5);
    r.modi = indent("Length", num(r.box)) +
             indent("Temperature", num(c.uniform(0.1, 0.25))) +
             indent("Start_Time", num(r.start)) +
             indent("Initial_Condition",
                    c.one_of<const char *>(
                        {"\"thermal momenta\"", "\"peaked momenta\""})) +
             indent("Init_Multiplicities", multiplicities(c, 8));
    if (c.below(4) == 0)
      r.modi += indent("Jet", "{Jet_PDG: 211, Jet_Momentum: " +
                                  num(c.uniform(0.5, 10.)) + "}");
  } else if (modus == 6) {
    r.modus = "Sphere";
    r.modi = indent("Radius", num(c.uniform(1., 4.))) +
             indent("Temperature", num(c.uniform(0.1, 0.25))) +
             indent("Start_Time", num(c.below(3) ? 0. : c.uniform(-2., .5))) +
             indent("Initial_Condition", "\"thermal momenta\"") +
             indent("Init_Multiplicities", multiplicities(c, 8));
    if (c.below(3) == 0)
      r.modi += indent("Add_Radial_Velocity", num(c.uniform(0., 0.8)));
  } else {
    r.modus = c.flip() ? "List" : "ListBox";
    const bool box = r.modus == "ListBox";
    if (box) {
      r.box = c.uniform(8., 12.);
      r.none = false;
      r.dt = std::min(r.dt, 0.2);
      r.modi = indent("Length", num(r.box));
    }
    r.ensembles = 1;
    const double spread = box ? 0. : c.uniform(0., 0.9);
    for (int i = 0; i < r.events; i++) {
      std::ostringstream f;
      f.precision(17);
      const int n = 2 + c.below(14);
      f << "# event 0 in " << n << "\n";
      for (int j = 0; j < n; j++) {
        const int pdg = c.one_of<int>({211, 111, -211, 2212, 2112, -2212, 321,
                                       -321, 3122, -2112});
        const ParticleType &t =
            ParticleType::find(PdgCode::from_decimal(pdg));
        // off the axes: a particle moving exactly along a wall stays on it
        const double ct = c.uniform(-0.99, 0.98), phi = c.uniform(0.01, 6.28),
                     st = std::sqrt(1. - ct * ct);
        const ThreeVector p = ThreeVector{st * std::cos(phi),
                                          st * std::sin(phi), ct} *
                              c.uniform(0.01, 1.5);
        const double l = box ? r.box : 4.;
        const auto place = [&]() { return l * c.uniform(0.001, 0.999); };
        f << 0.01 * std::round(100 * c.uniform(0., spread)) << " " << place() << " " << l * (j + 0.001 + 0.998 * c.unit()) / n << " " << place() << " " << t.mass()
          << " " << std::sqrt(p.sqr() + t.mass() * t.mass()) << " " << p.x1()
          << " " << p.x2() << " " << p.x3() << " " << pdg << " " << j << " "
          << t.charge() << "\n";
      }
      f << "# event 0 end\n";
      r.files.push_back(f.str());
    }
  }
  if (r.stochastic) r.none = false;
  if (r.none && r.box == 0 && c.flip()) r.dt = 0.1;
  r.interval = c.flip() ? c.uniform(0.3, 5.) : c.one_of<double>({1., 0.5, 2.});
  c.label(r.modus);
  c.label("stochastic", r.stochastic);
  c.label("timestepless", r.none);
  c.label("testparticles", r.testparticles > 1);
  c.label("events", r.events > 1);
  c.label("frozen", r.frozen);

  std::ostringstream t;
  t << "  Strings: False\n  Force_Decays_At_End: "
    << (r.force ? "True" : "False") << "\n";
  if (r.no_coll) t << "  No_Collisions: True\n";
  // (blocked actions hide what the known finding does)
  if (!r.no_coll && !(small && sampling) && c.below(5) == 0) {
    t << "  Pauli_Blocking: {Momentum_Averaging_Radius: "
      << c.uniform(0.05, 0.4) << "}\n";
    c.label("Pauli blocking");
  }
  t << "  Collision_Criterion: "
    << (r.stochastic ? "Stochastic" : c.flip() ? "Geometric" : "Covariant")
    << "\n";
  const bool annihilation = sampling && c.below(3) == 0;
  t << "  NNbar_Treatment: \""
    << (annihilation ? "resonances" : "no annihilation") << "\"\n";
  if (!annihilation) {
    // the strings are off, so that the annihilation is not needed
    if (!sampling)
      t << "  Included_2to2: [\"Elastic\", \"Strangeness_exchange\", "
           "\"KN_to_KN\"]\n";
    else if (c.below(4) == 0)
      t << "  Included_2to2: [\"Elastic\", \"NN_to_NR\", \"NN_to_DR\"]\n";
  }
  if (r.stochastic && c.flip())
    t << "  Multi_Particle_Reactions: [\"Meson_3to1\"]\n";
  if (c.below(5) == 0 && !r.no_coll) t << "  Isotropic: True\n";
  if (c.below(6) == 0 && !r.no_coll) t << "  Elastic_Cross_Section: 30.0\n";
  if (c.below(5) == 0) t << "  Cross_Section_Scaling: 2.0\n";
  if (c.below(6) == 0 && r.modus == "Collider")
    t << "  Pauli_Blocking:\n    Spatial_Averaging_Radius: 1.86\n";
  if (c.below(6) == 0) t << "  Two_to_One: False\n";
  if (c.below(5) == 0 && !r.stochastic && !r.no_coll)
    t << "  Additional_Elastic_Cross_Section: 10.0\n";
  if (c.below(4) == 0 && !r.no_coll)
    t << "  Total_Cross_Section_Strategy: "
      << c.one_of<const char *>({"BottomUp", "TopDown", "TopDownMeasured"})
      << "\n";
  r.term = t.str();
  if (!r.none && r.modus == "Collider" && !small && !r.frozen &&
      c.below(3) == 0) {
    r.mean_field = true;
    r.ensembles = 1;  // see below
    c.label("mean field");
    r.potentials =
        "Potentials:\n  Skyrme:\n    Skyrme_A: -124.0\n    Skyrme_B: 71.0\n"
        "    Skyrme_Tau: 2.0\n  Symmetry:\n    S_Pot: 18.0\n";
    r.dt = std::max(r.dt, 0.2);
    if (c.flip())
      r.lattice =
          "Lattice:\n  Automatic: False\n  Periodic: False\n  Sizes: [12.0, 12.0, 12.0]\n  Origin: [-6.0, -6.0, "
          "-6.0]\n  Cell_Number: [8, 8, 8]\n";
  }
  c.label("ensembles", r.ensembles > 1);
  return r;
}

// ------------------------------------------------------------ the replaying
int chg(const Line &l) { return l.charge; }
struct Totals {
  double p[4] = {0, 0, 0, 0}, scale = 0;
  int q = 0, b = 0, s = 0;
  void add(const Line &l) {
    for (int i = 0; i < 4; i++) p[i] += l.p[i];
    scale += l.p[0];
    q += l.charge;
    b += l.baryon;
    s += l.strange;
  }
};
Totals sum(const std::vector<Line> &v) {
  Totals t;
  for (const Line &l : v) t.add(l);
  return t;
}
void conserved(pbt::Case &c, const Totals &a, const Totals &b, double tol,
               const char *what) {
  PBT_CHECK(c, a.q == b.q && a.b == b.b && a.s == b.s,
            what << ": charges (Q,B,S) (" << a.q << "," << a.b << "," << a.s
                 << ") become (" << b.q << "," << b.b << "," << b.s << ")");
  for (int i = 0; i < 4; i++)
    PBT_CLOSE(c, b.p[i], a.p[i], 0, tol * (1. + a.scale),
              what << ": momentum component " << i);
}

struct State {
  std::map<int, Line> now;
  int largest = -1;
  std::map<std::pair<int, int>, int> last_pair;
  bool any = false, mixed = false;
};

void valid_line(pbt::Case &c, const Line &l) {
  const PdgCode pdg = PdgCode::from_decimal(l.pdg);
  PBT_CHECK(c, ParticleType::exists(pdg), "unknown particle " << l);
  const ParticleType &t = ParticleType::find(pdg);
  PBT_CHECK(c,
            l.charge == t.charge() && l.baryon == t.baryon_number() &&
                l.strange == t.strangeness(),
            "charges of " << l);
  for (double v : {l.t, l.x[0], l.x[1], l.x[2], l.mass, l.p[0], l.p[1], l.p[2],
                   l.p[3], l.form, l.xsec, l.last})
    PBT_CHECK(c, std::isfinite(v), "not a number in " << l);
  const double p2 = l.p[1] * l.p[1] + l.p[2] * l.p[2] + l.p[3] * l.p[3];
  PBT_CLOSE(c, l.p[0] * l.p[0] - p2, l.mass * l.mass, 1e-9,
            1e-9 * (1 + l.p[0] * l.p[0]), "mass shell of " << l);
  if (t.is_stable())
    PBT_CLOSE(c, l.mass, t.mass(), 1e-6, 1e-6, "mass of " << l);
  else
    PBT_CHECK(c, l.mass >= t.min_mass_kinematic() * (1 - 1e-9),
              "mass of " << l);
}

struct Replay {
  pbt::Case &c;
  const Run &r;
  size_t interactions = 0, walls = 0, decays = 0;

  // velocity of free streaming
  void drift(const Line &l, double t, double x[3], double *tol) const {
    for (int k = 0; k < 3; k++)
      x[k] = l.x[k] + l.p[k + 1] / l.p[0] * (t - l.t);
    *tol = 1e-9 * (1. + std::abs(t - l.t)) +
           1e-12 * (std::abs(l.x[0]) + std::abs(l.x[1]) + std::abs(l.x[2]));
  }
  bool frozen(const Line &l) const {
    return r.frozen && l.ncoll == 0 && l.id < r.nproj + r.ntarg;
  }
  // beam velocities of projectile and target (from the first displacement)
  double beam[2] = {NAN, NAN};

  // moves the known particle to the printed one, which must be compatible
  void moves_to(State &s, const Line &l, const char *what) {
    auto it = s.now.find(l.id);
    PBT_CHECK(c, it != s.now.end(),
              what << ": there is no particle " << l.id << " (" << l << ")");
    const Line &o = it->second;
    PBT_CHECK(c,
              o.pdg == l.pdg && o.ncoll == l.ncoll && o.proc == l.proc &&
                  o.type == l.type && o.last == l.last &&
                  o.mother1 == l.mother1 && o.mother2 == l.mother2 &&
                  o.form == l.form && (o.form > o.t || o.xsec == l.xsec),
              what << ": " << o << " has become " << l);
    PBT_CHECK(c, l.t >= o.t - 1e-9, what << ": time runs back from " << o.t
                                         << " to " << l.t << " for " << l);
    if (!r.mean_field) {
      for (int k = 0; k < 4; k++)
        PBT_CHECK(c, o.p[k] == l.p[k],
                  what << ": " << o << " has changed its momentum to " << l);
      double x[3], tol;
      if (frozen(l)) {
        const int n = l.id >= r.nproj;
        const double dt = l.t - o.t;
        if (dt > 0.01) {
          const double v = (l.x[2] - o.x[2]) / dt;
          if (std::isnan(beam[n])) beam[n] = v;
          PBT_CLOSE(c, v, beam[n], 0, 1e-6, what << ": beam velocity of " << l);
        }
        for (int k = 0; k < 2; k++)
          PBT_CLOSE(c, l.x[k], o.x[k], 0, 1e-9,
                    what << ": frozen Fermi motion of " << l);
      } else {
        drift(o, l.t, x, &tol);
        for (int k = 0; k < 3; k++)
          PBT_CLOSE(c, l.x[k], x[k], 0, tol,
                    what << ": coordinate " << k << " of " << l
                         << " does not lie on the straight line from " << o);
      }
    }
    it->second = l;
  }
  bool knows(const State &s, const Block &b) const {
    for (const Line &l : b.in) {
      auto it = s.now.find(l.id);
      if (it == s.now.end()) return false;
      const Line &o = it->second;
      if (o.pdg != l.pdg || o.proc != l.proc || o.ncoll != l.ncoll) return false;
      if (!r.mean_field && std::memcmp(o.p, l.p, sizeof(l.p))) return false;
      double x[3], tol;
      if (!r.mean_field && !frozen(l)) {
        drift(o, l.t, x, &tol);
        for (int k = 0; k < 3; k++)
          if (std::abs(x[k] - l.x[k]) > 1e-6) return false;
      }
    }
    return true;
  }
  void interaction(State &s, const Block &b, int number) {
    const auto type = static_cast<ProcessType>(b.type);
    PBT_CHECK(c, !b.in.empty() && !b.out.empty(), "an empty interaction");
    std::ostringstream what;
    what << "interaction " << number << " of type " << b.type;
    std::set<int> ids;
    for (const Line &l : b.in) {
      valid_line(c, l);
      moves_to(s, l, what.str().c_str());
      PBT_CHECK(c, ids.insert(l.id).second, "particle " << l << " twice");
      PBT_CLOSE(c, l.t, b.in[0].t, 0, 1e-9, "times of the incoming particles");
    }
    const double t = b.in[0].t;
    PBT_CHECK(c, t <= r.end + 1e-6,
              what.str() << " after the end time at " << t);
    conserved(c, sum(b.in), sum(b.out), 1e-9, what.str().c_str());
    PBT_CHECK(c, b.density == 0., "density although no density type is given");
    if (type == ProcessType::Wall) {
      walls++;
      PBT_CHECK(c, r.box > 0 && b.in.size() == 1 && b.out.size() == 1,
                "a wall crossing");
      Line l = b.in[0];
      const Line &o = b.out[0];
      int crossed = 0;
      for (int k = 0; k < 3; k++) {
        const double d = std::round((o.x[k] - l.x[k]) / r.box);
        crossed += d != 0;
        PBT_CHECK(c, std::abs(d) <= 1, "wall crossing of " << l);
        PBT_CLOSE(c, o.x[k], l.x[k] + d * r.box, 0, 1e-9 * r.box,
                  "wall crossing of " << l << " to " << o);
        PBT_CHECK(c, d * l.p[k + 1] <= 0 && o.x[k] >= -1e-5 &&
                         o.x[k] <= r.box + 1e-5,
                  "wall crossing of " << l << " to " << o);
        l.x[k] = o.x[k];
      }
      PBT_CHECK(c, crossed > 0, "wall crossing of " << l << " without a wall");
      l.t = o.t;
      PBT_CHECK(c, o == l && std::abs(o.t - t) < 1e-9,
                "wall crossing changes " << b.in[0] << " to " << o);
      s.now[l.id] = o;
      return;
    }
    interactions++;
    PBT_CHECK(c, !(r.no_coll && b.in.size() > 1),
              "a collision although they are switched off");
    if (r.modus == "Collider" && b.in.size() > 1) {
      int proj = 0, targ = 0, fresh = 0;
      for (const Line &l : b.in) {
        proj += l.id < r.nproj;
        targ += l.id >= r.nproj && l.id < r.nproj + r.ntarg;
        fresh += l.ncoll == 0;
      }
      const int n = b.in.size();
      PBT_CHECK(c,
                r.within || fresh < n || (proj < n && targ < n),
                "a first collision within the same nucleus: " << b.in[0]
                                                             << " with "
                                                             << b.in[1]);
      if (proj && targ) s.mixed = true;
    }
    if (b.in.size() > 1) s.any = true;
    if (b.in.size() == 2 && !r.stochastic) {
      // not the same two particles again
      PBT_CHECK(c, b.in[0].proc == 0 || b.in[0].proc != b.in[1].proc ||
                       b.in[0].type == 0,
                "the particles of process " << b.in[0].proc
                                            << " collide again: " << b.in[0]
                                            << " and " << b.in[1]);
    }
    if (type == ProcessType::Decay) {
      decays++;
      PBT_CHECK(c, b.in.size() == 1 && b.out.size() >= 2 &&
                       !ParticleType::find(PdgCode::from_decimal(b.in[0].pdg))
                            .is_stable(),
                "decay of " << b.in[0]);
    } else {
      PBT_CHECK(c, b.in.size() >= 2, what.str());
    }
    if (type == ProcessType::TwoToOne)
      PBT_CHECK(c, b.in.size() == 2 && b.out.size() == 1, what.str());
    if (type == ProcessType::TwoToTwo || type == ProcessType::Elastic)
      PBT_CHECK(c, b.in.size() == 2 && b.out.size() == 2, what.str());
    const bool elastic = type == ProcessType::Elastic;
    if (!elastic)
      for (const Line &l : b.in) s.now.erase(l.id);
    int before = s.largest;
    for (size_t i = 0; i < b.out.size(); i++) {
      const Line &l = b.out[i];
      valid_line(c, l);
      PBT_CLOSE(c, l.t, t, 0, 1e-9, what.str() << ": time of " << l);
      PBT_CHECK(c, l.proc == number && l.type == static_cast<int>(b.type),
                what.str() << ": process of " << l);
      PBT_CLOSE(c, l.last, t, 0, 1e-9, "time of the last collision of " << l);
      if (elastic) {
        const Line &o = b.in[i];
        PBT_CHECK(c, o.id == l.id && o.pdg == l.pdg, "elastic scattering of "
                                                         << o << " to " << l);
        PBT_CHECK(c, l.ncoll == o.ncoll + 1, "collisions of " << l);
        PBT_CHECK(c, o.mother1 == l.mother1 && o.mother2 == l.mother2,
                  "mothers of " << l);
      } else {
        PBT_CHECK(c, l.id > before, what.str() << " gives an old id to " << l);
        s.largest = std::max(s.largest, l.id);
        int most = 0;
        for (const Line &o : b.in) most = std::max(most, o.ncoll);
        if (type == ProcessType::Decay || b.in.size() > 2 ||
            b.in.size() == 2) {
          PBT_CHECK(c, l.mother1 == b.in[0].pdg, "first mother of " << l);
          if (b.in.size() == 2)
            PBT_CHECK(c, l.mother2 == b.in[1].pdg, "second mother of " << l);
        }
        for (size_t j = 0; j < i; j++)
          PBT_CHECK(c, b.out[j].id != l.id, "id " << l.id << " twice");
      }
      s.now[l.id] = l;
    }
  }
};

void list_matches(pbt::Case &c, Replay &rp, State &s,
                  const std::vector<Line> &v, const char *what) {
  PBT_CHECK(c, v.size() == s.now.size(),
            what << ": " << v.size() << " particles instead of "
                 << s.now.size());
  std::set<int> ids;
  for (const Line &l : v) {
    valid_line(c, l);
    rp.moves_to(s, l, what);
    ids.insert(l.id);
  }
  PBT_CHECK(c, ids.size() == v.size(), what << ": ids repeat");
}
}  // namespace

void pbt::setup() {
  kit::quiet();
  kit::load_reduced({"ρ", "ω", "Δ", "N(1440)", "N(1520)", "Λ(1520)", "K*(892)",
                     "Σ(1385)", "f₂(1270)", "h₁(1170)", "Σ", "Λ", "Ξ", "Ω", "η"});
  auto *buf = std::cout.rdbuf(nullptr);
  IsoParticleType::tabulate_integrals(sha256::Hash{}, "");
  std::cout.rdbuf(buf);
}
void pbt::reset_case(uint64_t) {
  kit::seed(1);
  ParticleData::formation_power_ = 1.;
}

PBT_PROP_OPT(history, 60, 600, 120, false) {
  const Run r = generate(c);
  Scratch dir;
  c.note() << r.yaml(r.seed, r.events, 0, "DIR");
  for (auto &f : r.files) c.note() << f;
  r.execute(dir.dir / "a", r.seed, r.events, 0);
  const auto coll =
                 parse(slurp(dir.dir / "a/collisions_oscar2013_extended.bin")),
             part =
                 parse(slurp(dir.dir / "a/particles_oscar2013_extended.bin"));
  size_t pos = 0, ppos = 0;
  Replay rp{c, r};
  for (int e = 0; e < r.events; e++) {
    std::vector<State> s(r.ensembles);
    std::vector<Totals> initial(r.ensembles);
    // particle lists at the beginning
    for (int i = 0; i < r.ensembles; i++) {
      PBT_CHECK(c, pos < coll.size() && coll[pos].kind == 'p' &&
                       coll[pos].event == e && coll[pos].ensemble == i,
                "no initial list of event " << e << ", ensemble " << i);
      const Block &b = coll[pos++];
      for (const Line &l : b.in) {
        valid_line(c, l);
        PBT_CHECK(c, s[i].now.emplace(l.id, l).second, "id twice: " << l);
        PBT_CHECK(c, l.ncoll == 0 && l.proc == 0 && l.type == 0,
                  "history at the beginning: " << l);
        PBT_CHECK(c, l.t == b.in[0].t, "initial times");
        s[i].largest = std::max(s[i].largest, l.id);
        if (r.box > 0)
          for (double x : l.x)
            PBT_CHECK(c, x >= 0. && x <= r.box, "outside of the box: " << l);
      }
      initial[i] = sum(b.in);
      if (r.modus == "Collider")
        PBT_CHECK(c, int(b.in.size()) == r.nproj + r.ntarg,
                  "size of the initial state");
      // the same list in the other output
      PBT_CHECK(c, ppos < part.size() && part[ppos].kind == 'p' &&
                       part[ppos].event == e && part[ppos].ensemble == i &&
                       part[ppos].in == b.in,
                "initial list in the particle output");
      ppos++;
    }
    // times of the intermediate outputs
    const double start = s[0].now.empty() ? 0. : s[0].now.begin()->second.t;
    int outputs = 0, number = 0;
    double tnow = start;
    std::vector<bool> ended(r.ensembles, false);
    // a particle list of every ensemble at a later time
    const auto intermediate = [&]() {
      double t = NAN;
      for (int i = 0; i < r.ensembles; i++) {
        const Block &b = part[ppos];
        PBT_CHECK(c, b.kind == 'p' && b.event == e && b.ensemble == i,
                  "particle output of ensemble " << i);
        list_matches(c, rp, s[i], b.in, "intermediate output");
        for (const Line &l : b.in) {
          if (std::isnan(t)) t = l.t;
          PBT_CHECK(c, l.t == t, "times within an output: " << t << " and "
                                                            << l.t);
        }
        ppos++;
      }
      outputs++;
      if (!std::isnan(t)) {
        // multiples of the interval, between the start and the end
        // (the clocks count in units of 1e-6 fm)
        const double k = std::round(t / r.interval);
        PBT_CLOSE(c, t, k * r.interval, 0, 1e-6 * (1 + std::abs(k)),
                  "output time");
        PBT_CHECK(c, t > start && t <= r.end + 1e-9, "output time " << t);
      }
    };
    const auto output_time = [&]() {
      // next intermediate output of this event, if there is one: the final
      // list is followed by the end of the event
      if (ppos + r.ensembles >= part.size()) return 1e300;
      for (int i = 0; i < r.ensembles; i++)
        if (part[ppos + i].kind != 'p' || part[ppos + i].in.empty() ||
            part[ppos + i].event != e || part[ppos + i].ensemble != i)
          return 1e300;
      if (part[ppos + r.ensembles].kind == 'f' && r.ensembles == 1)
        return 1e300;
      if (r.ensembles > 1 && part[ppos + 1].kind == 'f') return 1e300;
      return part[ppos].in[0].t;
    };
    std::vector<double> time(r.ensembles, -1e300);
    while (pos < coll.size() && coll[pos].kind == 'i') {
      const Block &b = coll[pos++];
      const double t = b.in.empty() ? 0 : b.in[0].t;
      while (output_time() < t) intermediate();
      number++;
      int i = 0;
      while (i < r.ensembles && !rp.knows(s[i], b)) i++;
      for (int k = i + 1; k < r.ensembles; k++)
        // the output does not tell which one
        if (rp.knows(s[k], b)) c.discard();
      if (r.ensembles == 1 || i == r.ensembles) i = 0;
      PBT_CHECK(c, t >= time[i] - 1e-9, "the interactions are not ordered: "
                                            << time[i] << " before " << t);
      time[i] = t;
      rp.interaction(s[i], b, number);
    }
    while (output_time() < 1e299) intermediate();
    for (int i = 0; i < r.ensembles; i++) {
      PBT_CHECK(c, pos + 1 < coll.size() && coll[pos].kind == 'p' &&
                       coll[pos].event == e && coll[pos].ensemble == i,
                "no final list of event " << e << ", ensemble " << i);
      const Block &b = coll[pos++];
      list_matches(c, rp, s[i], b.in, "final list");
      for (const Line &l : b.in)
        PBT_CLOSE(c, l.t, r.end, 0, 1e-6, "final time of " << l);
      if (!r.mean_field)
        conserved(c, initial[i], sum(b.in), 1e-7, "event");
      else
        PBT_CHECK(c, initial[i].q == sum(b.in).q && initial[i].b == sum(b.in).b,
                  "event: charges");
      if (r.force && r.term.find("Two_to_One: False") == std::string::npos)
        for (const Line &l : b.in) {
          const ParticleType &t =
              ParticleType::find(PdgCode::from_decimal(l.pdg));
          PBT_CHECK(c, t.is_stable() || t.decay_modes().is_empty() ||
                           t.width_at_pole() < 1e-5,
                    "unstable at the end: " << l);
        }
      const Block &f = coll[pos++];
      PBT_CHECK(c, f.kind == 'f' && f.event == e && f.ensemble == i,
                "no end of event " << e << ", ensemble " << i);
      if (r.modus == "Collider") {
        PBT_CLOSE(c, f.impact, r.impact, 1e-14, 0, "impact parameter");
        if (s[i].mixed)
          PBT_CHECK(c, f.empty == 0, "event with interactions marked empty");
        if (!s[i].any)
          PBT_CHECK(c, f.empty == 1, "empty event not marked");
      }
      PBT_CHECK(c, ppos + 1 < part.size() + 0 && part[ppos].kind == 'p' &&
                       part[ppos].event == e && part[ppos].ensemble == i &&
                       part[ppos].in == b.in,
                "final list in the particle output");
      ppos++;
      PBT_CHECK(c, part[ppos].kind == 'f' && part[ppos] == f &&
                       part[ppos].event == e,
                "end of the event in the particle output");
      ppos++;
    }
    // as many intermediate outputs as there are multiples
    int expected = 0;
    for (double k = std::floor(start / r.interval) + 1;
         k * r.interval < r.end - 1e-6 * (1 + std::abs(k)); k++)
      if (k * r.interval > start + 1e-6 * (1 + std::abs(k))) expected++;
    bool all = true;
    for (auto &x : initial) all = all && x.scale > 0;
    if (all)
      PBT_CHECK(c, outputs >= expected && outputs <= expected + 1,
                outputs << " intermediate outputs instead of " << expected);
  }
  PBT_CHECK(c, pos == coll.size() && ppos == part.size(), "surplus output");
  c.label("walls", rp.walls > 0);
  c.label("decays", rp.decays > 0);
  c.label("many", rp.interactions > 20);
  c.nontrivial(rp.interactions >= 3);
}

// the same seed gives the same files, and more outputs do not interfere
PBT_PROP_OPT(reproducible, 20, 200, 120, false) {
  const Run r = generate(c, true, c.flip());
  const bool more = c.flip();
  Scratch dir;
  c.note() << r.yaml(r.seed, r.events, 0, "DIR");
  for (auto &f : r.files) c.note() << f;
  r.execute(dir.dir / "a", r.seed, r.events, 0);
  // some other use of the random numbers in between
  random::set_seed(c.below(1000));
  r.execute(dir.dir / "b", r.seed, r.events, more);
  for (const char *f : {"collisions_oscar2013_extended.bin",
                        "particles_oscar2013_extended.bin"}) {
    const std::string a = slurp(dir.dir / "a" / f), b = slurp(dir.dir / "b" / f);
    if (a != b) {
      const auto x = parse(a), y = parse(b);
      size_t i = 0;
      while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
      if (i < x.size() && i < y.size() && mass_memory(x[i], y[i])) {
        c.label("known: mass sampling");
        c.discard();
      }
      pbt::fail(pbt::Fmt() << f << " differs"
                           << (more ? " with more output" : "") << " in block "
                           << i << ": "
                           << (i < x.size() && i < y.size()
                                   ? difference(x[i], y[i])
                                   : "length"));
    }
    c.comparisons++;
    c.nontrivial(a.size() > 5000);
  }
}

// the events are independent of their predecessors
PBT_PROP_OPT(events, 20, 200, 120, false) {
  Run r = generate(c, true, c.flip());
  if (!r.files.empty()) c.discard();
  r.events = 3;
  Scratch dir;
  c.note() << r.yaml(r.seed, r.events, 0, "DIR");
  r.execute(dir.dir / "a", r.seed, r.events, 0);
  const auto all = parse(slurp(dir.dir / "a/collisions_oscar2013_extended.bin"));
  int64_t seed = r.seed;
  size_t pos = 0;
  for (int e = 0; e < r.events; e++) {
    const fs::path d = dir.dir / std::to_string(e);
    r.execute(d, seed, 1, 0);
    const auto one = parse(slurp(d / "collisions_oscar2013_extended.bin"));
    for (const Block &b : one) {
      PBT_CHECK(c, pos < all.size(), "event " << e << " is longer");
      if (mass_memory(b, all[pos])) {
        c.label("known: mass sampling");
        c.discard();
      }
      PBT_CHECK(c, b == all[pos], "event " << e << " differs from its repetition"
                                          " with the same seed in block "
                                          << pos << ": "
                                          << difference(b, all[pos]));
      pos++;
    }
    random::set_seed(seed);
    int64_t x = random::advance();
    while (x == INT64_MIN) x = random::advance();
    seed = std::abs(x);
  }
  PBT_CHECK(c, pos == all.size(), "surplus blocks");
  c.nontrivial(all.size() > 12);
}

// the known finding itself: looks whether masses still depend on the past
PBT_PROP_OPT(mass_sampling, 4, 8, 120, true) {
  const ParticleType &h1 = ParticleType::find(PdgCode::from_decimal(10223)),
                     &rho = ParticleType::find(PdgCode::from_decimal(113));
  std::vector<double> m[2];
  for (auto &list : m)
    for (double sqrts : {1.95, 2.2, 3.})
      for (int64_t seed = 1; seed < 2000; seed++) {
        random::set_seed(seed);
        list.push_back(h1.sample_resonance_masses(rho, sqrts).first);
      }
  if (m[0] != m[1]) c.label("known: mass sampling");
  c.nontrivial();
}

PBT_MAIN
