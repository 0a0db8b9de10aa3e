// P23: outputs contain what happened, in the documented layout.
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include "params.h"
#include "smash/action.h"
#include "smash/binaryoutput.h"
#include "smash/config.h"
#include "smash/icoutput.h"
#include "smash/oscaroutput.h"
#include "smash/outputformatter.h"
#include "smash/particles.h"
#include "smashkit.h"

namespace fs = std::filesystem;
using namespace smash;

namespace pbt {
static std::ostream &operator<<(std::ostream &o, const Fmt &f) {
  return o << f.s.str();
}
}  // namespace pbt

namespace {
// ---------------------------------------------------------------- quantities
struct Quantity {
  const char *name, *unit;
  int kind;  // 0 integer, 1 double with 6 digits, 2 double with 9 digits
};
const std::vector<Quantity> quantities = {
    {"t", "fm", 1}, {"x", "fm", 1}, {"y", "fm", 1}, {"z", "fm", 1},
    {"mass", "GeV", 1}, {"p0", "GeV", 2}, {"px", "GeV", 2},
    {"py", "GeV", 2}, {"pz", "GeV", 2}, {"pdg", "none", 0},
    {"ID", "none", 0}, {"id", "none", 0}, {"charge", "e", 0},
    {"ncoll", "none", 0}, {"form_time", "fm", 1}, {"xsecfac", "none", 1},
    {"proc_id_origin", "none", 0}, {"proc_type_origin", "none", 0},
    {"time_last_coll", "fm", 1}, {"pdg_mother1", "none", 0},
    {"pdg_mother2", "none", 0}, {"baryon_number", "none", 0},
    {"strangeness", "none", 0}, {"0", "0", 0}, {"tau", "fm", 1},
    {"eta", "none", 1}, {"eta_s", "none", 1}, {"mt", "GeV", 1},
    {"Rap", "none", 1}, {"y_rap", "none", 1}, {"spin0", "none", 1},
    {"spinx", "none", 1}, {"spiny", "none", 1}, {"spinz", "none", 1},
    {"perturbative_weight", "none", 1}};
const std::map<std::string, std::string> synonyms = {
    {"ID", "id"}, {"id", "ID"}, {"eta", "eta_s"}, {"eta_s", "eta"},
    {"Rap", "y_rap"}, {"y_rap", "Rap"}};
const Quantity &quantity(const std::string &n) {
  for (const auto &q : quantities)
    if (n == q.name) return q;
  throw std::logic_error("no such quantity: " + n);
}
const std::vector<std::string> o2013 = {"t",  "x",  "y",  "z",
                                        "mass", "p0", "px", "py",
                                        "pz", "pdg", "ID", "charge"};
const std::vector<std::string> o1999 = {"id", "pdg", "0", "px", "py", "pz",
                                        "p0", "mass", "x", "y", "z", "t"};
const std::vector<std::string> vhlle = {
    "tau", "x",   "y",   "eta",    "mt",            "px",
    "py",  "Rap", "pdg", "charge", "baryon_number", "strangeness"};
std::vector<std::string> extended() {
  auto r = o2013;
  for (const char *q :
       {"ncoll", "form_time", "xsecfac", "proc_id_origin", "proc_type_origin",
        "time_last_coll", "pdg_mother1", "pdg_mother2", "baryon_number",
        "strangeness"})
    r.push_back(q);
  return r;
}
// value of a quantity, from the documentation
double value(const ParticleData &p, const std::string &q) {
  const auto r = p.position(), k = p.momentum(), s = p.spin_vector();
  const auto h = p.get_history();
  if (q == "t") return r.x0();
  if (q == "x") return r.x1();
  if (q == "y") return r.x2();
  if (q == "z") return r.x3();
  if (q == "mass") return p.effective_mass();
  if (q == "p0") return k.x0();
  if (q == "px") return k.x1();
  if (q == "py") return k.x2();
  if (q == "pz") return k.x3();
  if (q == "pdg") return p.pdgcode().get_decimal();
  if (q == "ID" || q == "id") return p.id();
  if (q == "charge") return p.type().charge();
  if (q == "ncoll") return h.collisions_per_particle;
  if (q == "form_time") return p.formation_time();
  if (q == "xsecfac") return p.xsec_scaling_factor();
  if (q == "proc_id_origin") return h.id_process;
  if (q == "proc_type_origin") return static_cast<int>(h.process_type);
  if (q == "time_last_coll") return h.time_last_collision;
  if (q == "pdg_mother1") return h.p1.get_decimal();
  if (q == "pdg_mother2") return h.p2.get_decimal();
  if (q == "baryon_number") return p.type().baryon_number();
  if (q == "strangeness") return p.type().strangeness();
  if (q == "0") return 0;
  if (q == "tau") return std::sqrt((r.x0() - r.x3()) * (r.x0() + r.x3()));
  if (q == "eta" || q == "eta_s")
    return 0.5 * std::log((r.x0() + r.x3()) / (r.x0() - r.x3()));
  if (q == "mt") return std::sqrt((k.x0() - k.x3()) * (k.x0() + k.x3()));
  if (q == "Rap" || q == "y_rap")
    return 0.5 * std::log((k.x0() + k.x3()) / (k.x0() - k.x3()));
  if (q == "spin0") return s.x0();
  if (q == "spinx") return s.x1();
  if (q == "spiny") return s.x2();
  if (q == "spinz") return s.x3();
  if (q == "perturbative_weight") return p.perturbative_weight();
  throw std::logic_error("quantity " + q);
}
bool computed(const std::string &q) {
  return q == "tau" || q == "eta" || q == "eta_s" || q == "mt" || q == "Rap" ||
         q == "y_rap";
}
// rounding of the computed quantities
double slack(const ParticleData &p, const std::string &q) {
  if (!computed(q)) return 0;
  const bool pos = q == "tau" || q[0] == 'e';
  const auto v = pos ? p.position() : p.momentum();
  const double s = std::abs(v.x0()) + std::abs(v.x3());
  const double t2 = (v.x0() - v.x3()) * (v.x0() + v.x3());
  const double e = 1e-14 * s * s;
  if (q == "tau" || q == "mt") {
    return t2 > 4 * e ? e / std::sqrt(t2) : std::sqrt(5 * e);
  }
  return t2 > 0 ? 1e-14 + 8 * e / t2 : 1e-14;
}

// ---------------------------------------------------------------- generators
// a number of any size
double number(pbt::Case &c, bool wild) {
  double v;
  switch (c.below(wild ? 7 : 3)) {
    case 0:
      v = c.real(-10, 10);
      break;
    case 1:
      v = 0;
      break;
    case 2:
      v = c.logreal(1e-4, 1e4);
      break;
    case 3:
      v = c.logreal(1e-12, 1e12);
      break;
    case 4:
      v = std::pow(10., c.uniform(-300, 300));
      break;
    case 5:
      v = c.logreal(1e-310, 1e-307);
      break;
    default:
      v = static_cast<double>(c.range(0, 10000000)) *
          std::pow(10., c.range(-8, 3));
  }
  return c.flip() ? -v : v;
}
int32_t integer(pbt::Case &c) {
  switch (c.below(3)) {
    case 0:
      return static_cast<int32_t>(c.below(20));
    case 1:
      return static_cast<int32_t>(c.below(1u << 31));
    default:
      return static_cast<int32_t>(
          c.one_of({0, 1, 2147483647, 99999, 100000, 1000000}));
  }
}
const std::vector<ProcessType> &types() {
  static const std::vector<ProcessType> r = {
      ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne,
      ProcessType::TwoToTwo, ProcessType::TwoToThree, ProcessType::TwoToFour,
      ProcessType::TwoToFive, ProcessType::Decay, ProcessType::Wall,
      ProcessType::Thermalization, ProcessType::Fluidization,
      ProcessType::FluidizationNoRemoval, ProcessType::Bremsstrahlung,
      ProcessType::MultiParticleThreeMesonsToOne,
      ProcessType::MultiParticleThreeToTwo,
      ProcessType::MultiParticleFourToTwo,
      ProcessType::MultiParticleFiveToTwo,
      ProcessType::StringSoftSingleDiffractiveAX,
      ProcessType::StringSoftSingleDiffractiveXB,
      ProcessType::StringSoftDoubleDiffractive,
      ProcessType::StringSoftAnnihilation,
      ProcessType::StringSoftNonDiffractive, ProcessType::StringHard,
      ProcessType::FailedString, ProcessType::Freeforall};
  return r;
}
const std::map<ProcessType, int> &numbers() {
  using P = ProcessType;
  static const std::map<P, int> r = {
      {P::None, 0}, {P::Elastic, 1}, {P::TwoToOne, 2}, {P::TwoToTwo, 3},
      {P::TwoToThree, 4}, {P::TwoToFour, 15}, {P::TwoToFive, 13},
      {P::Decay, 5}, {P::Wall, 6}, {P::Thermalization, 7},
      {P::Fluidization, 8}, {P::FluidizationNoRemoval, 21},
      {P::Bremsstrahlung, 9}, {P::MultiParticleThreeMesonsToOne, 10},
      {P::MultiParticleThreeToTwo, 11}, {P::MultiParticleFourToTwo, 14},
      {P::MultiParticleFiveToTwo, 12}, {P::StringSoftSingleDiffractiveAX, 41},
      {P::StringSoftSingleDiffractiveXB, 42},
      {P::StringSoftDoubleDiffractive, 43}, {P::StringSoftAnnihilation, 44},
      {P::StringSoftNonDiffractive, 45}, {P::StringHard, 46},
      {P::FailedString, 47}, {P::Freeforall, 90}};
  return r;
}
// `real`: on its mass shell, at timelike distance
ParticleData particle(pbt::Case &c, bool real) {
  const auto type = kit::species(c);
  ParticleData p{*type};
  if (real || c.flip()) {
    p.set_4momentum(type->mass() * (type->is_stable() ? 1. : c.real(0.9, 1.2)),
                    kit::momentum3(c));
    const auto r = kit::position3(c);
    p.set_4position(FourVector(r.abs() + c.real(0.01, 20.), r));
  } else {
    const auto wild = [&c]() {
      return std::min(1e150, std::max(-1e150, number(c, true)));
    };
    const double x = wild(), y = wild(), z = wild();
    const double e = std::max({std::abs(x), std::abs(y), std::abs(z), 1e-310}) *
                     std::sqrt(3.) * c.logreal(1.001, 30.);
    p.set_4momentum(FourVector(e, x, y, z));
    p.set_4position(FourVector(number(c, true), number(c, true),
                               number(c, true), number(c, true)));
  }
  if (c.flip()) p.set_formation_time(number(c, !real));
  else p.set_formation_time(p.position().x0());
  p.set_cross_section_scaling_factor(c.unit());
  HistoryData h;
  h.collisions_per_particle = integer(c);
  h.id_process = integer(c);
  h.process_type = c.pick(types());
  if (!c.chance(0.2)) h.time_last_collision = number(c, !real);
  if (c.flip()) h.p1 = kit::species(c)->pdgcode();
  if (c.flip()) h.p2 = kit::species(c)->pdgcode();
  p.set_history(std::move(h));
  p.set_spin_vector(FourVector(number(c, !real), number(c, !real),
                               number(c, !real), number(c, !real)));
  if (c.flip()) p.set_perturbative_weight(c.unit());
  return p;
}
class Event : public Action {
 public:
  Event(const ParticleList &in, const ParticleList &out, ProcessType t,
        double w, double part)
      : Action(in, out, 0., t), w_(w), part_(part) {}
  double get_total_weight() const override { return w_; }
  double get_partial_weight() const override { return part_; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "event"; }

 private:
  double w_, part_;
};
std::vector<std::string> choose(pbt::Case &c, bool plain) {
  std::vector<std::string> all, r;
  for (const auto &q : quantities)
    if (!plain || !computed(q.name)) all.push_back(q.name);
  const size_t n = c.count(1, 30);
  std::set<std::string> used;
  for (size_t i = 0; i < n; i++) {
    const auto q = c.pick(all);
    if (used.count(q)) continue;
    r.push_back(q);
    used.insert(q);
    if (synonyms.count(q)) used.insert(synonyms.at(q));
  }
  return r;
}
bool spacelike(const ParticleData &p) {
  const auto a = p.position(), b = p.momentum();
  return !(a.x0() > std::abs(a.x3())) || !(b.x0() > std::abs(b.x3())) ||
         !std::isfinite(a.x0() * a.x0()) || !std::isfinite(b.x0() * b.x0());
}

// ---------------------------------------------------------------- comparison
void same_number(pbt::Case &c, const std::string &token, double v, int digits,
                 double more, const std::string &what) {
  char *end = nullptr;
  const double got = std::strtod(token.c_str(), &end);
  PBT_CHECK(c, !token.empty() && *end == 0,
            pbt::Fmt() << what << ": \"" << token << "\" is not a number");
  if (std::isnan(v) || std::isnan(got)) {
    PBT_CHECK(c, std::isnan(v) && std::isnan(got),
              pbt::Fmt() << what << ": \"" << token << "\" is not " << v);
    return;
  }
  PBT_CHECK(
      c,
      std::abs(got - v) <=
          more + std::abs(v) * 0.5000001 * std::pow(10., 1 - digits) +
              (std::abs(v) < 1e-300 ? 1e-322 : 0),
      pbt::Fmt() << what << ": \"" << token << "\" is not " << v << " to "
                 << digits << " digits");
}
void same_line(pbt::Case &c, const std::vector<std::string> &tokens,
               const ParticleData &p, const std::vector<std::string> &list,
               const std::string &what) {
  PBT_CHECK(c, tokens.size() == list.size(),
            pbt::Fmt() << what << ": " << tokens.size() << " columns for "
                       << list.size() << " quantities");
  for (size_t i = 0; i < list.size(); i++) {
    const auto &q = quantity(list[i]);
    const double v = value(p, q.name);
    if (q.kind == 0) {
      char b[32];
      std::snprintf(b, sizeof b, "%.0f", v);
      PBT_CHECK(c, tokens[i] == b, pbt::Fmt() << what << ": " << q.name << " "
                                              << tokens[i] << " is not " << b);
    } else {
      same_number(c, tokens[i], v, q.kind == 1 ? 6 : 9, slack(p, q.name),
                  what + ": " + q.name);
    }
  }
}
struct Bytes {
  const std::vector<char> &data;
  size_t at = 0;
  template <typename T>
  T get(pbt::Case &c, const std::string &what) {
    PBT_CHECK(c, at + sizeof(T) <= data.size(), what + ": data end early");
    T r;
    std::memcpy(&r, data.data() + at, sizeof(T));
    at += sizeof(T);
    return r;
  }
};
void same_bytes(pbt::Case &c, Bytes &b, const ParticleData &p,
                const std::vector<std::string> &list, const std::string &what) {
  for (const auto &n : list) {
    const auto &q = quantity(n);
    const double v = value(p, n);
    if (q.kind == 0) {
      const auto i = b.get<int32_t>(c, what);
      PBT_CHECK(c, i == v,
                pbt::Fmt() << what << ": " << n << " " << i << " is not " << v);
    } else {
      const double d = b.get<double>(c, what);
      const double s = slack(p, n);
      PBT_CHECK(c,
                (std::isnan(v) && std::isnan(d)) ||
                    (s == 0 ? std::memcmp(&v, &d, 8) == 0
                            : std::abs(d - v) <= s),
                pbt::Fmt() << what << ": " << n << " " << d << " is not " << v);
    }
  }
}
std::vector<std::string> words(const std::string &line) {
  std::vector<std::string> r;
  std::istringstream s(line);
  std::string w;
  while (s >> w) r.push_back(w);
  return r;
}
std::string joined(const std::vector<std::string> &v) {
  std::string r;
  for (const auto &s : v) r += (r.empty() ? "" : " ") + s;
  return r;
}
std::vector<std::string> lines_of(pbt::Case &c, const std::string &text,
                                  const std::string &what) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : text) {
    if (ch == '\n') {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += ch;
    }
  }
  PBT_CHECK(c, cur.empty(), what + ": last line is not complete");
  return r;
}
std::string read_file(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}

// ------------------------------------------------------------------ history
enum class Kind { Start, Interaction, Time, End };
struct Step {
  Kind kind;
  EventLabel label;
  ParticleList list, out;
  EventInfo info;
  ProcessType type = ProcessType::None;
  double density = 0, weight = 0, partial = 0;
};
EventInfo info(double b, bool empty, int ensembles) {
  EventInfo i;
  i.impact_parameter = b;
  i.modus_length = 0;
  i.current_time = 0;
  i.total_kinetic_energy = i.total_mean_field_energy = i.total_energy = 0;
  i.test_particles = 1;
  i.n_ensembles = ensembles;
  i.empty_event = empty;
  i.impose_kinematic_cut_for_SMASH_IC = false;
  return i;
}
ParticleList list_of(const Particles &p) {
  ParticleList r;
  for (const auto &x : p) r.push_back(x);
  return r;
}
struct File {
  std::string format, content;
  fs::path name;
  std::vector<std::string> list;
  std::unique_ptr<OutputInterface> out;
  bool start = false, times = false, end = false, if_not_empty = false,
       interactions = false, ic = false;
};

void check_text(pbt::Case &c, const File &f, const std::vector<Step> &steps) {
  const std::string what = f.format + " " + f.content;
  const auto lines = lines_of(c, read_file(f.name), what);
  size_t at = 0;
  auto next = [&]() {
    PBT_CHECK(c, at < lines.size(), what + ": file ends early");
    return lines[at++];
  };
  const bool old = f.format == "Oscar1999";
  std::string units;
  for (const auto &q : f.list) units += std::string(" ") + quantity(q).unit;
  const std::string title =
      f.content == "Particles"    ? "particle_lists"
      : f.content == "Collisions" ? "full_event_history"
      : f.content == "Initial_Conditions" ? "SMASH_IC"
                                          : f.content;
  auto header = [&](const std::string &expected) {
    const auto l = next();
    PBT_CHECK(c, l == expected, pbt::Fmt() << what << ": header line \"" << l
                                           << "\", not \"" << expected << "\"");
  };
  if (f.format == "For_vHLLE") {
    header(std::string("# ") + SMASH_VERSION +
           " initial conditions: hypersurface of constant proper time");
    header("# " + joined(f.list));
    header("#" + units);
  } else if (old) {
    header("# OSC1999A");
    header("# " + (title == "particle_lists" ? "final_id_p_x" : title));
    header(std::string("# ") + SMASH_VERSION);
    header("# Block format:");
    header(f.content == "Collisions"
               ? "# nin nout density tot_weight part_weight proc_type"
               : "# nin nout event_number ensemble_number");
    header("# " + joined(f.list));
    header("# End of event: 0 0 event_number ensemble_number "
           "impact_parameter");
    header("#");
  } else {
    const std::string version =
        f.format == "ASCII"            ? "ASCII"
        : f.list.size() == o2013.size() ? "OSCAR2013"
                                        : "OSCAR2013Extended";
    header("#!" + version + " " + title + " " + joined(f.list));
    header("# Units:" + units);
    header(std::string("# ") + SMASH_VERSION);
  }
  auto expect = [&](const std::string &expected) {
    const auto l = joined(words(next()));
    PBT_CHECK(c, l == expected, pbt::Fmt() << what << ": line \"" << l
                                           << "\", not \"" << expected << "\"");
  };
  auto particles = [&](const ParticleList &l) {
    for (const auto &p : l) same_line(c, words(next()), p, f.list, what);
  };
  for (const auto &s : steps) {
    const std::string label =
        pbt::Fmt() << "# event " << s.label.event_number << " ensemble "
                   << s.label.ensemble_number;
    const std::string tail = pbt::Fmt() << " " << s.label.event_number << " "
                                        << s.label.ensemble_number;
    switch (s.kind) {
      case Kind::Start:
        if (f.ic) {
          expect(old ? "0 0" + tail : label + " start");
        } else if (f.start) {
          expect(old ? pbt::Fmt() << "0 " << s.list.size() << tail
                     : pbt::Fmt() << label << " in " << s.list.size());
          particles(s.list);
        }
        break;
      case Kind::Time:
        if (f.times) {
          expect(old ? pbt::Fmt() << s.list.size() << " 0" << tail
                     : pbt::Fmt() << label << " out " << s.list.size());
          particles(s.list);
        }
        break;
      case Kind::Interaction:
        if (f.interactions) {
          const auto w = words(next());
          std::vector<std::string> keep;
          if (!old) {
            PBT_CHECK(c,
                      w.size() == 14 && w[0] == "#" && w[1] == "interaction" &&
                          w[2] == "in" && w[4] == "out" && w[6] == "rho" &&
                          w[8] == "weight" && w[10] == "partial" &&
                          w[12] == "type",
                      what + ": interaction line \"" + joined(w) + "\"");
            keep = {w[3], w[5], w[7], w[9], w[11], w[13]};
          } else {
            PBT_CHECK(c, w.size() == 6,
                      what + ": interaction line \"" + joined(w) + "\"");
            keep = w;
          }
          const std::string got = joined({keep[0], keep[1], keep[5]});
          const std::string expected = pbt::Fmt()
                                       << s.list.size() << " " << s.out.size()
                                       << " " << numbers().at(s.type);
          PBT_CHECK(c, got == expected,
                    pbt::Fmt() << what << ": interaction " << got << ", not "
                               << expected);
          same_number(c, keep[2], s.density, 15, 0.5001e-7, what + " rho");
          same_number(c, keep[3], s.weight, old ? 15 : 7, old ? 0.5001e-7 : 0,
                      what + " weight");
          same_number(c, keep[4], s.partial, 15, 0.5001e-7, what + " partial");
          particles(s.list);
          particles(s.out);
        } else if (f.ic && (s.type == ProcessType::Fluidization ||
                            s.type == ProcessType::FluidizationNoRemoval)) {
          for (const auto &p : s.list)
            if (f.format != "For_vHLLE" ||
                p.get_history().collisions_per_particle != 0)
              particles({p});
        }
        break;
      case Kind::End:
        if (f.end || (f.if_not_empty && !s.info.empty_event)) {
          expect(old ? pbt::Fmt() << s.list.size() << " 0" << tail
                     : pbt::Fmt() << label << " out " << s.list.size());
          particles(s.list);
        }
        if (f.ic && !old) {
          expect(label + " end");
          break;
        }
        {
          auto w = words(next());
          const size_t n = old ? 5 : 11;
          PBT_CHECK(c, w.size() == n,
                    what + ": end of event line \"" + joined(w) + "\"");
          same_number(c, w[old ? 4 : 8], s.info.impact_parameter, 15,
                      0.50001e-3, what + " impact parameter");
          w[old ? 4 : 8] = "b";
          PBT_CHECK(c,
                    joined(w) ==
                        (old ? "0 0" + tail + " b"
                             : label + " end 0 impact b "
                                       "scattering_projectile_target " +
                                   (s.info.empty_event ? "no" : "yes")),
                    what + ": end of event line \"" + joined(w) + "\"");
        }
        break;
    }
  }
  PBT_CHECK(c, at == lines.size(), what + ": more lines than expected");
}

void check_binary(pbt::Case &c, const File &f, const std::vector<Step> &steps) {
  const std::string what = f.format + " " + f.content;
  const auto text = read_file(f.name);
  const std::vector<char> data(text.begin(), text.end());
  Bytes b{data};
  PBT_CHECK(c, text.substr(0, 4) == "SMSH", what + ": magic number");
  b.at = 4;
  PBT_CHECK(c, b.get<uint16_t>(c, what) == 10, what + ": format version");
  const int variant = f.list == o2013 ? 0 : f.list == extended() ? 1 : 2;
  PBT_CHECK(c, b.get<uint16_t>(c, what) == variant, what + ": format variant");
  const auto len = b.get<uint32_t>(c, what);
  PBT_CHECK(c, text.substr(b.at, len) == SMASH_VERSION, what + ": version");
  b.at += len;
  auto tag = [&](char t) {
    const char g = b.get<char>(c, what);
    PBT_CHECK(c, g == t, pbt::Fmt() << what << ": block '" << g << "', not '"
                                    << t << "'");
  };
  auto number_is = [&](int64_t v, const char *name) {
    const auto g = b.get<int32_t>(c, what);
    PBT_CHECK(c, g == v,
              pbt::Fmt() << what << ": " << name << " " << g << ", not " << v);
  };
  auto double_is = [&](double v, const char *name) {
    const auto g = b.get<double>(c, what);
    PBT_CHECK(c, std::memcmp(&g, &v, 8) == 0,
              pbt::Fmt() << what << ": " << name << " " << g << ", not " << v);
  };
  auto particles = [&](const ParticleList &l) {
    for (const auto &p : l) same_bytes(c, b, p, f.list, what);
  };
  auto block = [&](const Step &s) {
    tag('p');
    number_is(s.label.event_number, "event");
    number_is(s.label.ensemble_number, "ensemble");
    number_is(static_cast<int64_t>(s.list.size()), "number of particles");
    particles(s.list);
  };
  for (const auto &s : steps) {
    switch (s.kind) {
      case Kind::Start:
        if (f.start) block(s);
        break;
      case Kind::Time:
        if (f.times) block(s);
        break;
      case Kind::Interaction:
        if (f.interactions) {
          tag('i');
          number_is(static_cast<int64_t>(s.list.size()), "incoming");
          number_is(static_cast<int64_t>(s.out.size()), "outgoing");
          double_is(s.density, "density");
          double_is(s.weight, "weight");
          double_is(s.partial, "partial weight");
          number_is(numbers().at(s.type), "process");
          particles(s.list);
          particles(s.out);
        } else if (f.ic && (s.type == ProcessType::Fluidization ||
                            s.type == ProcessType::FluidizationNoRemoval)) {
          tag('p');
          number_is(static_cast<int64_t>(s.list.size()), "number of particles");
          particles(s.list);
        }
        break;
      case Kind::End:
        if (f.end || (f.if_not_empty && !s.info.empty_event)) block(s);
        tag('f');
        number_is(s.label.event_number, "event");
        number_is(s.label.ensemble_number, "ensemble");
        double_is(s.info.impact_parameter, "impact parameter");
        PBT_CHECK(c, b.get<char>(c, what) == (s.info.empty_event ? 1 : 0),
                  what + ": empty event");
        break;
    }
  }
  PBT_CHECK(c, b.at == data.size(), what + ": more data than expected");
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t) {}
}  // namespace pbt

// Formatters: any list of quantities, any particle.
PBT_PROP(formatter, 1500, 30000) {
  const bool real = c.flip();
  auto list = choose(c, false);
  Particles particles;
  ParticleList plain;
  const size_t n = c.count(0, 12);
  for (size_t i = 0; i < n; i++) particles.insert(particle(c, real));
  for (size_t i = n; i > 0; i--)
    if (c.chance(0.2)) particles.remove(*particles.begin());
  plain = list_of(particles);
  for (const auto &p : plain)
    if (spacelike(p)) {
      // hyperbolic coordinates are defined for timelike vectors
      std::vector<std::string> l;
      for (const auto &q : list)
        if (!computed(q)) l.push_back(q);
      list = l;
      break;
    }
  if (list.empty()) list = {"pdg"};
  c.nontrivial(plain.size() > 1 && list.size() > 1);
  c.label(real ? "physical" : "extreme");
  c.note() << joined(list) << ", " << plain.size() << " particles";
  const OutputFormatter<ToASCII> text(list);
  const OutputFormatter<ToBinary> binary(list);
  PBT_CHECK(c, text.quantities_line() == joined(list) + "\n",
            "line of quantities: " + text.quantities_line());
  std::string units;
  for (const auto &q : list)
    units += (units.empty() ? "" : " ") + std::string(quantity(q).unit);
  PBT_CHECK(c, text.unit_line() == units + "\n",
            "line of units: " + text.unit_line());
  std::string all;
  std::vector<char> bytes;
  size_t row = 0;
  for (const auto &q : list) row += quantity(q).kind == 0 ? 4 : 8;
  for (const auto &p : plain) {
    const auto l = text.single_particle_data(p);
    PBT_CHECK(c, text.compute_single_size(p) == l.size(), "size of a line");
    const auto lines = lines_of(c, l, "particle line");
    PBT_CHECK(c, lines.size() == 1, "particle line: one line per particle");
    PBT_CHECK(c, lines[0] == joined(words(lines[0])),
              "columns are separated by one space: \"" + lines[0] + "\"");
    same_line(c, words(l), p, list, "particle line");
    const auto b = binary.single_particle_data(p);
    PBT_CHECK(c, b.size() == row && binary.compute_single_size(p) == row,
              pbt::Fmt() << "binary particle of " << b.size() << " bytes, not "
                         << row);
    Bytes reader{b};
    same_bytes(c, reader, p, list, "binary particle");
    all += l;
    bytes.insert(bytes.end(), b.begin(), b.end());
  }
  PBT_CHECK(c, text.particles_data_chunk(particles) == all,
            "text of all particles");
  PBT_CHECK(c, text.particles_data_chunk(plain) == all, "text of a list");
  PBT_CHECK(c, binary.particles_data_chunk(particles) == bytes,
            "bytes of all particles");
  PBT_CHECK(c, binary.particles_data_chunk(plain) == bytes, "bytes of a list");
  // copies are independent of the original
  {
    auto original = std::make_unique<OutputFormatter<ToASCII>>(list);
    auto copy = *original;
    original.reset();
    PBT_CHECK(c, copy.particles_data_chunk(plain) == all, "copied formatter");
  }
  // large blocks are written in parts
  if (!plain.empty()) {
    size_t longest = 0;
    for (const auto &p : plain)
      longest = std::max(longest, text.single_particle_data(p).size());
    const size_t limit = 2 * longest + c.below(3 * longest);
    std::string sum;
    details::write_in_chunk_impl<ToASCII>(
        plain, text, [&](const std::string &s) { sum += s; }, limit);
    PBT_CHECK(c, sum == all, "text written in parts");
    std::vector<char> parts;
    const size_t limit2 = 2 * row + c.below(3 * row);
    details::write_in_chunk_impl<ToBinary>(
        particles, binary,
        [&](const std::vector<char> &s) {
          PBT_CHECK(c, s.size() <= limit2,
                    pbt::Fmt() << "part of " << s.size() << " bytes, limit "
                               << limit2);
          parts.insert(parts.end(), s.begin(), s.end());
        },
        limit2);
    PBT_CHECK(c, parts == bytes, "bytes written in parts");
  }
}

// Unknown, repeated and synonymous quantities are refused.
PBT_PROP(refused, 600, 6000) {
  auto list = choose(c, false);
  const size_t at = c.below(list.size() + 1);
  auto put = [&](const std::string &s) {
    list.insert(list.begin() + static_cast<long>(at), s);
  };
  std::string bad;
  switch (c.below(4)) {
    case 0:
      list.clear();
      bad = "empty list";
      break;
    case 1:
      bad = c.pick(list);
      put(bad);
      break;
    case 2: {
      static const std::vector<std::string> all = {
          "", " ", "T", "X", "tt", "momentum", "e", "pdg ", " pdg", "iD",
          "Charge", "proc_type", "spin1", "mothers", "phi", "1", "00"};
      bad = c.pick(all);
      put(bad);
      break;
    }
    default: {
      const auto i = std::next(synonyms.begin(),
                               static_cast<long>(c.below(synonyms.size())));
      std::vector<std::string> l;
      for (const auto &q : list)
        if (q != i->first && q != i->second) l.push_back(q);
      l.insert(l.begin() + static_cast<long>(c.below(l.size() + 1)), i->first);
      l.insert(l.begin() + static_cast<long>(c.below(l.size() + 1)), i->second);
      list = l;
      bad = i->first + " with " + i->second;
    }
  }
  c.nontrivial();
  c.note() << joined(list);
  int refused = 0;
  try {
    OutputFormatter<ToASCII> f(list);
  } catch (const std::invalid_argument &) {
    refused++;
  }
  try {
    OutputFormatter<ToBinary> f(list);
  } catch (const std::invalid_argument &) {
    refused++;
  }
  PBT_CHECK(c, refused == 2, "quantities accepted: " + bad);
}

// Histories of events, written in all formats at once.
PBT_PROP_OPT(history, 500, 10000, 60, false) {
  const fs::path dir = fs::path(pbt::scratch()) / "p23";
  fs::remove_all(dir);
  fs::create_directories(dir);
  OutputParameters par;
  par.part_extended = c.flip();
  par.coll_extended = c.flip();
  par.dil_extended = c.flip();
  par.photons_extended = c.flip();
  par.ic_extended = c.flip();
  par.coll_printstartend = c.flip();
  par.part_only_final = c.one_of(
      {OutputOnlyFinal::Yes, OutputOnlyFinal::No, OutputOnlyFinal::IfNotEmpty});
  const bool real = c.flip();
  static const std::vector<std::string> contents = {
      "Particles", "Collisions", "Dileptons", "Photons", "Initial_Conditions"};
  for (const auto &s : contents) {
    par.quantities[s] = choose(c, true);
    if (s == "Initial_Conditions" && real)
      par.quantities[s] = choose(c, false);
  }
  if (c.chance(0.1)) par.quantities["Particles"] = o2013;
  if (c.chance(0.1)) par.quantities["Collisions"] = extended();
  const bool no_list = c.chance(0.2);
  std::vector<File> files;
  auto is_extended = [&](const std::string &s) {
    return s == "Particles"    ? par.part_extended
           : s == "Collisions" ? par.coll_extended
           : s == "Dileptons"  ? par.dil_extended
           : s == "Photons"    ? par.photons_extended
                               : par.ic_extended;
  };
  const int ensembles = static_cast<int>(c.count(1, 3));
  std::set<fs::path> names;
  const size_t nfiles = c.count(1, 8);
  for (size_t i = 0; i < nfiles; i++) {
    File f;
    f.content = c.pick(contents);
    f.format = c.one_of({"Oscar2013", "Oscar1999", "ASCII", "Oscar2013_bin",
                         "Binary", "For_vHLLE"});
    if (f.format == "For_vHLLE" &&
        (f.content != "Initial_Conditions" || ensembles > 1 || !real))
      continue;
    if (f.content == "Initial_Conditions" && f.format == "Oscar1999") continue;
    if ((f.content == "Dileptons" || f.content == "Photons") &&
        f.format == "Oscar1999")
      continue;  // as documented
    const bool text = f.format != "Oscar2013_bin" && f.format != "Binary";
    const auto &fixed = is_extended(f.content) ? extended() : o2013;
    const auto saved = par.quantities;
    if (f.format == "Binary" && no_list) par.quantities[f.content].clear();
    f.list = f.format == "Oscar1999"   ? o1999
             : f.format == "For_vHLLE" ? vhlle
             : f.format == "ASCII"     ? par.quantities[f.content]
             : f.format == "Binary" && !par.quantities[f.content].empty()
                 ? par.quantities[f.content]
                 : fixed;
    const std::string base =
        f.content == "Particles" ? (text ? "particle_lists" : "particles")
        : f.content == "Collisions"
            ? (text ? "full_event_history" : "collisions")
        : f.content == "Initial_Conditions" ? "SMASH_IC"
                                            : f.content;
    if (f.format == "For_vHLLE")
      f.name = "SMASH_IC_For_vHLLE.dat";
    else if (text)
      f.name = base + (f.format == "ASCII"       ? ".dat"
                       : f.format == "Oscar1999" ? ".oscar1999"
                                                 : ".oscar");
    else
      f.name = base +
               (f.list == o2013        ? "_oscar2013"
                : f.list == extended() ? "_oscar2013_extended"
                                       : "_custom") +
               ".bin";
    f.name = dir / f.name;
    if (names.insert(f.name).second) {
      if (f.format == "For_vHLLE")
        f.out = std::make_unique<ICOutput>(dir, "SMASH_IC", par);
      else if (text)
        f.out = create_oscar_output(f.format, f.content, dir, par);
      else
        f.out = create_binary_output(f.format, f.content, dir, par);
      f.start = f.times = f.content == "Particles" &&
                          par.part_only_final == OutputOnlyFinal::No;
      f.end = f.content == "Particles" &&
              par.part_only_final != OutputOnlyFinal::IfNotEmpty;
      f.if_not_empty = f.content == "Particles" &&
                       par.part_only_final == OutputOnlyFinal::IfNotEmpty;
      if (f.content == "Collisions") f.start = f.end = par.coll_printstartend;
      f.ic = f.content == "Initial_Conditions";
      f.interactions = !f.ic && f.content != "Particles";
      c.label(f.format + " " + f.content);
      c.note() << f.format << " " << f.content << " {" << joined(f.list)
               << "} ";
      files.push_back(std::move(f));
    }
    par.quantities = saved;
  }
  if (files.empty()) c.discard();
  for (const auto &f : files) {
    auto unfinished = f.name;
    unfinished += ".unfinished";
    PBT_CHECK(c, fs::exists(unfinished) && !fs::exists(f.name),
              "file is not marked as unfinished: " + f.name.string());
  }
  bool ic = false, colliding = false, vhlle_used = false;
  for (const auto &f : files) {
    ic = ic || f.ic;
    colliding = colliding || f.interactions;
    vhlle_used = vhlle_used || f.format == "For_vHLLE";
  }
  const DensityParameters dens{kit::Params().make()};
  std::unique_ptr<Clock> clock = std::make_unique<UniformClock>(0., 0.1, 10.);
  std::vector<Step> steps;
  const size_t events = c.count(0, 4);
  const bool crash = c.chance(0.1);
  try {
    for (size_t e = 0; e < events; e++) {
      for (int ens = 0; ens < ensembles; ens++) {
        Particles particles;
        const size_t n = c.count(0, 6);
        for (size_t i = 0; i < n; i++) particles.insert(particle(c, real));
        for (size_t i = n; i > 0; i--)
          if (c.chance(0.1)) particles.remove(*particles.begin());
        const EventLabel label{static_cast<int32_t>(e), ens};
        const bool empty = c.flip();
        const auto inf = info(c.flip() ? 0. : c.real(0., 30.), empty, ensembles);
        steps.push_back({Kind::Start, label, list_of(particles), {}, inf});
        for (auto &f : files) f.out->at_eventstart(particles, label, inf);
        const size_t m = c.count(0, 6);
        for (size_t k = 0; k < m; k++) {
          if (c.chance(0.3)) {
            steps.push_back({Kind::Time, label, list_of(particles), {}, inf});
            for (auto &f : files)
              f.out->at_intermediate_time(particles, clock, dens, label, inf);
            continue;
          }
          Step s{Kind::Interaction, label, {}, {}, inf};
          const bool fluid = ic && (!colliding || c.flip());
          // the surface of initial conditions is at one proper time
          const size_t in = fluid ? 1 : c.count(0, 4),
                       out = fluid ? 0 : c.count(0, 7);
          for (size_t i = 0; i < in; i++) {
            auto p = particle(c, real);
            if (fluid && vhlle_used) {
              const double z = c.real(-5, 5);
              p.set_4position(FourVector(std::sqrt(1 + z * z), c.real(-3, 3),
                                         c.real(-3, 3), z));
            }
            s.list.push_back(p);
          }
          for (size_t i = 0; i < out; i++) s.out.push_back(particle(c, real));
          s.type = fluid ? c.one_of({ProcessType::Fluidization,
                                     ProcessType::FluidizationNoRemoval})
                         : c.pick(types());
          if (!fluid && (s.type == ProcessType::Fluidization ||
                         s.type == ProcessType::FluidizationNoRemoval))
            s.type = ProcessType::Decay;
          s.density = c.real(0, 3);
          s.weight = c.chance(0.2) ? c.logreal(1e-12, 1e12) : c.real(0, 100);
          s.partial = c.real(0, 100);
          Event action(s.list, s.out, s.type, s.weight, s.partial);
          s.list = action.incoming_particles();
          s.out = action.outgoing_particles();
          for (auto &f : files)
            if (!f.ic || fluid) f.out->at_interaction(action, s.density);
          steps.push_back(s);
        }
        steps.push_back({Kind::End, label, list_of(particles), {}, inf});
        for (auto &f : files) f.out->at_eventend(particles, label, inf);
      }
    }
    if (crash) {
      // the outputs are destroyed while an exception is passed on
      std::vector<std::unique_ptr<OutputInterface>> doomed;
      for (auto &f : files) doomed.push_back(std::move(f.out));
      throw std::runtime_error("crash");
    }
  } catch (const std::runtime_error &e) {
    if (std::string(e.what()) != "crash") throw;
  }
  c.nontrivial(steps.size() > 3);
  for (auto &f : files) {
    auto unfinished = f.name;
    unfinished += ".unfinished";
    f.out.reset();
    PBT_CHECK(c, fs::exists(crash ? unfinished : f.name) &&
                     !fs::exists(crash ? f.name : unfinished),
              std::string("name of the file after ") +
                  (crash ? "a crash: " : "the end: ") + f.name.string());
    if (crash) f.name = unfinished;
    if (f.format == "Oscar2013_bin" || f.format == "Binary")
      check_binary(c, f, steps);
    else
      check_text(c, f, steps);
  }
  size_t present = 0;
  for ([[maybe_unused]] const auto &entry : fs::directory_iterator(dir))
    present++;
  PBT_CHECK(c, present == files.size(), "number of files");
  fs::remove_all(dir);
}

PBT_MAIN
