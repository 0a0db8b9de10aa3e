// P24: external particle lists are read as they are.
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "params.h"
#include "smash/action.h"
#include "smash/constants.h"
#include "smash/listmodus.h"
#include "smash/oscaroutput.h"
#include "smash/particles.h"
#include "smashkit.h"

namespace fs = std::filesystem;
using namespace smash;

namespace {
const std::vector<std::pair<ProcessType, int>> processes = {
    {ProcessType::None, 0}, {ProcessType::Elastic, 1},
    {ProcessType::TwoToOne, 2}, {ProcessType::TwoToTwo, 3},
    {ProcessType::TwoToThree, 4}, {ProcessType::TwoToFour, 15},
    {ProcessType::TwoToFive, 13}, {ProcessType::Decay, 5},
    {ProcessType::Wall, 6}, {ProcessType::Thermalization, 7},
    {ProcessType::Fluidization, 8}, {ProcessType::FluidizationNoRemoval, 21},
    {ProcessType::Bremsstrahlung, 9},
    {ProcessType::MultiParticleThreeMesonsToOne, 10},
    {ProcessType::MultiParticleThreeToTwo, 11},
    {ProcessType::MultiParticleFourToTwo, 14},
    {ProcessType::MultiParticleFiveToTwo, 12},
    {ProcessType::StringSoftSingleDiffractiveAX, 41},
    {ProcessType::StringSoftSingleDiffractiveXB, 42},
    {ProcessType::StringSoftDoubleDiffractive, 43},
    {ProcessType::StringSoftAnnihilation, 44},
    {ProcessType::StringSoftNonDiffractive, 45}, {ProcessType::StringHard, 46},
    {ProcessType::FailedString, 47}, {ProcessType::Freeforall, 90}};
const std::vector<std::string> optional = {
    "ID", "charge", "ncoll", "form_time", "xsecfac", "proc_type",
    "time_last_coll", "pdg_mother1", "pdg_mother2", "spin0", "spinx", "spiny",
    "spinz", "perturbative_weight"};

std::string text_of(pbt::Case &c, double v) {
  char b[64];
  switch (c.below(4)) {
    case 0:
      std::snprintf(b, sizeof b, "%g", v);
      break;
    case 1:
      std::snprintf(b, sizeof b, "%.9e", v);
      break;
    default:
      std::snprintf(b, sizeof b, "%.17g", v);
  }
  return b;
}
struct Entry {
  std::vector<std::string> fields;  // as in the file
  bool known = true;
  PdgCode pdg;
  double v[9];  // t x y z m E px py pz
  std::map<std::string, std::string> opt;
};
double num(const std::string &s) { return std::strtod(s.c_str(), nullptr); }

Entry entry(pbt::Case &c, double t, const std::vector<std::string> &opts,
            const FourVector *where = nullptr) {
  Entry e;
  const auto type = kit::species(c);
  e.pdg = type->pdgcode();
  double m = type->mass();
  if (!type->is_stable()) m *= c.real(0.8, 1.4);
  if (type->is_stable() && m > 0 && c.chance(0.2)) m *= c.real(0.9, 1.1);
  if (type->is_stable() && m > 0 && c.chance(0.1)) m += 1e-3;
  const auto p = kit::momentum3(c);
  double E = std::sqrt(m * m + p.sqr());
  if (c.chance(0.2)) E *= c.real(0.7, 1.3);
  if (c.chance(0.05)) E = 0;
  const auto r = where ? where->threevec() : kit::position3(c, 30.);
  const double v[9] = {where ? where->x0() : t, r.x1(), r.x2(), r.x3(), m, E,
                       p.x1(), p.x2(), p.x3()};
  for (int i = 0; i < 9; i++) {
    if (where && i < 4) {
      char b[64];
      std::snprintf(b, sizeof b, "%.17g", v[i]);
      e.fields.push_back(b);
    } else {
      e.fields.push_back(text_of(c, v[i]));
    }
    e.v[i] = num(e.fields.back());
  }
  e.fields.push_back(e.pdg.string());
  if (c.chance(0.05)) {
    // existing particles SMASH does not know
    const std::string s = c.one_of({"9000443", "24", "20553", "5554", "-5554"});
    if (!ParticleType::exists(PdgCode(s))) {
      e.fields.back() = s;
      e.known = false;
      e.pdg = PdgCode(s);
    }
  }
  for (const auto &o : opts) {
    std::string s;
    if (o == "ID") {
      s = std::to_string(c.below(100000));
    } else if (o == "charge") {
      s = std::to_string(e.known ? type->charge() : 0);
    } else if (o == "ncoll") {
      s = std::to_string(c.below(1000));
    } else if (o == "form_time") {
      s = text_of(c, e.v[0] + c.real(-5, 5));
    } else if (o == "xsecfac" || o == "perturbative_weight") {
      s = text_of(c, c.real(0, 1));
    } else if (o == "proc_type") {
      s = std::to_string(c.pick(processes).second);
    } else if (o == "time_last_coll") {
      s = c.flip() ? e.fields[0] : text_of(c, e.v[0] - c.real(1e-3, 9));
      if (num(s) > e.v[0]) s = e.fields[0];
    } else if (o == "pdg_mother1" || o == "pdg_mother2") {
      s = c.flip() ? "0" : kit::species(c)->pdgcode().string();
    } else {
      s = text_of(c, c.real(-3, 3));
    }
    e.opt[o] = s;
    e.fields.push_back(s);
  }
  return e;
}
// what the documentation says about the particle
struct Expected {
  PdgCode pdg;
  FourVector r, p;
  double formation, xs;
  std::map<std::string, std::string> opt;
};
std::vector<Expected> model(const std::vector<Entry> &list, double &start) {
  std::vector<Expected> r;
  for (const auto &e : list) {
    if (!e.known) continue;
    Expected x;
    x.pdg = e.pdg;
    x.r = {e.v[0], e.v[1], e.v[2], e.v[3]};
    const auto &type = ParticleType::find(e.pdg);
    const ThreeVector p(e.v[6], e.v[7], e.v[8]);
    double E = e.v[5];
    const double m = e.v[4];
    if (type.is_stable() && std::abs(m - type.mass()) > really_small)
      E = std::sqrt(type.mass() * type.mass() + p.sqr());
    else if (std::abs(E * E - p.sqr() - m * m) > really_small)
      E = std::sqrt(m * m + p.sqr());
    x.p = FourVector(E, p);
    x.formation = x.r.x0();
    x.xs = 1;
    x.opt = e.opt;
    if (e.opt.count("form_time")) x.formation = num(e.opt.at("form_time"));
    if (e.opt.count("xsecfac")) x.xs = num(e.opt.at("xsecfac"));
    r.push_back(x);
  }
  start = 0;
  if (r.empty()) return r;
  double first = r[0].r.x0();
  bool differ = false;
  for (const auto &x : r) {
    first = std::min(first, x.r.x0());
    differ = differ || x.r.x0() != r[0].r.x0();
  }
  start = first;
  if (differ)
    for (auto &x : r) {
      const double t = x.r.x0();
      x.r = FourVector(first,
                       x.r.threevec() - (t - first) * x.p.threevec() / x.p.x0());
      x.formation = t;
      x.xs = 0;
    }
  return r;
}
// whether any stage of the reading is too close to a tolerance to be decided
bool ambiguous(const Entry &e) {
  if (!e.known) return false;
  const auto &type = ParticleType::find(e.pdg);
  const ThreeVector p(e.v[6], e.v[7], e.v[8]);
  const double d1 = std::abs(e.v[4] - type.mass()),
               d2 = std::abs(e.v[5] * e.v[5] - p.sqr() - e.v[4] * e.v[4]);
  const double eps = 1e-12 * (1 + e.v[5] * e.v[5]);
  return std::abs(d1 - really_small) < 1e-10 ||
         std::abs(d2 - really_small) < eps + 1e-10;
}
void same(pbt::Case &c, const Particles &got, const std::vector<Expected> &list,
          const std::string &what) {
  PBT_CHECK(c, got.size() == list.size(),
            what << ": " << got.size() << " particles, not " << list.size());
  size_t i = 0;
  int last = -1;
  for (const auto &p : got) {
    const auto &e = list[i++];
    const std::string w = pbt::Fmt() << what << ", particle " << i;
    PBT_CHECK(c, p.id() > last, w << ": not in the given order");
    last = p.id();
    PBT_CHECK(c, p.pdgcode() == e.pdg, w << ": species");
    const double s = 1e-12 * (1 + e.p.x0());
    for (int k = 0; k < 4; k++) {
      PBT_CLOSE(c, p.momentum()[k], e.p[k], 1e-13, s,
                w << ": momentum " << k);
      PBT_CLOSE(c, p.position()[k], e.r[k], 1e-13, 1e-10,
                w << ": position " << k);
    }
    PBT_CLOSE(c, p.formation_time(), e.formation, 0, 0, w << ": formed");
    PBT_CLOSE(c, p.initial_xsec_scaling_factor(), e.xs, 0, 0,
              w << ": cross section factor");
    const auto h = p.get_history();
    auto has = [&](const char *n) { return e.opt.count(n) > 0; };
    auto get = [&](const char *n) { return e.opt.at(n); };
    PBT_CHECK(c, h.collisions_per_particle ==
                     (has("ncoll") ? std::stoi(get("ncoll")) : 0),
              w << ": ncoll " << h.collisions_per_particle);
    int type = -1;
    for (const auto &q : processes)
      if (q.first == h.process_type) type = q.second;
    PBT_CHECK(c, type == (has("proc_type") ? std::stoi(get("proc_type")) : 0),
              w << ": process " << type);
    if (has("time_last_coll"))
      PBT_CLOSE(c, h.time_last_collision, num(get("time_last_coll")), 0, 0,
                w << ": time of the last collision");
    for (int k = 0; k < 2; k++) {
      const char *n = k ? "pdg_mother2" : "pdg_mother1";
      const int32_t m = (k ? h.p2 : h.p1).get_decimal();
      PBT_CHECK(c, m == (has(n) ? std::stoi(get(n)) : 0), w << ": " << n << m);
    }
    const char *spins[4] = {"spin0", "spinx", "spiny", "spinz"};
    for (int k = 0; k < 4; k++)
      if (has(spins[k]))
        PBT_CLOSE(c, p.spin_vector()[k], num(get(spins[k])), 0, 0,
                  w << ": " << spins[k]);
    PBT_CLOSE(c, p.perturbative_weight(),
              has("perturbative_weight") ? num(get("perturbative_weight")) : 1.,
              0, 0, w << ": perturbative weight");
  }
}
class Recorder : public OutputInterface {
 public:
  std::vector<std::pair<ParticleList, ParticleList>> walls;
  Recorder() : OutputInterface("Collisions") {}
  void at_interaction(const Action &a, const double) override {
    walls.push_back({a.incoming_particles(), a.outgoing_particles()});
  }
};
class Event : public Action {
 public:
  Event(const ParticleList &in, ProcessType t)
      : Action(in, {}, 0., t) {}
  double get_total_weight() const override { return 0; }
  double get_partial_weight() const override { return 0; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "event"; }
};
std::vector<std::string> choose(pbt::Case &c) {
  std::vector<std::string> r;
  for (size_t n = c.count(0, 14); n > 0; n--) {
    const auto o = c.pick(optional);
    if (std::find(r.begin(), r.end(), o) == r.end()) r.push_back(o);
  }
  return r;
}
std::string yaml_list(const std::vector<std::string> &v) {
  std::string r = "[";
  for (const auto &s : v) r += (r.size() > 1 ? ", \"" : "\"") + s + "\"";
  return r + "]";
}
struct Scratch {
  fs::path dir;
  Scratch() : dir(fs::path(pbt::scratch()) / "p24") {
    fs::remove_all(dir);
    fs::create_directories(dir);
  }
  ~Scratch() { fs::remove_all(dir); }
};
// Writes events to files; each with their number of events
struct Style {
  bool crlf, tabs, inline_comments, no_final_newline, comments, blank;
  int begin, end;
};
std::string write_event(pbt::Case &c, const std::vector<Entry> &list, size_t e,
                        const Style &s) {
  const std::string nl = s.crlf ? "\r\n" : "\n";
  std::string r;
  if (s.comments) {
    const std::string n = std::to_string(e);
    if (s.begin == 0)
      r += "# event " + n + nl;
    else if (s.begin == 1)
      r += "# event " + n + " out " + std::to_string(list.size()) + nl;
    else
      r += "# event " + n + " ensemble 0 start" + nl;
  }
  for (const auto &x : list) {
    if (s.blank && c.chance(0.2)) r += (c.flip() ? "  " : "") + nl;
    if (s.comments && s.inline_comments && c.chance(0.2))
      r += "# some remark" + nl;
    if (s.blank && c.chance(0.2)) r += "  ";
    for (size_t i = 0; i < x.fields.size(); i++)
      r += (i ? (s.tabs ? "\t" : " ") : "") + x.fields[i];
    if (s.inline_comments && c.chance(0.2)) r += " # remark";
    r += nl;
  }
  if (s.comments) {
    const std::string n = std::to_string(e);
    if (s.end == 0)
      r += "# event " + n + " end" + nl;
    else if (s.end == 1)
      r += "# event " + n + " end 0 impact   1.500" + nl;
    else
      r += "# event " + n +
           " ensemble 0 end 0 impact   0.000 scattering_projectile_target no" +
           nl;
  }
  return r;
}
}  // namespace

namespace pbt {
void setup() {
  kit::quiet();
  kit::load_default();
}
void reset_case(uint64_t) {}
}  // namespace pbt

static void run(pbt::Case &c, bool box) {
  Scratch dir;
  const bool default_opts = c.chance(0.3);
  const auto opts = default_opts ? std::vector<std::string>{"ID", "charge"}
                                 : choose(c);
  Style s;
  s.crlf = c.chance(0.1);
  s.tabs = c.chance(0.2);
  s.inline_comments = c.chance(0.2);
  s.no_final_newline = c.chance(0.2);
  s.comments = !c.chance(0.3);
  s.blank = c.chance(0.2);
  s.begin = static_cast<int>(c.below(3));
  s.end = static_cast<int>(c.below(3));
  const bool prefix = c.flip();
  const int shift = prefix ? static_cast<int>(c.below(12)) : 0;
  const size_t nfiles = prefix ? c.count(1, 4) : 1;
  std::vector<std::vector<Entry>> events;
  // one fault at most
  const bool faulty = c.chance(0.25);
  for (size_t f = 0; f < nfiles; f++) {
    const size_t n = s.comments ? c.count(1, 4) : 1;
    std::string text;
    if (s.comments && c.flip())
      text = "#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID "
             "charge\n# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n"
             "# SMASH-3.3\n";
    for (size_t e = 0; e < n; e++) {
      std::vector<Entry> list;
      const bool same_time = c.flip();
      const double t = c.real(-10, 30);
      const size_t size = c.count(s.comments ? 0 : 1, 7);
      for (size_t i = 0; i < size; i++) {
        list.push_back(entry(c, same_time ? t : c.real(0, 20), opts));
        if (ambiguous(list.back())) c.discard();
        if (same_time && list.back().fields[0] != list[0].fields[0]) {
          list.back().v[0] = list[0].v[0];
          list.back().fields[0] = list[0].fields[0];
          if (list.back().opt.count("time_last_coll")) {
            const auto at = static_cast<size_t>(
                std::find(opts.begin(), opts.end(), "time_last_coll") -
                opts.begin());
            list.back().opt["time_last_coll"] = list[0].fields[0];
            list.back().fields[10 + at] = list[0].fields[0];
          }
        }
      }
      // at most two particles may be at the same point
      if (!faulty && c.chance(0.2)) {
        const FourVector at(t, kit::position3(c));
        for (int k = 0; k < 2; k++) {
          list.push_back(entry(c, t, opts, &at));
          if (ambiguous(list.back())) c.discard();
        }
        if (c.flip()) {
          FourVector near = at;
          near[3] += 1e-8;
          list.push_back(entry(c, t, opts, &near));
          if (ambiguous(list.back())) c.discard();
        }
      }
      // times may only differ clearly
      double lo = 1e9, sum = 0;
      for (const auto &x : list) lo = std::min(lo, x.v[0]);
      for (const auto &x : list)
        if (x.known) sum += std::abs(x.v[0] - list[0].v[0]);
      if (sum > 0 && sum < 1e-4) c.discard();
      std::map<std::vector<double>, int> points;
      for (const auto &x : list)
        if (x.known && ++points[{x.v, x.v + 4}] > 2) c.discard();
      events.push_back(list);
      text += write_event(c, list, events.size(), s);
    }
    if (s.no_final_newline && !text.empty()) {
      text.pop_back();
      if (!text.empty() && text.back() == '\r') text.pop_back();
    } else if (s.blank && c.flip()) {
      for (size_t k = c.below(8); k > 0; k--) text += "\n";
    }
    std::ofstream out(dir.dir / (prefix ? "list" + std::to_string(
                                                       shift + static_cast<int>(f))
                                        : "list"),
                      std::ios::binary);
    out << text;
  }
  // a massless particle at rest has no velocity to propagate it
  for (const auto &ev : events)
    for (const auto &e : ev)
      if (e.known) {
        double start;
        const auto m = model({e}, start);
        if (!m.empty() && !(m[0].p.x0() > 0)) c.discard();
      }
  const double length = c.logreal(0.3, 40.);
  std::string yaml = pbt::Fmt()
                     << "Modi: {" << (box ? "ListBox" : "List")
                     << ": {File_Directory: \"" << dir.dir.string() << "\", "
                     << (prefix ? "File_Prefix: list" : "Filename: list")
                     << (prefix && (shift || c.flip())
                             ? ", Shift_Id: " + std::to_string(shift)
                             : "")
                     << (default_opts ? ""
                                      : ", Optional_Quantities: " +
                                            yaml_list(opts));
  if (box) yaml += std::string(", Length: ") + (pbt::Fmt() << length).s.str();
  yaml += "}}";
  c.note() << events.size() << " events in " << nfiles << " files, "
           << yaml_list(opts) << (s.comments ? " comments" : "")
           << (s.no_final_newline ? " no final newline" : "");
  size_t total = 0;
  for (const auto &e : events) total += e.size();
  c.nontrivial(events.size() > 1 && total > 2);
  c.label("several files", nfiles > 1);
  c.label("without comments", !s.comments);
  const auto par = kit::Params().make();
  auto cfg = kit::config(yaml);
  std::unique_ptr<ListModus> list;
  std::unique_ptr<ListBoxModus> list_box;
  try {
    if (box)
      list_box = std::make_unique<ListBoxModus>(std::move(cfg), par);
    else
      list = std::make_unique<ListModus>(std::move(cfg), par);
  } catch (...) {
    cfg.clear();
    throw;
  }
  for (size_t e = 0; e < events.size(); e++) {
    const std::string what = "event " + std::to_string(e + 1);
    double start;
    auto expected = model(events[e], start);
    Particles particles;
    const double got = box ? list_box->initial_conditions(&particles, par)
                           : list->initial_conditions(&particles, par);
    PBT_CLOSE(c, got, start, 0, 0, what << ": start time");
    same(c, particles, expected, what);
    if (!box) continue;
    const auto before = particles.copy_to_vector();
    OutputsList outputs;
    outputs.push_back(std::make_unique<Recorder>());
    const int wraps = list_box->impose_boundary_conditions(&particles, outputs);
    const auto &rec = static_cast<const Recorder &>(*outputs.front());
    size_t i = 0, hit = 0;
    for (const auto &p : particles) {
      const auto &b = before[i++];
      bool moved = false;
      for (int k = 1; k < 4; k++) {
        const double x = p.position()[k], y = b.position()[k];
        PBT_CHECK(c, x >= 0 && x <= length,
                  what << ": coordinate " << x << " is not in the box of "
                       << length);
        const double n = (x - y) / length;
        PBT_CLOSE(c, n, std::round(n), 1e-9, 1e-9,
                  what << ": not moved by multiples of the length: " << y
                       << " to " << x);
        moved = moved || std::round(n) != 0;
        if (y >= 0 && y < length)
          PBT_CLOSE(c, x, y, 0, 0, what << ": moved within the box");
      }
      PBT_CHECK(c,
                p.momentum() == b.momentum() && p.id() == b.id() &&
                    p.pdgcode() == b.pdgcode() &&
                    p.position().x0() == b.position().x0(),
                what << ": boundary condition changes the particle");
      if (moved) {
        PBT_CHECK(c, hit < rec.walls.size(), what << ": wall not reported");
        const auto &w = rec.walls[hit++];
        PBT_CHECK(c,
                  w.first.size() == 1 && w.second.size() == 1 &&
                      w.first[0].position() == b.position() &&
                      w.second[0].position() == p.position() &&
                      w.first[0].id() == b.id() && w.second[0].id() == b.id(),
                  what << ": reported wall crossing");
      }
    }
    PBT_CHECK(c, hit == rec.walls.size() && wraps == static_cast<int>(hit),
              what << ": " << hit << " wall crossings, " << wraps
                   << " counted, " << rec.walls.size() << " reported");
    c.label("wrapped", hit > 0);
  }
  // nothing is left
  bool thrown = false;
  Particles more;
  try {
    if (box)
      list_box->initial_conditions(&more, par);
    else
      list->initial_conditions(&more, par);
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown, "an event after the last one");
}
PBT_PROP_OPT(lists, 800, 20000, 60, false) { run(c, false); }
PBT_PROP_OPT(boxes, 400, 10000, 60, false) { run(c, true); }

// Faulty lists are refused, wherever the fault is.
PBT_PROP_OPT(refused, 600, 12000, 60, false) {
  Scratch dir;
  auto opts = choose(c);
  static const std::vector<std::string> faults = {
      "three particles", "charge", "ncoll", "xsecfac", "proc_type",
      "time_last_coll", "pdg_mother1", "pdg_mother2", "perturbative_weight",
      "unknown quantity", "missing column", "no number", "no pdg code",
      "both names", "no name", "no file", "ensembles", "spins",
      "missing quantity"};
  const std::string fault = c.pick(faults);
  if (std::find(optional.begin(), optional.end(), fault) != optional.end() &&
      std::find(opts.begin(), opts.end(), fault) == opts.end())
    opts.insert(opts.begin() + static_cast<long>(c.below(opts.size() + 1)),
                fault);
  if (fault == "unknown quantity")
    opts.insert(opts.begin() + static_cast<long>(c.below(opts.size() + 1)),
                c.one_of({"foo", "Charge", "proc_type_origin", "mass", "t"}));
  if (fault == "missing quantity" && opts.empty()) opts = {"ncoll"};
  const size_t n = c.count(1, 5), bad = c.below(n);
  const bool prefix = c.flip();
  Style s{false, false, false, false, true, false, 1, 1};
  std::string text;
  for (size_t e = 0; e < n; e++) {
    std::vector<Entry> list;
    auto known = [&](const FourVector *at = nullptr) {
      for (;;) {
        auto x = entry(c, c.real(0, 10), opts, at);
        if (x.known) return x;
        c.discard();
      }
    };
    for (size_t i = c.count(1, 5); i > 0; i--) list.push_back(known());
    if (e == bad) {
      auto &x = list[c.below(list.size())];
      const auto at = static_cast<size_t>(
          10 + (std::find(opts.begin(), opts.end(), fault) - opts.begin()));
      if (fault == "three particles") {
        FourVector r(c.real(0, 10), kit::position3(c));
        if (c.flip()) r[1] = 0;
        if (c.flip()) r[3] = 0;
        for (size_t k = 3 + c.below(3); k > 0; k--) {
          list.insert(list.begin() + static_cast<long>(c.below(list.size() + 1)),
                      known(&r));
          for (int i = 1; i < 4; i++)
            if (r[i] == 0 && c.flip()) r[i] = -r[i];
        }
      } else if (fault == "charge") {
        x.fields[at] = std::to_string(std::stoi(x.fields[at]) +
                                      static_cast<int>(c.one_of({-1, 1, 2})));
      } else if (fault == "ncoll") {
        x.fields[at] = std::to_string(-1 - static_cast<int>(c.below(50)));
      } else if (fault == "xsecfac" || fault == "perturbative_weight") {
        x.fields[at] = text_of(c, c.flip() ? -c.logreal(1e-4, 10.)
                                           : 1 + c.logreal(1e-3, 10.));
      } else if (fault == "proc_type") {
        x.fields[at] = c.one_of({"-1", "16", "20", "22", "40", "48", "89", "91",
                                 "1000", "-5"});
      } else if (fault == "time_last_coll") {
        x.fields[at] = text_of(c, x.v[0] + 0.01 + c.logreal(1e-3, 10.));
        if (num(x.fields[at]) <= x.v[0]) c.discard();
      } else if (fault == "pdg_mother1" || fault == "pdg_mother2") {
        x.fields[at] = c.one_of({"24", "20553", "abc", "1"});
        try {
          if (ParticleType::exists(PdgCode(x.fields[at]))) c.discard();
        } catch (const PdgCode::InvalidPdgCode &) {
        }
      } else if (fault == "missing column") {
        x.fields.resize(c.below(10));
        if (x.fields.empty()) x.fields = {"0.5"};
      } else if (fault == "missing quantity") {
        x.fields.pop_back();
        if (opts.empty()) c.discard();
      } else if (fault == "no number") {
        x.fields[c.below(9)] = c.one_of({"x", "nan", "-", "1e999", "one"});
      } else if (fault == "no pdg code") {
        x.fields[9] = c.one_of({"pi+", "xyz", "11111111111111"});
      }
    }
    text += write_event(c, list, e, s);
  }
  if (!(fault == "no file")) {
    std::ofstream out(dir.dir / (prefix ? "list0" : "list"));
    out << text;
  }
  c.nontrivial();
  c.label(fault);
  c.note() << fault << " in event " << bad << " of " << n;
  kit::Params params;
  if (fault == "ensembles") params.ensembles = static_cast<int>(c.range(2, 9));
  if (fault == "spins") {
    params.spin = SpinInteractionType::On;
    std::vector<std::string> with;
    const auto drop = c.one_of({"spin0", "spinx", "spiny", "spinz"});
    if (std::find(opts.begin(), opts.end(), drop) != opts.end()) c.discard();
  }
  const auto par = params.make();
  const bool both = fault == "both names", none = fault == "no name";
  auto cfg = kit::config(
      pbt::Fmt() << "Modi: {List: {File_Directory: \"" << dir.dir.string()
                 << "\", Optional_Quantities: " << yaml_list(opts)
                 << ((prefix || both) && !none ? ", File_Prefix: list" : "")
                 << ((!prefix || both) && !none ? ", Filename: list" : "")
                 << "}}");
  bool refused = false;
  size_t read = 0;
  try {
    ListModus list(std::move(cfg), par);
    // other faults show up in the event
    PBT_CHECK(c, fault != "three particles" && !both && !none,
              "list accepted: " << fault);
    for (; read < n; read++) {
      Particles p;
      list.initial_conditions(&p, par);
    }
  } catch (const std::logic_error &) {
    refused = true;
  } catch (const std::runtime_error &) {
    refused = true;
  }
  cfg.clear();
  PBT_CHECK(c, refused, "list accepted: " << fault);
  if (read > 0)
    PBT_CHECK(c, read == bad, "event " << bad << " is faulty, but event "
                                       << read << " refused");
}

// The final state of a run is the initial state of the next one.
PBT_PROP_OPT(continuation, 500, 10000, 60, false) {
  Scratch dir;
  OutputParameters par;
  par.part_only_final = OutputOnlyFinal::Yes;
  const bool ascii = c.flip(), surface = c.flip();
  const auto opts = ascii ? choose(c)
                          : std::vector<std::string>{"ID", "charge"};
  std::vector<std::string> quantities = {"t",  "x",  "y",  "z",  "mass",
                                         "p0", "px", "py", "pz", "pdg"};
  for (const auto &o : opts)
    quantities.push_back(o == "proc_type" ? "proc_type_origin" : o);
  const std::string content = surface ? "Initial_Conditions" : "Particles";
  par.quantities[content] = quantities;
  auto out = create_oscar_output(ascii ? "ASCII" : "Oscar2013", content,
                                 dir.dir, par);
  EventInfo info;
  info.impact_parameter = 0;
  info.empty_event = false;
  info.n_ensembles = 1;
  info.test_particles = 1;
  std::vector<ParticleList> events;
  const size_t n = c.count(1, 5);
  for (size_t e = 0; e < n; e++) {
    Particles list;
    const double t = c.real(0, 200);
    for (size_t i = c.count(0, 8); i > 0; i--) {
      const auto type = kit::species(c);
      ParticleData p{*type};
      p.set_4momentum(type->mass() * (type->is_stable() ? 1 : c.real(0.9, 1.2)),
                      kit::momentum3(c));
      if (!(p.momentum().x0() > 0)) continue;
      p.set_4position(FourVector(surface ? c.real(0, 20) : t,
                                 kit::position3(c)));
      p.set_formation_time(c.flip() ? p.position().x0() : c.real(0, 300));
      p.set_cross_section_scaling_factor(c.real(0, 1));
      HistoryData h;
      h.collisions_per_particle = static_cast<int32_t>(c.below(50));
      h.id_process = static_cast<int32_t>(c.below(5000));
      h.process_type = c.pick(processes).first;
      h.time_last_collision = c.real(0, 1) * p.position().x0();
      if (c.flip()) h.p1 = kit::species(c)->pdgcode();
      if (c.flip()) h.p2 = kit::species(c)->pdgcode();
      p.set_history(std::move(h));
      p.set_spin_vector(FourVector(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1),
                                   c.real(-1, 1)));
      p.set_perturbative_weight(c.real(0, 1));
      list.insert(p);
    }
    const EventLabel label{static_cast<int32_t>(e), 0};
    out->at_eventstart(list, label, info);
    ParticleList l;
    for (const auto &p : list) l.push_back(p);
    if (surface)
      for (const auto &p : l)
        out->at_interaction(Event({p}, ProcessType::Fluidization), 0.);
    out->at_eventend(list, label, info);
    events.push_back(l);
  }
  out.reset();
  const std::string name =
      std::string(surface ? "SMASH_IC" : "particle_lists") +
      (ascii ? ".dat" : ".oscar");
  c.note() << name << ", " << n << " events " << yaml_list(opts);
  c.label(name);
  const auto params = kit::Params().make();
  auto cfg = kit::config(pbt::Fmt()
                         << "Modi: {List: {File_Directory: \""
                         << dir.dir.string() << "\", Filename: \"" << name
                         << "\", Optional_Quantities: " << yaml_list(opts)
                         << "}}");
  ListModus list(std::move(cfg), params);
  for (size_t e = 0; e < n; e++) {
    Particles got;
    const double start = list.initial_conditions(&got, params);
    const std::string what = "event " + std::to_string(e);
    PBT_CHECK(c, got.size() == events[e].size(),
              what << ": " << got.size() << " particles read, "
                   << events[e].size() << " written");
    if (got.size() == 0) continue;
    c.nontrivial(n > 1 && got.size() > 1);
    double first = 1e9;
    for (const auto &p : events[e]) first = std::min(first, p.position().x0());
    PBT_CLOSE(c, start, first, 6e-6, 0, what << ": start time");
    bool moved = false;
    for (const auto &p : events[e])
      moved = moved || std::abs(p.position().x0() - first) > 1e-5 * first;
    size_t i = 0;
    for (const auto &p : got) {
      const auto &w = events[e][i++];
      PBT_CHECK(c, p.pdgcode() == w.pdgcode(), what << ": species");
      PBT_CHECK(c, (p.momentum().threevec() - w.momentum().threevec()).abs() <
                       1e-8 * (w.momentum().threevec().abs() + 1e-300),
                what << ": momentum");
      PBT_CLOSE(c, p.momentum().x0(), w.momentum().x0(), 1e-5, 1e-5,
                what << ": energy");
      const double dt = w.position().x0() - start;
      const auto r = w.position().threevec() - dt * w.velocity();
      // light particles are slow or fast due to the digits of their mass
      PBT_CHECK(c, (p.position().threevec() - r).abs() <
                       1e-5 * (40 + 2 * w.position().x0()) + 3e-4 * dt,
                what << ": position " << kit::show(p.position().threevec())
                     << ", not " << kit::show(r));
      if (moved) {
        PBT_CLOSE(c, p.formation_time(), w.position().x0(), 6e-6, 0,
                  what << ": formed");
        PBT_CHECK(c, p.initial_xsec_scaling_factor() == 0,
                  what << ": cross section factor");
      }
      const auto h = p.get_history(), g = w.get_history();
      for (const auto &o : opts) {
        if (o == "ncoll")
          PBT_CHECK(c, h.collisions_per_particle == g.collisions_per_particle,
                    what << ": ncoll");
        if (o == "form_time" && !moved && first > 0)
          PBT_CLOSE(c, p.formation_time(), w.formation_time(), 6e-6, 1e-300,
                    what << ": formation time");
        if (o == "xsecfac" && !moved && first > 0)
          PBT_CLOSE(c, p.initial_xsec_scaling_factor(),
                    w.xsec_scaling_factor(), 6e-6, 1e-300,
                    what << ": cross section factor");
        if (o == "proc_type")
          PBT_CHECK(c, h.process_type == g.process_type, what << ": process");
        if (o == "time_last_coll")
          PBT_CLOSE(c, h.time_last_collision, g.time_last_collision, 6e-6,
                    1e-300, what << ": last collision");
        if (o == "pdg_mother1")
          PBT_CHECK(c, h.p1 == g.p1, what << ": first mother");
        if (o == "pdg_mother2")
          PBT_CHECK(c, h.p2 == g.p2, what << ": second mother");
        if (o == "perturbative_weight")
          PBT_CLOSE(c, p.perturbative_weight(), w.perturbative_weight(), 6e-6,
                    1e-300, what << ": weight");
        for (int k = 0; k < 4; k++)
          if (o == std::string("spin") + "0xyz"[k])
            PBT_CLOSE(c, p.spin_vector()[k], w.spin_vector()[k], 6e-6, 1e-300,
                      what << ": " << o);
      }
    }
  }
  bool thrown = false;
  try {
    Particles got;
    list.initial_conditions(&got, params);
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown, "an event after the last one");
}

// Particles handed over one by one.
PBT_PROP(interface, 400, 8000) {
  ListModus list;
  Particles particles;
  std::vector<Entry> entries;
  for (size_t i = c.count(1, 8); i > 0; i--) {
    auto e = entry(c, c.real(0, 10), {});
    if (ambiguous(e)) c.discard();
    auto v = std::vector<double>(e.v, e.v + 9);
    const size_t bad = c.chance(0.1) ? c.below(9) : 9;
    if (bad < 9 && bad != 4) v[bad] = std::nan("");
    bool refused = false;
    try {
      list.try_create_particle(particles, e.pdg, v[0], v[1], v[2], v[3], v[4],
                               v[5], v[6], v[7], v[8]);
    } catch (const std::invalid_argument &) {
      refused = true;
    }
    PBT_CHECK(c, refused == (bad < 9 && bad != 4),
              (refused ? "particle refused" : "particle with NaN accepted"));
    if (!refused) entries.push_back(e);
  }
  c.nontrivial(entries.size() > 1);
  std::vector<Expected> expected;
  for (const auto &e : entries) {
    double start;
    for (const auto &x : model({e}, start)) expected.push_back(x);
  }
  same(c, particles, expected, "list");
}

PBT_MAIN
