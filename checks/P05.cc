// P05: the particle table is consistent: for the shipped table and for
// generated ones.
#include <map>

#include "smash/inputfunctions.h"
#include "smash/isoparticletype.h"
#include "smash/particletype.h"
#include "smashkit.h"

using namespace smash;

namespace {
const char *const BAR = "\u0305";
const char *charge_suffix(int q) {
  switch (q) {
    case 2:
      return "⁺⁺";
    case 1:
      return "⁺";
    case 0:
      return "⁰";
    case -1:
      return "⁻";
    case -2:
      return "⁻⁻";
  }
  return "?";
}
bool starts(const std::string &s, const std::string &p) {
  return s.compare(0, p.size(), p) == 0;
}
void same_type(pbt::Case &c, const ParticleType &a, const ParticleType &b) {
  PBT_CHECK(c, std::addressof(a) == std::addressof(b),
            a.name() << " vs " << b.name());
}
// invariants of one entry in whatever table is loaded
void check_entry(pbt::Case &c, const ParticleType &t) {
  const auto &all = ParticleType::list_all();
  const PdgCode pdg = t.pdgcode();
  same_type(c, ParticleType::find(pdg), t);
  PBT_CHECK(c, ParticleType::try_find(pdg) == &t, "try_find");
  same_type(c, *&t, t);
  PBT_CHECK(c, ParticleType::exists(pdg), "exists(pdg)");
  PBT_CHECK(c, ParticleType::exists(t.name()), "exists(name)");
  int same_name = 0, same_pdg = 0;
  for (const auto &u : all) {
    same_name += u.name() == t.name();
    same_pdg += u.pdgcode() == pdg;
  }
  PBT_CHECK(c, same_pdg == 1, "duplicate code " << pdg);
  PBT_CHECK(c, same_name == 1, "two species are called " << t.name());
  PBT_CHECK(c, t.charge() == pdg.charge() && t.spin() == pdg.spin() &&
                   t.isospin3() == pdg.isospin3() &&
                   t.baryon_number() == pdg.baryon_number() &&
                   t.strangeness() == pdg.strangeness(), "quantum numbers");
  PBT_CHECK(c, t.is_stable() == (t.width_at_pole() < 1e-5), "is_stable");
  PBT_CHECK(c, t.mass_sqr() == t.mass() * t.mass(), "mass_sqr");
  // antiparticles
  PBT_CHECK(c, t.has_antiparticle() == pdg.has_antiparticle(), "");
  if (t.has_antiparticle()) {
    const ParticleType &a = *t.get_antiparticle();
    PBT_CHECK(c, a.pdgcode() == pdg.get_antiparticle(), "");
    PBT_CHECK(c, a.mass() == t.mass() && a.width_at_pole() == t.width_at_pole(),
              "CPT: mass and width of " << t.name() << " and " << a.name());
    PBT_CHECK(c, a.charge() == -t.charge(), "");
    PBT_CHECK(c, a.isospin() == t.isospin() && a.isospin3() == -t.isospin3(),
              "isospin of the antiparticle of " << t.name());
    PBT_CHECK(c, (a.parity() == t.parity()) == (t.spin() % 2 == 0),
              "parity of the antiparticle of " << t.name());
    same_type(c, *a.get_antiparticle(), t);
  }
  // isospin multiplets
  if (!t.is_hadron()) return;
  const IsoParticleType *m = t.iso_multiplet();
  PBT_CHECK(c, m != nullptr, "multiplet");
  PBT_CHECK(c, m == IsoParticleType::try_find(m->name()), "multiplet by name");
  PBT_CHECK(c, &IsoParticleType::find(m->name()) == m, "");
  PBT_CHECK(c, IsoParticleType::exists(m->name()), "");
  PBT_CHECK(c, IsoParticleType::find_state(t.name()) == &t, "find_state");
  const auto states = m->get_states();
  bool found = false;
  std::set<int> i3;
  for (const auto &s : states) {
    found |= s == &t;
    PBT_CHECK(c, s->iso_multiplet() == m, "");
    PBT_CHECK(c, s->spin() == t.spin() && s->spin() == m->spin() &&
                     s->parity() == t.parity() && s->parity() == m->parity(),
              "spin and parity are common to multiplet " << m->name());
    PBT_CHECK(c, s->baryon_number() == t.baryon_number() &&
                     s->strangeness() == t.strangeness() &&
                     s->pdgcode().charmness() == pdg.charmness() &&
                     s->pdgcode().bottomness() == pdg.bottomness(),
              "multiplet " << m->name() << " mixes flavours: " << t.name()
                           << " and " << s->name());
    PBT_CHECK(c, i3.insert(s->isospin3()).second,
              "multiplet " << m->name() << " has two states with I3 = "
                           << s->isospin3() << "/2");
    PBT_CHECK(c, 2 * (s->charge() - t.charge()) ==
                     s->isospin3() - t.isospin3(), "Q - I3 is common");
    PBT_CHECK(c, std::abs(s->isospin3()) <= m->isospin() &&
                     (s->isospin3() - m->isospin()) % 2 == 0,
              "I3 " << s->isospin3() << "/2 outside the multiplet "
                    << m->name() << " of isospin " << m->isospin() << "/2");
  }
  PBT_CHECK(c, found, "state is in its multiplet");
  PBT_CHECK(c, static_cast<int>(states.size()) == m->isospin() + 1, "2I+1");
  PBT_CHECK(c, t.isospin() == m->isospin(), "isospin");
  PBT_CLOSE(c, t.isospin3_rel(),
            m->isospin() ? 1.0 * t.isospin3() / m->isospin() : 0., 1e-15, 0,
            "");
  if (t.has_antiparticle()) {
    const IsoParticleType *am = t.get_antiparticle()->iso_multiplet();
    PBT_CHECK(c, m->has_anti_multiplet() == (am != m), "has_anti_multiplet");
    PBT_CHECK(c, m->anti_multiplet() == (am != m ? am : nullptr), "");
    if (am != m) PBT_CHECK(c, am->anti_multiplet() == m, "");
  }
}
void check_lists(pbt::Case &c) {
  auto set_of = [](const ParticleTypePtrList &l) {
    std::multiset<int> r;
    for (const auto &p : l) r.insert(p->pdgcode().get_decimal());
    return r;
  };
  std::multiset<int> nuc, anuc, del, adel, res, nuclei;
  for (const auto &t : ParticleType::list_all()) {
    const int d = t.pdgcode().get_decimal(), b = t.baryon_number();
    if (t.is_nucleon()) (b > 0 ? nuc : anuc).insert(d);
    if (t.is_Delta()) (b > 0 ? del : adel).insert(d);
    if (!t.is_stable() && b == 1) {
      res.insert(d);
      res.insert(-d);
    }
    if (t.is_nucleus()) nuclei.insert(d);
  }
  PBT_CHECK(c, set_of(ParticleType::list_nucleons()) == nuc, "nucleons");
  PBT_CHECK(c, set_of(ParticleType::list_anti_nucleons()) == anuc, "");
  PBT_CHECK(c, set_of(ParticleType::list_Deltas()) == del, "Deltas");
  PBT_CHECK(c, set_of(ParticleType::list_anti_Deltas()) == adel, "");
  PBT_CHECK(c, set_of(ParticleType::list_baryon_resonances()) == res, "");
  PBT_CHECK(c, set_of(ParticleType::list_light_nuclei()) == nuclei, "");
  const auto &all = ParticleType::list_all();
  for (size_t i = 1; i < all.size(); i++)
    PBT_CHECK(c, all[i - 1] < all[i], "the list is ordered");
}
void load_once() {
  static bool done = false;
  if (!done) kit::load_default();
  done = true;
}
}  // namespace

PBT_PROP(shipped_table, 8000, 100000) {
  load_once();
  const auto &all = ParticleType::list_all();
  const ParticleType &t = all[c.below(all.size())];
  c.note() << t.name() << " " << t.pdgcode();
  c.nontrivial(t.is_hadron());
  check_entry(c, t);
  if (c.below(200) == 0) {
    check_lists(c);
    c.label("lists");
  }
  // names agree with quantum numbers
  const std::string n = t.name();
  const bool bar = n.find(BAR) != std::string::npos;
  auto is = [&](const std::string &base) {  // base or base(1234), any charge
    std::string s = n;
    const auto p = s.find(BAR);
    if (p != std::string::npos) s.erase(p, 2);
    if (!starts(s, base)) return false;
    s = s.substr(base.size());
    return s.empty() || s[0] == '(' || starts(s, "⁺") || starts(s, "⁻") ||
           starts(s, "⁰");
  };
  const std::pair<const char *, bool> named[] = {
      {"Λ", t.pdgcode().is_Lambda()}, {"Σ", t.pdgcode().is_Sigma()},
      {"Ξ", t.pdgcode().is_Xi()},     {"Ω", t.pdgcode().is_Omega()},
      {"N", t.is_nucleon() || t.is_Nstar()},
      {"Δ", t.is_Delta() || t.is_Deltastar()}};
  for (const auto &q : named)
    PBT_CHECK(c, is(q.first) == q.second,
              n << " named " << q.first << " but classified otherwise");
  PBT_CHECK(c, !bar || t.antiparticle_sign() == -1, "bar: " << n);
  if (t.baryon_number() < 0) PBT_CHECK(c, bar, "antibaryon without bar " << n);
  for (int q : {2, -2, 1, -1, 0}) {
    const std::string s = charge_suffix(q);
    if (n.size() > s.size() && n.substr(n.size() - s.size()) == s) {
      PBT_CHECK(c, t.charge() == q, n << " has charge " << t.charge());
      break;
    }
  }
  // a code that is not in the table
  const int d = static_cast<int>(c.range(1, 999)) * 10 +
                (t.is_baryon() ? 2 : 1);
  try {
    const PdgCode q = PdgCode::from_decimal(d);
    bool in = false;
    for (const auto &u : all) in |= u.pdgcode() == q;
    PBT_CHECK(c, ParticleType::exists(q) == in, "exists " << d);
    PBT_CHECK(c, static_cast<bool>(ParticleType::try_find(q)) == in, "");
    bool thrown = false;
    try {
      ParticleType::find(q);
    } catch (const ParticleType::PdgNotFoundFailure &) {
      thrown = true;
    }
    PBT_CHECK(c, thrown == !in, "find of a missing code " << d);
    c.label("missing code", !in);
  } catch (const PdgCode::InvalidPdgCode &) {
  }
  PBT_CHECK(c, !ParticleType::exists(n + "x") && !ParticleType::exists(""),
            "name that does not exist");
}

namespace {
struct Row {
  std::string name;
  double mass, width;
  bool pos;
  std::vector<int> pdg;
};
// multiplets with a valid PDG scheme; excitation digits make them unique
std::vector<Row> random_rows(pbt::Case &c) {
  static const std::vector<std::pair<std::string, std::vector<int>>> kinds = {
      {"Pi", {111, 211}},           {"Ka", {311, 321}},
      {"Nu", {2112, 2212}},         {"De", {1114, 2114, 2214, 2224}},
      {"La", {3122}},               {"Si", {3112, 3212, 3222}},
      {"Xi", {3312, 3322}},         {"Om", {3334}},
      {"Ph", {333}},                {"Dm", {411, 421}},
      {"Bm", {511, 521}},           {"Ds", {431}},
      {"Bs", {531}},                {"Lc", {4122}},
      {"Σx", {4112, 4212, 4222}},   {"Λy", {5122}},
      {"Jp", {443}},                {"Up", {553}}};
  std::vector<Row> rows;
  std::set<std::pair<size_t, int>> used;
  const size_t n = c.count(1, 25);
  for (size_t i = 0; i < n; i++) {
    const size_t k = c.below(kinds.size());
    const int nL = static_cast<int>(c.below(7));
    if (!used.insert({k, nL}).second) continue;
    if (nL == 0) {  // the ground state; some have masses the code fixes
      static const std::map<std::string, std::pair<std::string, double>> fixed =
          {{"Pi", {"π", 0.138}},
           {"Ka", {"K", 0.494}},
           {"Nu", {"N", 0.938}},
           {"De", {"Δ", 1.232}}};
      Row r;
      r.name = kinds[k].first;
      r.mass = 0.001 * static_cast<double>(c.range(100, 5000));
      auto f = fixed.find(r.name);
      if (f != fixed.end()) {
        r.name = f->second.first;
        r.mass = f->second.second;
      }
      r.width = c.flip() ? 0. : 1e-4 * static_cast<double>(c.range(1, 9000));
      r.pos = c.flip();
      r.pdg = kinds[k].second;
      rows.push_back(r);
      continue;
    }
    const int dj = 2 * static_cast<int>(c.below(2));
    Row r;
    r.name = kinds[k].first + "(" + std::to_string(nL) + ")";
    r.mass = 0.001 * static_cast<double>(c.range(100, 5000));
    r.width = c.below(3) == 0 ? 0. : 1e-4 * static_cast<double>(c.range(1, 9000));
    r.pos = c.flip();
    // excited states only: the masses of the common ground states are fixed
    for (int p : kinds[k].second)
      r.pdg.push_back(static_cast<int>(k) * 100000 + 10000 * nL + p + dj);
    rows.push_back(r);
  }
  // leptons, the photon and light nuclei
  static const std::vector<Row> others = {
      {"e⁻", 0.000511, 0, true, {11}},
      {"μ⁻", 0.105, 0, true, {13}},
      {"τ⁻", 1.77, 0, true, {15}},
      {"γ", 0, 0, true, {22}},
      {"d", 1.8756, 0, true, {1000010020}},
      {"t", 2.8089, 0, true, {1000010030}},
      {"He3", 2.8084, 0, true, {1000020030}},
      {"H3L", 2.992, 0, true, {1010010030}},
      {"He4", 3.7274, 0, true, {1000020040}}};
  for (const Row &r : others) {
    if (c.below(4) != 1) continue;
    rows.insert(rows.begin() + static_cast<long>(c.below(rows.size() + 1)), r);
  }
  return rows;
}
std::string text_of(pbt::Case &c, const std::vector<Row> &rows) {
  std::ostringstream o;
  o << std::setprecision(12);
  auto sp = [&] { return c.one_of<const char *>({" ", "  ", "\t", " \t "}); };
  for (const auto &r : rows) {
    if (c.below(6) == 0) o << "# comment " << r.name << " 1 2 3\n";
    if (c.below(6) == 0) o << (c.flip() ? "" : " \t ") << "\n";
    if (c.below(4) == 0) o << sp();
    o << r.name << sp() << r.mass << sp() << r.width << sp()
      << (r.pos ? "+" : "-");
    for (int p : r.pdg) o << sp() << p;
    if (c.below(4) == 0) o << sp();
    if (c.below(4) == 0) o << "# trailing";
    o << "\n";
  }
  std::string s = o.str();
  if (c.flip() && !s.empty()) s.pop_back();  // no final newline
  return s;
}
std::string anti(const std::string &base, bool bar) {
  if (!bar) return base;
  // after the first (possibly multi-byte) letter
  size_t k = 1;
  while (k < base.size() && (base[k] & 0xC0) == 0x80) k++;
  return base.substr(0, k) + BAR + base.substr(k);
}
}  // namespace

// the other tables in the distribution
PBT_PROP_OPT(other_shipped, 400, 4000, 30, true) {
  const char *root = std::getenv("VERIF_REPO");
  const std::string f = c.one_of<const char *>(
      {"light_nuclei", "box", "photons", "multi_particle_box"});
  const std::string path =
      std::string(root ? root : "/repo") + "/input/" + f + "/particles.txt";
  c.note() << path;
  std::ifstream in(path);
  const std::string text((std::istreambuf_iterator<char>(in)),
                         std::istreambuf_iterator<char>());
  PBT_CHECK(c, !text.empty(), path);
  c.nontrivial();
  ParticleType::create_type_list(text);
  const auto &all = ParticleType::list_all();
  for (int i = 0; i < 40; i++) check_entry(c, all[c.below(all.size())]);
  check_lists(c);
}

PBT_PROP_OPT(generated_tables, 12000, 100000, 30, true) {
  const std::vector<Row> rows = random_rows(c);
  const std::string text = text_of(c, rows);
  c.note() << text;
  c.nontrivial(rows.size() > 2);
  ParticleType::create_type_list(text);
  struct Exp {
    std::string name;
    const Row *row;
    bool parity_pos;
  };
  std::map<int, Exp> expected;
  for (const auto &r : rows) {
    for (int p : r.pdg) {
      const PdgCode q = PdgCode::from_decimal(p);
      const std::string suf = r.pdg.size() > 1 ? charge_suffix(q.charge()) : "";
      expected[p] = {r.name + suf, &r, r.pos};
      if (q.has_antiparticle()) {
        const bool bar = q.baryon_number() || q.strangeness() ||
                         q.charmness() || q.bottomness();
        const std::string as =
            r.pdg.size() > 1 ? charge_suffix(-q.charge()) : "";
        std::string base = r.name;
        std::string tail = as;
        if (q.is_lepton()) {
          base = r.name.substr(0, r.name.size() - 3);
          tail = "⁺";
        }
        expected[-p] = {anti(base, bar) + tail, &r,
                        q.spin() % 2 == 0 ? r.pos : !r.pos};
      }
    }
  }
  const auto &all = ParticleType::list_all();
  PBT_CHECK(c, all.size() == expected.size(),
            all.size() << " types, expected " << expected.size());
  for (const auto &t : all) {
    auto it = expected.find(t.pdgcode().get_decimal());
    PBT_CHECK(c, it != expected.end(), "unexpected " << t.pdgcode());
    const Exp &e = it->second;
    PBT_CHECK(c, t.name() == e.name, t.name() << " expected " << e.name);
    PBT_CLOSE(c, t.mass(), e.row->mass, 1e-9, 0, t.name());
    PBT_CLOSE(c, t.width_at_pole(), e.row->width, 1e-9, 0, t.name());
    PBT_CHECK(c, (t.parity() == Parity::Pos) == e.parity_pos, t.name());
    check_entry(c, t);
  }
  check_lists(c);
  // the table is built once
  bool again = false;
  try {
    ParticleType::create_type_list(text);
  } catch (const std::runtime_error &) {
    again = true;
  }
  PBT_CHECK(c, again, "a second load must be refused");
}

// broken tables are refused
PBT_PROP_OPT(broken_tables, 6000, 60000, 30, true) {
  std::vector<Row> rows = random_rows(c);
  const std::string good = text_of(c, rows);
  std::ostringstream o;
  const Row &r = rows[c.below(rows.size())];
  const int kind = static_cast<int>(c.below(9));
  const int p = r.pdg[0];
  switch (kind) {
    case 0:
      o << "X 1.0 0.1\n";
      break;
    case 1:
      o << "X 1.0 0.1 +\n";
      break;
    case 2:
      o << "X 1.0 0.1 0 99111\n";
      break;
    case 3:
      o << "X abc 0.1 + 99111\n";
      break;
    case 4:
      o << "X 1.0 - + 99111\n";
      break;
    case 5:  // duplicate code
      o << "X 1.0 0.1 + " << p << "\n";
      break;
    case 6:  // not a PDG code
      o << "X 1.0 0.1 + " << c.one_of<const char *>({"2213", "1x1", "212",
                                                    "17112", "123456789"})
        << "\n";
      break;
    case 7:  // a mass that is fixed in the code
      o << "X " << c.one_of<double>({0.2, 0.9, 1.2}) << " 0 + "
        << c.one_of<int>({111, 2212, 311, 223, 2214}) << "\n";
      break;
    case 8:  // only an antiparticle of something present
      o << "X 1.0 0.1 + " << p << " " << p << "\n";
      break;
  }
  const std::string text = c.flip() ? good + "\n" + o.str() : o.str() + good +
      (kind == 5 || kind == 8 ? "" : "\n");
  c.note() << text;
  c.nontrivial();
  c.label("broken kind " + std::to_string(kind));
  bool refused = false;
  try {
    ParticleType::create_type_list(text);
  } catch (const std::exception &) {
    refused = true;
  }
  PBT_CHECK(c, refused, "a broken table was accepted: " << o.str());
  // and a correct one can be loaded afterwards
  ParticleType::create_type_list(good);
  PBT_CHECK(c, ParticleType::exists(PdgCode::from_decimal(p)), "reload");
}

void pbt::setup() { kit::quiet(); }
void pbt::reset_case(uint64_t) {}
PBT_MAIN
