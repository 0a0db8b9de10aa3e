// P06: decay tables: what is loaded is what isospin, parity, angular momentum
// and the listed branching ratios imply; everything else is refused.
#include <map>

#include "ref.h"
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/processbranch.h"
#include "smashkit.h"

using namespace smash;

namespace {
// (sorted daughter codes, L) -> weight
using Modes = std::map<std::pair<std::vector<int>, int>, double>;

Modes modes_of(pbt::Case &c, const ParticleType &t) {
  Modes r;
  for (const auto &b : t.decay_modes().decay_mode_list()) {
    std::vector<int> d;
    for (const auto &p : b->particle_types())
      d.push_back(p->pdgcode().get_decimal());
    std::sort(d.begin(), d.end());
    PBT_CHECK(c, d.size() == b->particle_number(), "particle_number");
    PBT_CHECK(c, (r.insert({{d, b->angular_momentum()}, b->weight()}).second),
              "the same mode of " << t.name() << " is listed twice");
  }
  return r;
}
int conj(int pdg) {
  const PdgCode p = PdgCode::from_decimal(pdg);
  return p.has_antiparticle() ? -pdg : pdg;
}
Modes conj(const Modes &m) {
  Modes r;
  for (const auto &e : m) {
    std::vector<int> d;
    for (int p : e.first.first) d.push_back(conj(p));
    std::sort(d.begin(), d.end());
    r[{d, e.first.second}] += e.second;
  }
  return r;
}
void same_modes(pbt::Case &c, const Modes &a, const Modes &b,
                const std::string &what) {
  PBT_CHECK(c, a.size() == b.size(),
            what << ": " << a.size() << " modes, expected " << b.size());
  for (const auto &e : b) {
    auto it = a.find(e.first);
    PBT_CHECK(c, it != a.end(), what << ": missing mode to "
                                     << e.first.first[0] << " ...");
    PBT_CLOSE(c, it->second, e.second, 1e-5, 1e-9,
              what << " branching ratio to " << e.first.first[0]);
  }
}
void invariants(pbt::Case &c, const ParticleType &t) {
  const Modes m = modes_of(c, t);
  PBT_CHECK(c, t.is_stable() || !m.empty(), t.name() << " has no decays");
  if (m.empty()) return;
  double sum = 0;
  for (const auto &b : t.decay_modes().decay_mode_list()) {
    PBT_CHECK(c, b->weight() >= 0, "negative branching ratio");
    sum += b->weight();
    int q = 0, B = 0, S = 0, C = 0;
    double min_mass = 0;
    for (const auto &p : b->particle_types()) {
      q += p->charge();
      B += p->baryon_number();
      S += p->strangeness();
      C += p->pdgcode().charmness();
      min_mass += p->min_mass_kinematic();
    }
    PBT_CHECK(c, q == t.charge(), t.name() << " decay violates charge");
    PBT_CHECK(c, B == t.baryon_number(),
              t.name() << " decay violates baryon number");
    if (!t.is_stable())
      PBT_CHECK(c, S == t.strangeness() && C == t.pdgcode().charmness(),
                t.name() << " decay violates flavour");
    PBT_CLOSE(c, b->threshold(), min_mass, 1e-12, 0, "threshold");
    if (!t.is_stable())
      PBT_CHECK(c, t.mass() > min_mass, t.name() << " below threshold");
    PBT_CHECK(c, b->angular_momentum() >= 0, "L");
  }
  PBT_CLOSE(c, sum, 1., 0, 2e-6, t.name() << " branching ratios");
  if (t.has_antiparticle() &&
      t.get_antiparticle()->iso_multiplet() != t.iso_multiplet())
    same_modes(c, modes_of(c, *t.get_antiparticle()), conj(m),
               "charge conjugate of " + t.name());
}
void load_once() {
  static bool done = false;
  if (!done) kit::load_default();
  done = true;
}
}  // namespace

PBT_PROP(shipped, 6000, 60000) {
  load_once();
  const auto &all = ParticleType::list_all();
  const ParticleType &t = all[c.below(all.size())];
  c.note() << t.name();
  c.nontrivial(!t.is_stable());
  c.label("unstable", !t.is_stable());
  invariants(c, t);
}

PBT_PROP_OPT(other_shipped, 80, 1500, 60, true) {
  const char *root = std::getenv("VERIF_REPO");
  const std::string base = std::string(root ? root : "/repo") + "/input/";
  auto slurp = [](const std::string &p) {
    std::ifstream in(p);
    return std::string((std::istreambuf_iterator<char>(in)),
                       std::istreambuf_iterator<char>());
  };
  const std::string f = c.one_of<const char *>(
      {"light_nuclei/", "box/", "photons/", "multi_particle_box/",
       "dileptons/"});
  const std::string parts =
      slurp(base + (f == "dileptons/" ? "" : f) + "particles.txt");
  const std::string decays = slurp(base + f + "decaymodes.txt");
  PBT_CHECK(c, !parts.empty() && !decays.empty(), f);
  c.note() << f;
  c.nontrivial();
  kit::load(parts, decays);
  const auto &all = ParticleType::list_all();
  for (int i = 0; i < 40; i++) invariants(c, all[c.below(all.size())]);
}

namespace {
struct Mult {
  std::string name;
  double mass, width;
  int J2;  // twice the spin
  bool pos;
  std::vector<int> pdg;  // ordered by charge
  bool antimult;         // has a separate anti-multiplet
  int B, S;
  std::vector<std::string> lines;
  int iso() const { return static_cast<int>(pdg.size()) - 1; }
};
struct Daughter {
  const Mult *m;
  bool anti;  // the anti-multiplet
  int iso() const { return m->iso(); }
  // states as pdg numbers with I3, in order
  int pdg(int i) const { return anti ? conj(m->pdg[i]) : m->pdg[i]; }
  int size() const { return static_cast<int>(m->pdg.size()); }
  int i3(int i) const { return PdgCode::from_decimal(pdg(i)).isospin3(); }
  // states including those of self-conjugate multiplets
  std::vector<int> states() const {
    std::vector<int> r;
    for (int i = 0; i < size(); i++) {
      r.push_back(pdg(i));
      if (!m->antimult && conj(m->pdg[i]) != m->pdg[i])
        r.push_back(conj(m->pdg[i]));
    }
    return r;
  }
  int twoI() const { return static_cast<int>(states().size()) - 1; }
  int B() const { return anti ? -m->B : m->B; }
  int S() const { return anti ? -m->S : m->S; }
  bool parity_pos() const {
    return anti && m->J2 % 2 == 1 ? !m->pos : m->pos;
  }
  std::string name() const {
    if (!anti) return m->name;
    size_t k = 1;
    while (k < m->name.size() && (m->name[k] & 0xC0) == 0x80) k++;
    return m->name.substr(0, k) + "\u0305" + m->name.substr(k);
  }
};
int I3(int pdg) { return PdgCode::from_decimal(pdg).isospin3(); }
int charge(int pdg) { return PdgCode::from_decimal(pdg).charge(); }
std::string suffix(int q) {
  return q == 2    ? "⁺⁺"
         : q == 1  ? "⁺"
         : q == 0  ? "⁰"
         : q == -1 ? "⁻"
                   : "⁻⁻";
}
// smallest orbital angular momentum (doubled spins)
int min_L(int J, std::vector<int> s) {
  // all total spins that can be reached
  std::set<int> tot = {s[0]};
  for (size_t i = 1; i < s.size(); i++) {
    std::set<int> n;
    for (int t : tot)
      for (int u = std::abs(t - s[i]); u <= t + s[i]; u += 2) n.insert(u);
    tot = n;
  }
  int best = 1000;
  for (int t : tot) best = std::min(best, std::abs(J - t) / 2);
  return best;
}
}  // namespace

PBT_PROP_OPT(generated, 12000, 120000, 60, true) {
  // ---- particle table
  std::vector<Mult> ms = {
      {"π", 0.138, 0, 0, false, {111, 211}, false, 0, 0, {}},
      {"K", 0.494, 0, 0, false, {311, 321}, true, 0, 1, {}},
      {"η", 0.548, 0, 0, false, {221}, false, 0, 0, {}},
      {"ρ", 0.776, 0.149, 2, false, {113, 213}, false, 0, 0, {}},
      {"N", 0.938, 0, 1, true, {2112, 2212}, true, 1, 0, {}},
      {"Λ", 1.116, 0, 1, true, {3122}, true, 1, -1, {}},
      {"Σ", 1.189, 0, 1, true, {3112, 3212, 3222}, true, 1, -1, {}},
      {"Δ", 1.232, 0.117, 3, true, {1114, 2114, 2214, 2224}, true, 1, 0, {}}};
  const size_t n_base = ms.size();
  const size_t n_res = c.count(1, 4);
  for (size_t i = 0; i < n_res; i++) {
    const int kind = static_cast<int>(c.below(8));
    const int x = 100000 * static_cast<int>(i + 1) + 10000;
    const int j = static_cast<int>(c.below(4));
    const int jm = 2 * j + 1, jb = 2 * j + 2;
    Mult m{"R" + std::to_string(i), 0, 0, 0, c.flip(), {}, true, 0, 0, {}};
    switch (kind) {
      case 0:
        m.pdg = {x + 110 + jm, x + 210 + jm};
        m.antimult = false;
        break;
      case 1:
        m.pdg = {x + 220 + jm};
        m.antimult = false;
        break;
      case 2:
        m.pdg = {x + 310 + jm, x + 320 + jm};
        m.S = 1;
        break;
      case 3:
        m.pdg = {x + 2110 + jb, x + 2210 + jb};
        m.B = 1;
        break;
      case 4:
        m.pdg = {x + 1110 + jb, x + 2110 + jb, x + 2210 + jb, x + 2220 + jb};
        m.B = 1;
        break;
      case 5:
        m.pdg = {x + 3120 + jb};
        m.B = 1;
        m.S = -1;
        break;
      case 6:
        m.pdg = {x + 3110 + jb, x + 3210 + jb, x + 3220 + jb};
        m.B = 1;
        m.S = -1;
        break;
      case 7:
        m.pdg = {x + 3310 + jb, x + 3320 + jb};
        m.B = 1;
        m.S = -2;
        break;
    }
    m.J2 = static_cast<int>(PdgCode::from_decimal(m.pdg[0]).spin());
    m.mass = 0.001 * static_cast<double>(c.range(1300, 3500));
    m.width = c.below(12) == 0 ? 0. : 0.001 * static_cast<double>(c.range(5, 400));
    ms.push_back(m);
  }
  std::ostringstream tab;
  tab << std::setprecision(10) << "γ 0 0 - 22\n";
  for (const auto &m : ms) {
    tab << m.name << " " << m.mass << " " << m.width << " "
        << (m.pos ? "+" : "-");
    for (int p : m.pdg) tab << " " << p;
    tab << "\n";
  }
  // smallest mass a multiplet can have, by the (acyclic) lists
  std::map<std::string, double> min_mass;
  for (const auto &m : ms) min_mass[m.name] = m.mass;
  min_mass["ρ"] = 2 * 0.138;
  min_mass["Δ"] = 0.938 + 0.138;

  // ---- decay table and what it must give
  bool refuse = false, uncertain = false;
  std::string why;
  auto bad = [&](const std::string &s) {
    if (!refuse) why = s;
    refuse = true;
  };
  std::ostringstream dec;
  dec << std::setprecision(10);
  std::map<int, Modes> expected;
  auto section = [&](const Mult &m) {
    if (c.below(3) == 0) dec << "\n# a comment\n";
    dec << m.name << "\n";
  };
  section(ms[3]);
  dec << "1. 1 π π\n";
  section(ms[7]);
  dec << "1. 1 N π\n";
  std::vector<Daughter> pool;
  for (const auto &m : ms) {
    pool.push_back({&m, false});
    if (m.antimult) pool.push_back({&m, true});
  }
  bool any_line = false;
  for (size_t r = n_base; r < ms.size(); r++) {
    const Mult &m = ms[r];
    const Daughter mother{&m, false};
    const auto mstates = mother.states();
    std::map<int, Modes> raw;
    section(m);
    const bool stable = m.width < 1e-5;
    const size_t nl = c.count(c.below(20) == 0 ? 0 : 1, 4);
    double lowest = m.mass;
    for (size_t l = 0; l < nl; l++) {
      // daughters that conserve baryon number and strangeness
      const size_t nd = c.below(3) == 0 ? 3 : 2;
      // now and then multiplets of the wrong hypercharge: charge is violated
      const bool wrong_y = c.below(25) == 1;
      std::vector<Daughter> ds;
      bool ok = false;
      for (int attempt = 0; attempt < 60 && !ok; attempt++) {
        ds.clear();
        int B = 0, S = 0;
        double mm = 0;
        for (size_t k = 0; k < nd; k++) {
          ds.push_back(pool[c.below(pool.size())]);
          B += ds.back().B();
          S += ds.back().S();
          // resonances only further down the list: no cycles
          if (ds.back().m >= &ms[n_base] && ds.back().m <= &m) B = 99;
          mm += min_mass[ds.back().m->name];
        }
        ok = (wrong_y ? B < 50 && B + S != m.B + m.S
                      : B == m.B && S == m.S) && (mm < m.mass || c.below(30) == 0) &&
             (c.below(12) == 0 || mm < m.mass);
      }
      if (!ok) continue;
      any_line = true;
      double thr = 0;
      bool lower_resonance = false;
      for (const auto &d : ds) {
        thr += min_mass[d.m->name];
        // the threshold of a resonance further down depends on its own list
        if (d.m >= &ms[n_base] && d.m->width >= 1e-5)
          uncertain = lower_resonance = true;
      }
      const double ratio = 0.01 * static_cast<double>(c.range(1, 150));
      std::vector<int> spins;
      bool par = true;
      for (const auto &d : ds) {
        spins.push_back(d.m->J2);
        par = par == d.parity_pos();
      }
      const int lo = min_L(m.J2, spins);
      int hi = m.J2;
      for (int s : spins) hi += s;
      hi /= 2;
      int L = lo;
      const int lmode = static_cast<int>(c.below(12));
      // mostly the smallest L with the right parity
      if (nd == 2 && lmode < 10 && (L % 2 == 0 ? par : !par) != m.pos) L++;
      if (lmode == 10) L = lo + static_cast<int>(c.below(hi - lo + 2));
      if (lmode == 11) L = std::max(0, lo - 1);
      if (c.below(120) == 0) L = -1;
      if (L < lo || L > hi) bad("angular momentum");
      if (nd == 2 && (L % 2 == 0 ? par : !par) != m.pos) bad("parity");
      if (!stable && std::abs(thr - m.mass) < 1e-9)
        uncertain = true;  // decided by rounding
      else if (!stable && !lower_resonance && thr >= m.mass)
        bad("threshold");
      const bool specific = !wrong_y && c.below(4) == 0;
      // the decay list is refused, at the latest because of the charges
      if (wrong_y) bad("charge of multiplets");
      dec << ratio << (c.flip() ? " " : "\t") << L;
      if (specific) {
        // one charge state
        std::vector<int> st;
        int q = 0;
        bool all_multi = true;
        for (const auto &d : ds) {
          const auto s = d.states();
          st.push_back(s[c.below(s.size())]);
          q += charge(st.back());
          if (s.size() > 1) {
            all_multi = false;
            std::string nm = d.name();
            if (!d.m->antimult) nm = d.m->name;
            dec << " " << nm << suffix(charge(st.back()));
          } else {
            dec << " " << d.name();
          }
        }
        std::sort(st.begin(), st.end());
        if (!all_multi) {
          bool any = false;
          for (int p : mstates)
            if (charge(p) == q) {
              raw[p][{st, L}] += ratio;
              any = true;
            }
          if (!any) bad("charge");
          dec << "\n";
          continue;
        }
      } else {
        for (const auto &d : ds) dec << " " << d.name();
      }
      dec << "\n";
      // multiplets: Clebsch-Gordan factors
      bool any = false;
      if (nd == 2) {
        for (int p : mstates)
          for (int a : ds[0].states())
            for (int b : ds[1].states()) {
              const ref::L cg =
                  ref::clebsch(ds[0].twoI(), ds[1].twoI(), mother.twoI(), I3(a),
                               I3(b), I3(p));
              if (cg * cg < 1e-9L) continue;
              std::vector<int> st = {a, b};
              std::sort(st.begin(), st.end());
              raw[p][{st, L}] += static_cast<double>(ratio * cg * cg);
              any = true;
            }
        if (!any) bad("isospin");
      } else {
        std::vector<int> iab;
        const int a = ds[0].twoI(), b = ds[1].twoI(), k = ds[2].twoI();
        for (int i = std::abs(a - b); i <= a + b; i += 2)
          if (mother.twoI() >= std::abs(i - k) && mother.twoI() <= i + k &&
              (i + k + mother.twoI()) % 2 == 0)
            iab.push_back(i);
        if (iab.size() != 1) {
          bad("ambiguous isospin coupling");
        } else {
          for (int p : mstates)
            for (int x : ds[0].states())
              for (int y : ds[1].states())
                for (int z : ds[2].states()) {
                  const ref::L cg =
                      ref::clebsch(a, b, iab[0], I3(x), I3(y), I3(x) + I3(y)) *
                      ref::clebsch(iab[0], k, mother.twoI(), I3(x) + I3(y),
                                   I3(z), I3(p));
                  if (cg * cg < 1e-9L) continue;
                  std::vector<int> st = {x, y, z};
                  std::sort(st.begin(), st.end());
                  raw[p][{st, L}] += static_cast<double>(ratio * cg * cg);
                  any = true;
                }
        }
      }
      if (any) lowest = std::min(lowest, thr);
    }
    for (int p : mstates) {
      double sum = 0;
      for (const auto &e : raw[p]) sum += e.second;
      if (raw[p].empty() && !stable) bad("missing decays");
      for (auto &e : raw[p]) e.second /= sum;
      expected[p] = raw[p];
      if (m.antimult) expected[conj(p)] = conj(raw[p]);
    }
  }
  switch (c.below(25)) {
    case 1:
      dec << "ρ\n1. 1 π π\n";
      bad("duplicate section");
      break;
    case 2:
      dec << "NoSuch\n1. 0 π π\n";
      bad("unknown mother");
      break;
    case 3:
      dec << "η\n1. 0 π NoSuch\n";
      bad("unknown daughter");
      break;
    case 4:
      dec << "η\n1. 0 π π π π\n";
      bad("too many daughters");
      break;
    case 5:
      dec << "η\n1. 0 π⁺ π⁺\n";
      bad("charge");
      break;
    case 6:
      dec << "η\n1. 0 π\n";
      bad("one daughter");
      break;
  }
  c.note() << tab.str() << "---\n" << dec.str() << "expected: "
           << (refuse ? "refused: " + why : "accepted");
  c.nontrivial(any_line);
  c.label(refuse ? "refuse: " + why : "accept");
  ParticleType::create_type_list(tab.str());
  std::string err;
  bool refused = false;
  try {
    DecayModes::load_decaymodes(dec.str());
  } catch (const std::exception &e) {
    err = e.what();
    refused = true;
  }
  if (refuse) {
    PBT_CHECK(c, refused, "accepted a table that violates: " << why);
    return;
  }
  if (refused && uncertain) {
    c.label("threshold of a lower resonance");
    return;
  }
  PBT_CHECK(c, !refused, "refused a valid table: " << err);
  ParticleType::check_consistency();
  for (const auto &e : expected) {
    const ParticleType &t = ParticleType::find(PdgCode::from_decimal(e.first));
    Modes exp;
    for (const auto &q : e.second) exp.insert(q);
    same_modes(c, modes_of(c, t), exp, t.name());
  }
  for (const auto &t : ParticleType::list_all()) invariants(c, t);
}

void pbt::setup() { kit::quiet(); }
void pbt::reset_case(uint64_t) {}
PBT_MAIN
