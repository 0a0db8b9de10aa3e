#include "smashkit.h"

#include <set>
#include <sstream>

#include "smash/configuration.h"
#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/logging.h"
#include "smash/random.h"
#include "smash/setup_particles_decaymodes.h"

namespace kit {
using namespace smash;

void quiet() {
  set_default_loglevel(einhard::OFF);
  create_all_loggers(
      Configuration("{}", Configuration::InitializeFromYAMLString));
}
void load_default() { initialize_default_particles_and_decaymodes(); }
void load(const std::string &particles, const std::string &decays) {
  ParticleType::create_type_list(particles);
  DecayModes::load_decaymodes(decays);
  ParticleType::check_consistency();
}
namespace {
std::vector<std::string> words(const std::string &line) {
  std::istringstream in(line.substr(0, line.find('#')));
  std::vector<std::string> r;
  std::string w;
  while (in >> w) r.push_back(w);
  return r;
}
// multiplet of a name in the decay table: without overline and charge
std::string multiplet(std::string s, const std::set<std::string> &names) {
  const auto strip = [&s](const std::string &x) {
    const size_t i = s.find(x);
    if (i == std::string::npos) return false;
    s.erase(i, x.size());
    return true;
  };
  if (names.count(s)) return s;
  strip("\u0305");
  while (!names.count(s) &&
         (strip("\u207a") || strip("\u207b") || strip("\u2070"))) {
  }
  return s;
}
}  // namespace
std::vector<std::string> default_multiplets() {
  std::istringstream in(load_particles_and_decaymodes({}, {}).first);
  std::vector<std::string> r;
  for (std::string line; std::getline(in, line);) {
    const auto w = words(line);
    if (w.size() > 3 && std::stod(w[2]) > 1e-5) r.push_back(w[0]);
  }
  return r;
}
void load_reduced(const std::vector<std::string> &names,
                  const std::string &extra_p, const std::string &extra_d) {
  const auto tables = load_particles_and_decaymodes({}, {});
  std::set<std::string> keep(names.begin(), names.end()), all,
      unstable;
  for (auto n : {"N", "π", "K"}) keep.insert(n);
  std::vector<std::vector<std::string>> particles;
  {
    std::istringstream in(tables.first + "\n" + extra_p);
    for (std::string line; std::getline(in, line);) {
      const auto w = words(line);
      if (w.size() > 3) {
        all.insert(w[0]);
        if (std::stod(w[2]) > 1e-5) unstable.insert(w[0]);
        particles.push_back(w);
      }
    }
  }
  std::vector<std::pair<std::string, std::vector<std::vector<std::string>>>>
      decays;
  {
    std::istringstream in(tables.second + "\n" + extra_d);
    for (std::string line; std::getline(in, line);) {
      const auto w = words(line);
      if (w.size() == 1)
        decays.push_back({w[0], {}});
      else if (w.size() > 2)
        decays.back().second.push_back(w);
    }
  }
  for (bool again = true; again;) {
    again = false;
    for (auto &d : decays) {
      if (!keep.count(d.first)) continue;
      auto &l = d.second;
      for (size_t i = 0; i < l.size();) {
        bool ok = true;
        for (size_t j = 2; j < l[i].size(); j++)
          ok &= keep.count(multiplet(l[i][j], all)) != 0;
        if (ok) {
          i++;
        } else {
          l.erase(l.begin() + i);
        }
      }
      if (l.empty() && unstable.count(d.first)) {
        keep.erase(d.first);
        again = true;
      }
    }
  }
  std::string p, d;
  for (const auto &w : particles)
    if (keep.count(w[0])) {
      for (const auto &x : w) p += x + " ";
      p += "\n";
    }
  for (const auto &m : decays)
    if (keep.count(m.first) && all.count(m.first)) {
      d += m.first + "\n";
      for (const auto &w : m.second) {
        for (const auto &x : w) d += x + " ";
        d += "\n";
      }
      d += "\n";
    }
  load(p, d);
}
void seed(int64_t s) { random::set_seed(s); }

std::vector<ParticleTypePtr> hadrons() {
  std::vector<ParticleTypePtr> r;
  for (const ParticleType &t : ParticleType::list_all())
    if (t.is_hadron()) r.push_back(&t);
  return r;
}
namespace {
bool light(const ParticleType &t, int depth = 0) {
  if (t.is_stable()) return true;
  if (depth > 12) return false;
  for (const auto &b : t.decay_modes().decay_mode_list()) {
    const auto &l = b->type().particle_types();
    int unstable = 0;
    for (auto d : l) unstable += !d->is_stable();
    if (l.size() == 2 && unstable == 2) return false;
    for (auto d : l)
      if (!light(*d, depth + 1)) return false;
  }
  return true;
}
}  // namespace
std::vector<ParticleTypePtr> resonances(size_t heavy) {
  std::vector<ParticleTypePtr> r, h;
  for (const ParticleType &t : ParticleType::list_all())
    if (!t.is_stable()) (light(t) ? r : h).push_back(&t);
  uint64_t s = pbt::options().seed;
  for (size_t i = 0; i < h.size(); i++) {
    if (!pbt::options().thorough && i >= heavy) break;
    std::swap(h[i], h[i + pbt::splitmix(s) % (h.size() - i)]);
    r.push_back(h[i]);
  }
  for (auto t : r) t->min_mass_spectral();
  return r;
}
ParticleTypePtr species(pbt::Case &c) {
  const auto &l = ParticleType::list_all();
  // the common species first, so that shrinking ends there
  if (c.below(3) == 0)
    return &ParticleType::find(PdgCode::from_decimal(
        c.one_of<int>({211, -211, 111, 2212, 2112, -2212, 321, 3122, 2224})));
  return &l[c.below(l.size())];
}
std::string show(const FourVector &v) {
  return pbt::Fmt() << "(" << v.x0() << "; " << v.x1() << ", " << v.x2()
                    << ", " << v.x3() << ")";
}
std::string show(const ThreeVector &v) {
  return pbt::Fmt() << "(" << v.x1() << ", " << v.x2() << ", " << v.x3()
                    << ")";
}
std::string show(const ParticleData &p) {
  return pbt::Fmt() << p.type().name() << " id=" << p.id() << " x="
                    << show(p.position()) << " p=" << show(p.momentum());
}
}  // namespace kit
