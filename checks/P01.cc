// P01: the particle list behaves like a map from handles to particles.
#include <map>

#include "smash/particles.h"
#include "smashkit.h"

using namespace smash;

namespace {
std::vector<ParticleTypePtr> types;

struct Model {
  // what a live particle must look like
  struct Entry {
    ParticleData copy;  // the handle and expected contents
  };
  std::map<int, Entry> live;  // by unique id
  int next_id = 0;
  std::vector<ParticleData> dead;  // handles that must be invalid
};

ParticleData random_particle(pbt::Case &c) {
  ParticleData p(*c.pick(types));
  p.set_4momentum(FourVector(c.real(1., 5.), kit::position3(c, 1.)));
  p.set_4position(FourVector(c.real(0., 50.), kit::position3(c, 20.)));
  p.set_formation_time(c.real(0., 10.));
  p.set_cross_section_scaling_factor(c.real(0., 1.));
  p.set_perturbative_weight(c.real(0., 2.));
  if (c.flip()) p.fluidize();
  p.set_belongs_to(c.flip() ? BelongsTo::Projectile : BelongsTo::Nothing);
  HistoryData h;
  h.collisions_per_particle = static_cast<int>(c.below(20));
  h.id_process = static_cast<int>(c.below(1000));
  h.process_type = c.flip() ? ProcessType::Decay : ProcessType::Elastic;
  h.time_last_collision = c.real(0., 10.);
  h.p1 = p.pdgcode();
  p.set_history(std::move(h));
  p.set_spin_vector(FourVector(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1),
                               c.real(-1, 1)));
  return p;
}

void same(pbt::Case &c, const ParticleData &a, const ParticleData &b,
          const char *where) {
  PBT_CHECK(c, a.id() == b.id(), where << ": id " << a.id() << " vs " << b.id());
  PBT_CHECK(c, a.type() == b.type(), where << ": species of " << a.id());
  PBT_CHECK(c, a.momentum() == b.momentum(), where << ": momentum " << a.id());
  PBT_CHECK(c, a.position() == b.position(), where << ": position " << a.id());
  auto eq = [](double x, double y) {
    return x == y || (std::isnan(x) && std::isnan(y));
  };
  PBT_CHECK(c, eq(a.formation_time(), b.formation_time()), where << ": t_form");
  PBT_CHECK(c, eq(a.begin_formation_time(), b.begin_formation_time()),
            where << ": begin t_form");
  PBT_CHECK(c,
            eq(a.initial_xsec_scaling_factor(), b.initial_xsec_scaling_factor()),
            where << ": xsec factor");
  PBT_CHECK(c, a.is_core() == b.is_core(), where << ": core flag");
  PBT_CHECK(c, a.belongs_to() == b.belongs_to(), where << ": belongs_to");
  PBT_CHECK(c, eq(a.perturbative_weight(), b.perturbative_weight()),
            where << ": weight");
  const auto ha = a.get_history(), hb = b.get_history();
  PBT_CHECK(c,
            ha.collisions_per_particle == hb.collisions_per_particle &&
                ha.id_process == hb.id_process &&
                ha.process_type == hb.process_type &&
                eq(ha.time_last_collision, hb.time_last_collision) &&
                ha.p1 == hb.p1 && ha.p2 == hb.p2,
            where << ": history of " << a.id());
  for (int i = 0; i < 4; i++)
    PBT_CHECK(c, eq(a.spin_vector()[i], b.spin_vector()[i]),
              where << ": spin vector of " << a.id());
}

void check_all(pbt::Case &c, Particles &ps, const Model &m) {
  PBT_CHECK(c, ps.size() == m.live.size(),
            "size " << ps.size() << " expected " << m.live.size());
  PBT_CHECK(c, ps.is_empty() == m.live.empty(),
            "is_empty " << ps.is_empty() << " with " << m.live.size()
                        << " particles");
  const auto copy = ps.copy_to_vector();
  PBT_CHECK(c, copy.size() == m.live.size(), "copy_to_vector size");
  if (!m.live.empty()) {
    std::set<int> seen;
    const ParticleData *last = nullptr;
    size_t i = 0;
    for (const auto &p : static_cast<const Particles &>(ps)) {
      PBT_CHECK(c, seen.insert(p.id()).second, "id seen twice: " << p.id());
      auto it = m.live.find(p.id());
      PBT_CHECK(c, it != m.live.end(), "iteration met dead id " << p.id());
      same(c, p, it->second.copy, "iteration");
      same(c, copy.at(i), it->second.copy, "copy_to_vector");
      last = &p;
      ++i;
      PBT_CHECK(c, i <= m.live.size(), "iteration does not end");
    }
    PBT_CHECK(c, seen.size() == m.live.size(), "iteration missed particles");
    PBT_CHECK(c, &ps.back() == last, "back() is not the last one");
    PBT_CHECK(c, ps.front().id() == copy.front().id(), "front()");
    PBT_CHECK(c, ps.time() == ps.front().position().x0(), "time()");
    // backwards
    auto it = ps.end();
    size_t n = 0;
    do {
      --it;
      ++n;
      PBT_CHECK(c, seen.erase(it->id()) == 1, "reverse iteration");
    } while (it != ps.begin());
    PBT_CHECK(c, n == m.live.size(), "reverse iteration count");
    for (const auto &e : m.live) {
      PBT_CHECK(c, ps.is_valid(e.second.copy), "handle of a live particle");
      same(c, ps.lookup(e.second.copy), e.second.copy, "lookup");
    }
  }
  for (const auto &d : m.dead)
    PBT_CHECK(c, !ps.is_valid(d), "handle of removed particle id "
                                      << d.id() << " is still valid");
}
}  // namespace

PBT_PROP(history, 100000, 2000000) {
  Particles ps;
  Model m;
  const size_t steps = c.count(1, c.below(10) == 0 ? 120 : 40);
  int removals = 0, inserts_after_removal = 0, grow = 0;
  bool kept_holes = false;
  auto pick_live = [&]() -> std::map<int, Model::Entry>::iterator {
    auto it = m.live.begin();
    std::advance(it, c.below(m.live.size()));
    return it;
  };
  auto kill = [&](std::map<int, Model::Entry>::iterator it) {
    m.dead.push_back(it->second.copy);
    if (m.dead.size() > 60) m.dead.erase(m.dead.begin());
    m.live.erase(it);
  };
  auto born = [&](const ParticleData &stored, const ParticleData *expected) {
    PBT_CHECK(c, stored.id() == m.next_id,
              "new particle has id " << stored.id() << ", expected "
                                     << m.next_id);
    m.next_id++;
    if (expected) {
      ParticleData e = *expected;
      e.set_id(stored.id());
      same(c, stored, e, "stored copy");
    }
    m.live.insert({stored.id(), {stored}});
    if (removals) inserts_after_removal++;
  };
  for (size_t s = 0; s < steps; s++) {
    switch (c.below(12)) {
      case 0:
      case 1: {
        const ParticleData p = random_particle(c);
        c.note() << "insert " << p.type().name() << "; ";
        born(ps.insert(p), &p);
        break;
      }
      case 2: {
        const ParticleType &t = *c.pick(types);
        const size_t n = c.below(6) == 0 ? c.count(1, 260) : c.count(1, 6);
        c.note() << "create " << n << " " << t.name() << "; ";
        std::set<int> before;
        for (const auto &e : m.live) before.insert(e.first);
        ps.create(n, t.pdgcode());
        if (n > 90) grow++;
        std::map<int, const ParticleData *> nw;
        for (const auto &p : static_cast<const Particles &>(ps))
          if (!before.count(p.id())) nw[p.id()] = &p;
        PBT_CHECK(c, nw.size() == n, "created " << nw.size());
        for (auto &q : nw) {
          const ParticleData blank(t);
          born(*q.second, &blank);
        }
        break;
      }
      case 3: {
        const ParticleType &t = *c.pick(types);
        c.note() << "create1 " << t.name() << "; ";
        const ParticleData blank(t);
        born(ps.create(t.pdgcode()), &blank);
        break;
      }
      case 4:
      case 5:
      case 6: {
        if (m.live.empty()) break;
        if (c.below(5) == 0) {  // a whole batch, oldest or newest first
          const size_t n = c.below(m.live.size()) + 1;
          const bool oldest = c.flip();
          c.note() << "remove " << (oldest ? "oldest " : "newest ") << n
                   << "; ";
          for (size_t i = 0; i < n; i++) {
            auto it = oldest ? m.live.begin() : std::prev(m.live.end());
            if (it->first != ps.back().id()) kept_holes = true;
            ps.remove(it->second.copy);
            kill(it);
            removals++;
          }
          break;
        }
        auto it = pick_live();
        c.note() << "remove " << it->first << "; ";
        if (it->first != ps.back().id()) kept_holes = true;
        ps.remove(it->second.copy);
        kill(it);
        removals++;
        break;
      }
      case 7:
      case 8: {  // replace k by l, as an action does
        const size_t k = std::min(m.live.size(), c.count(0, 4));
        const size_t l = c.count(0, 4);
        ParticleList out, in;
        std::set<int> chosen;
        for (size_t i = 0; i < k; i++) {
          auto it = pick_live();
          if (!chosen.insert(it->first).second) continue;
          out.push_back(it->second.copy);
        }
        for (size_t i = 0; i < l; i++) in.push_back(random_particle(c));
        c.note() << "replace";
        for (auto &p : out) c.note() << " " << p.id();
        c.note() << " by " << l << "; ";
        const ParticleList expected = in;
        ps.replace(out, in);
        for (auto &p : out) {
          kill(m.live.find(p.id()));
          removals++;
        }
        PBT_CHECK(c, in.size() == expected.size(), "replace changed the list");
        for (size_t i = 0; i < in.size(); i++) {
          PBT_CHECK(c, ps.is_valid(in[i]),
                    "replace returned an invalid handle for new particle " << i);
          born(ps.lookup(in[i]), &expected[i]);
        }
        break;
      }
      case 9: {
        if (m.live.empty()) break;
        auto it = pick_live();
        ParticleData ns = random_particle(c);
        // an update keeps the species
        ParticleData st(it->second.copy.type());
        st.set_4momentum(ns.momentum());
        st.set_4position(ns.position());
        st.set_formation_time(ns.formation_time());
        st.set_cross_section_scaling_factor(ns.initial_xsec_scaling_factor());
        auto h = ns.get_history();
        st.set_history(std::move(h));
        c.note() << "update " << it->first << "; ";
        const ParticleData old = it->second.copy;
        const ParticleData &stored = ps.update_particle(old, st);
        ParticleData e = st;
        e.set_id(old.id());
        same(c, stored, e, "updated particle");
        if (old.id_process() != stored.id_process()) {
          PBT_CHECK(c, !ps.is_valid(old), "stale handle valid after update");
        }
        it->second.copy = stored;
        break;
      }
      case 10: {
        if (c.below(4) != 0) break;
        c.note() << "reset; ";
        ps.reset();
        m.live.clear();
        m.dead.clear();
        m.next_id = 0;
        break;
      }
      case 11: {  // in-place modification through iteration
        if (m.live.empty()) break;
        const double dt = c.real(0., 1.);
        for (auto &p : ps) {
          p.set_4position(p.position() + FourVector(dt, 1., 2., 3.));
          auto &e = m.live.at(p.id());
          e.copy.set_4position(e.copy.position() + FourVector(dt, 1., 2., 3.));
        }
        c.note() << "move all; ";
        break;
      }
    }
    check_all(c, ps, m);
  }
  c.label("removal", removals > 0);
  c.label("hole-kept", kept_holes);
  c.label("insert-after-removal", inserts_after_removal > 0);
  c.label("capacity-growth", grow > 0);
  c.nontrivial(removals > 0 && inserts_after_removal > 0);
}

void pbt::setup() {
  kit::quiet();
  kit::load("π 0.138 7.7e-9 - 111 211\nN 0.938 0 + 2112 2212\n"
            "σ 0.8 0.4 + 9000221\nρ 0.776 0.149 - 113 213\n",
            "σ\n1.0 0 π π\n\nρ\n1.0 1 π π\n");
  for (const ParticleType &t : ParticleType::list_all()) types.push_back(&t);
}
void pbt::reset_case(uint64_t) { kit::seed(42); }
PBT_MAIN
