// P07: the interaction grid shows every close pair exactly once.
#include <map>
#include <tuple>

#include "smash/grid.h"
#include "smash/particles.h"
#include "smashkit.h"

using namespace smash;

namespace {
using Key = std::tuple<int, int, int, int, int>;  // id, id, image shift

struct Visits {
  std::map<int, int> searched;  // how often a particle is in a search cell
  std::map<Key, int> pairs;     // pairs within cells and between them
  size_t cells = 0;
};

template <GridOptions O>
Visits walk(pbt::Case &c, const Grid<O> &g,
            const std::map<int, ParticleData> &orig,
            const std::array<double, 3> &len) {
  Visits v;
  auto shift_of = [&](const ParticleData &p) {
    std::array<int, 3> s;
    auto it = orig.find(p.id());
    PBT_CHECK(c, it != orig.end(), "unknown particle " << p.id());
    for (int k = 0; k < 3; k++) {
      const double d = p.position()[k + 1] - it->second.position()[k + 1];
      s[k] = len[k] > 0 && O == GridOptions::PeriodicBoundaries
                 ? static_cast<int>(std::lround(d / len[k]))
                 : 0;
      PBT_CLOSE(c, d, s[k] * len[k], 1e-9, 1e-9 * len[k],
                "a particle is shown at a position that is not an image");
    }
    PBT_CHECK(c, p.momentum() == it->second.momentum() &&
                     p.position().x0() == it->second.position().x0() &&
                     p.type() == it->second.type(),
              "a particle is changed by the grid");
    return s;
  };
  auto note = [&](const ParticleData &a, const ParticleData &b) {
    PBT_CHECK(c, a.id() != b.id(), "particle " << a.id() << " with itself");
    const auto sa = shift_of(a), sb = shift_of(b);
    int d[3];
    for (int k = 0; k < 3; k++) d[k] = sa[k] - sb[k];
    if (a.id() < b.id())
      v.pairs[{a.id(), b.id(), d[0], d[1], d[2]}]++;
    else
      v.pairs[{b.id(), a.id(), -d[0], -d[1], -d[2]}]++;
  };
  g.iterate_cells(
      [&](const ParticleList &l) {
        v.cells++;
        for (size_t i = 0; i < l.size(); i++) {
          const auto s = shift_of(l[i]);
          PBT_CHECK(c, s[0] == 0 && s[1] == 0 && s[2] == 0,
                    "search cell is translated");
          v.searched[l[i].id()]++;
          for (size_t j = i + 1; j < l.size(); j++) note(l[i], l[j]);
        }
      },
      [&](const ParticleList &a, const ParticleList &b) {
        for (const auto &p : a)
          for (const auto &q : b) note(p, q);
      });
  return v;
}

struct Setup {
  Particles ps;
  std::map<int, ParticleData> orig;
};

void fill(pbt::Case &c, Setup &s, const std::array<double, 3> &lo,
          const std::array<double, 3> &len, double cell, bool closed) {
  const ParticleType &pi = ParticleType::find(0x211);
  const size_t n = c.count(1, 60);
  const int mode = static_cast<int>(c.below(4));
  FourVector prev;
  for (size_t i = 0; i < n; i++) {
    ParticleData p(pi);
    double x[3];
    for (int k = 0; k < 3; k++) {
      double u = c.real(0., 1.);
      if (mode == 1) u = static_cast<double>(c.below(5)) / 4.;  // lattice-like
      x[k] = lo[k] + u * len[k];
      if (mode == 2 && i && c.flip())  // close to the previous one
        x[k] = prev[k + 1] + c.uniform(-1.2, 1.2) * cell;
      if (closed) {
        while (x[k] < lo[k]) x[k] += len[k];
        while (x[k] >= lo[k] + len[k]) x[k] -= len[k];
        if (x[k] < lo[k]) x[k] = lo[k];
      }
    }
    prev = FourVector(5., x[0], x[1], x[2]);
    p.set_4position(prev);
    p.set_4momentum(pi.mass(), kit::momentum3(c, 1.));
    p.set_formation_time(0.);
    if (c.below(5) == 0) {  // unformed
      p.set_slow_formation_times(c.uniform(0., 10.), c.uniform(5., 20.));
      p.set_cross_section_scaling_factor(c.below(3) ? 0. : 0.3);
    }
    const ParticleData &q = s.ps.insert(p);
    s.orig.insert({q.id(), q});
  }
}
}  // namespace

PBT_PROP(normal, 12000, 300000) {
  const double cell = c.logreal(0.2, 5.);
  std::array<double, 3> lo, len;
  for (int k = 0; k < 3; k++) {
    lo[k] = c.real(-20., 20.);
    len[k] = cell * (c.below(4) == 0 ? static_cast<double>(c.below(6))
                                     : c.real(0., 7.));
  }
  Setup s;
  fill(c, s, lo, len, cell, false);
  const auto limit = c.flip() ? CellNumberLimitation::None
                              : CellNumberLimitation::ParticleNumber;
  const bool unformed = c.flip();
  const auto strategy =
      c.below(8) == 1 ? CellSizeStrategy::Largest : CellSizeStrategy::Optimal;
  const double dt = c.real(0., 3.);
  c.note() << s.orig.size() << " particles, cell " << cell << ", lengths "
           << len[0] << " " << len[1] << " " << len[2];
  const Grid<GridOptions::Normal> g(s.ps, cell, dt, limit, unformed, strategy);
  std::array<double, 3> mn{1e9, 1e9, 1e9}, mx{-1e9, -1e9, -1e9};
  for (const auto &e : s.orig)
    for (int k = 0; k < 3; k++) {
      mn[k] = std::min(mn[k], e.second.position()[k + 1]);
      mx[k] = std::max(mx[k], e.second.position()[k + 1]);
    }
  const Visits v = walk(c, g, s.orig, {0, 0, 0});
  for (const auto &e : s.orig) {
    const bool in = unformed || e.second.xsec_scaling_factor(dt) > 0.;
    auto it = v.searched.find(e.first);
    const int n = it == v.searched.end() ? 0 : it->second;
    if (strategy == CellSizeStrategy::Largest && !in) continue;
    PBT_CHECK(c, n == (in ? 1 : 0),
              "particle " << e.first << " is in " << n << " search cells"
                          << (in ? "" : " though it cannot interact"));
  }
  for (const auto &e : v.pairs)
    PBT_CHECK(c, e.second == 1, "pair " << std::get<0>(e.first) << ","
                                        << std::get<1>(e.first) << " shown "
                                        << e.second << " times");
  int close = 0;
  for (auto a = s.orig.begin(); a != s.orig.end(); ++a)
    for (auto b = std::next(a); b != s.orig.end(); ++b) {
      if (!unformed && (a->second.xsec_scaling_factor(dt) <= 0. ||
                        b->second.xsec_scaling_factor(dt) <= 0.))
        continue;
      bool near = true;
      for (int k = 1; k < 4; k++)
        near &= std::abs(a->second.position()[k] - b->second.position()[k]) <
                cell * (1 - 1e-9);
      close += near;
      if (near || strategy == CellSizeStrategy::Largest)
        PBT_CHECK(c, (v.pairs.count({a->first, b->first, 0, 0, 0}) == 1),
                  "the close pair " << a->first << "," << b->first
                                    << " is never shown: "
                                    << kit::show(a->second.position()) << " "
                                    << kit::show(b->second.position()));
    }
  const double vol = (mx[0] - mn[0]) * (mx[1] - mn[1]) * (mx[2] - mn[2]);
  PBT_CLOSE(c, g.cell_volume() * static_cast<double>(v.cells), vol, 1e-9, 1e-12,
            "cells times cell volume");
  if (limit == CellNumberLimitation::ParticleNumber)
    PBT_CHECK(c, v.cells <= std::max<size_t>(1, s.orig.size()),
              v.cells << " cells for " << s.orig.size() << " particles");
  c.label("several cells", v.cells > 1);
  c.label("one cell thick", v.cells > 8 && (len[0] < cell || len[1] < cell ||
                                            len[2] < cell));
  c.nontrivial(v.cells > 1 && close > 0);
}

PBT_PROP(periodic, 12000, 300000) {
  const double cell = c.logreal(0.2, 5.);
  std::array<double, 3> lo{0, 0, 0}, len;
  for (int k = 0; k < 3; k++) {
    if (c.below(8) == 1) lo[k] = c.real(-5., 5.);
    len[k] = cell * (c.below(4) == 0 ? static_cast<double>(2 + c.below(5))
                                     : c.real(2., 6.));
    if (c.below(40) == 1) len[k] = cell * c.real(0.5, 1.99);
  }
  const auto strategy =
      c.below(8) == 1 ? CellSizeStrategy::Largest : CellSizeStrategy::Optimal;
  Setup s;
  fill(c, s, lo, len, cell, true);
  const auto limit = c.flip() ? CellNumberLimitation::None
                              : CellNumberLimitation::ParticleNumber;
  const bool unformed = c.flip();
  const double dt = c.real(0., 3.);
  c.note() << s.orig.size() << " particles, cell " << cell << ", lengths "
           << len[0] << " " << len[1] << " " << len[2];
  bool too_small = false, threw = false, edge = false;
  for (int k = 0; k < 3; k++) {
    if (strategy == CellSizeStrategy::Optimal && len[k] < 2 * cell)
      too_small = true;
    if (std::abs(len[k] - 2 * cell) < 1e-9 * cell) edge = true;
  }
  std::unique_ptr<Grid<GridOptions::PeriodicBoundaries>> gp;
  try {
    gp.reset(new Grid<GridOptions::PeriodicBoundaries>(
        std::make_pair(lo, len), s.ps, cell, dt, limit, unformed, strategy));
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.label("box too small", too_small);
  if (edge && threw) return;
  PBT_CHECK(c, threw == (too_small && !edge) || edge,
            "a box of less than two cells must be refused, others accepted");
  if (threw) return;
  const auto &g = *gp;
  const Visits v = walk(c, g, s.orig, len);
  for (const auto &e : s.orig) {
    const bool in = unformed || e.second.xsec_scaling_factor(dt) > 0.;
    auto it = v.searched.find(e.first);
    const int n = it == v.searched.end() ? 0 : it->second;
    PBT_CHECK(c, n == (in ? 1 : 0),
              "particle " << e.first << " is in " << n << " search cells");
  }
  for (const auto &e : v.pairs)
    PBT_CHECK(c, e.second == 1,
              "pair " << std::get<0>(e.first) << "," << std::get<1>(e.first)
                      << " shown " << e.second << " times for the same image");
  int close = 0, across = 0;
  for (auto a = s.orig.begin(); a != s.orig.end(); ++a)
    for (auto b = std::next(a); b != s.orig.end(); ++b) {
      if (!unformed && (a->second.xsec_scaling_factor(dt) <= 0. ||
                        b->second.xsec_scaling_factor(dt) <= 0.))
        continue;
      // the nearest image along every axis
      int sh[3];
      bool near = true;
      for (int k = 0; k < 3; k++) {
        const double d =
            a->second.position()[k + 1] - b->second.position()[k + 1];
        const double reach = std::min(cell, len[k] / 2) * (1 - 1e-9);
        sh[k] = d > len[k] / 2 ? -1 : d < -len[k] / 2 ? 1 : 0;
        near &= std::abs(d + sh[k] * len[k]) < reach;
      }
      close += near;
      if (near) {
        across += sh[0] || sh[1] || sh[2];
        PBT_CHECK(c,
                  (v.pairs.count({a->first, b->first, sh[0], sh[1], sh[2]}) ==
                   1),
                  "the close pair " << a->first << "," << b->first
                                    << " is never shown: "
                                    << kit::show(a->second.position()) << " "
                                    << kit::show(b->second.position()));
      }
    }
  PBT_CLOSE(c, g.cell_volume() * static_cast<double>(v.cells),
            len[0] * len[1] * len[2], 1e-9, 0, "cells times cell volume");
  c.label("pair across the boundary", across > 0);
  c.label("more than 8 cells", v.cells > 8);
  c.nontrivial(close > 0);
}

PBT_PROP(overflow, 200, 2000) {
  // systems too large for an integer number of cells are refused
  Setup s;
  const double cell = c.logreal(1e-3, 1.);
  const double far = cell * 2147483647. * c.uniform(1.01, 100.);
  const ParticleType &pi = ParticleType::find(0x211);
  const int axis = static_cast<int>(c.below(3));
  for (int i = 0; i < 2; i++) {
    ParticleData p(pi);
    FourVector x(0., 1., 2., 3.);
    x[axis + 1] = i * far;
    p.set_4position(x);
    p.set_4momentum(pi.mass(), 0., 0., 0.1);
    s.ps.insert(p);
  }
  c.note() << "extent " << far / cell << " cells along axis " << axis;
  c.nontrivial();
  bool threw = false;
  try {
    Grid<GridOptions::Normal> g(s.ps, cell, 0.1, CellNumberLimitation::None);
  } catch (const std::overflow_error &) {
    threw = true;
  }
  PBT_CHECK(c, threw, "an overflowing grid must be refused");
}

void pbt::setup() {
  kit::quiet();
  kit::load("π 0.138 7.7e-9 - 111 211\n", "");
}
void pbt::reset_case(uint64_t) {}
PBT_MAIN
