// Helpers shared by the harnesses: set-up of the default tables, and
// generators for particles, momenta and positions.
#ifndef VERIF_SMASHKIT_H_
#define VERIF_SMASHKIT_H_

#include <string>
#include <vector>

#include "pbt.h"
#include "smash/fourvector.h"
#include "smash/particledata.h"
#include "smash/particletype.h"
#include "smash/threevector.h"

namespace kit {

// logging off
void quiet();
// default particle and decay tables (once per process)
void load_default();
// custom tables (once per process: SMASH does not support a reload)
void load(const std::string &particles, const std::string &decays);
// the default tables reduced to some multiplets (names as in particles.txt)
// and the stable pions, kaons and nucleons; decay modes into anything else
// are dropped, and resonances without any left too. `extra` tables are added.
void load_reduced(const std::vector<std::string> &names,
                  const std::string &extra_particles = "",
                  const std::string &extra_decays = "");
// names of all unstable multiplets of the default tables
std::vector<std::string> default_multiplets();
// seeds SMASH's random engine
void seed(int64_t s);

inline smash::ThreeVector direction(pbt::Case &c) {
  const double ct = c.real(-1., 1.), phi = c.real(0., 2 * M_PI);
  const double st = std::sqrt(std::max(0., 1. - ct * ct));
  return {st * std::cos(phi), st * std::sin(phi), ct};
}
// a velocity with |v| < 1, gamma up to about gmax
inline smash::ThreeVector velocity(pbt::Case &c, double gmax = 100.) {
  double v;
  switch (c.below(5)) {
    case 0:
      v = 0.;
      break;
    case 4:
      v = c.logreal(1e-7, 0.1);
      break;
    case 1: {
      const double g = c.logreal(1.0001, gmax);
      v = std::sqrt(1. - 1. / (g * g));
      break;
    }
    default:
      v = c.uniform(0., 0.95);
  }
  return direction(c) * v;
}
inline smash::ThreeVector momentum3(pbt::Case &c, double pmax = 5.) {
  const double p = c.below(4) == 0 ? 0. : c.below(3) == 0
                                            ? c.logreal(1e-6, pmax * 20)
                                            : c.uniform(0., pmax);
  return direction(c) * p;
}
inline smash::ThreeVector position3(pbt::Case &c, double l = 10.) {
  return {c.real(-l, l), c.real(-l, l), c.real(-l, l)};
}
std::vector<smash::ParticleTypePtr> hadrons();
// Unstable species whose width tables are filled (in this call). Tables of
// species that decay into two resonances are costly: in the quick tier, all
// others and `heavy` of these, chosen by the seed, are returned.
std::vector<smash::ParticleTypePtr> resonances(size_t heavy = 6);
smash::ParticleTypePtr species(pbt::Case &c);

std::string show(const smash::FourVector &v);
std::string show(const smash::ThreeVector &v);
std::string show(const smash::ParticleData &p);

}  // namespace kit

#endif
