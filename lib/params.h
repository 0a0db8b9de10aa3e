// Experiment parameters for harnesses, every field adjustable.
#ifndef VERIF_PARAMS_H_
#define VERIF_PARAMS_H_

#include <memory>
#include <optional>
#include <string>

#include "smash/clock.h"
#include "smash/configuration.h"
#include "smash/forwarddeclarations.h"
#include "smash/input_keys.h"
#include "smash/experimentparameters.h"

namespace kit {

inline smash::Configuration config(const std::string &yaml) {
  return smash::Configuration(yaml.c_str(),
                              smash::Configuration::InitializeFromYAMLString);
}

struct Params {
  double t0 = 0., dt = 0.1, t1 = 300.;
  int ensembles = 1, testparticles = 1;
  smash::DerivativesMode derivatives =
      smash::DerivativesMode::CovariantGaussian;
  smash::RestFrameDensityDerivativesMode rfdd =
      smash::RestFrameDensityDerivativesMode::Off;
  smash::FieldDerivativesMode field = smash::FieldDerivativesMode::ChainRule;
  smash::SmearingMode smearing = smash::SmearingMode::CovariantGaussian;
  double sigma = 1., cutoff = 4., discrete = 1. / 3., triangular = 2.;
  smash::CollisionCriterion criterion = smash::CollisionCriterion::Geometric;
  bool two_to_one = true;
  smash::ReactionsBitSet two_to_two = smash::ReactionsBitSet().set();
  smash::MultiParticleReactionsBitSet multi =
      smash::MultiParticleReactionsBitSet().reset();
  bool strings = false;
  double lifetime = 1.;
  smash::NNbarTreatment nnbar = smash::NNbarTreatment::NoAnnihilation;
  double low_snn = 0.;
  bool thresholds = false;
  double box = -1., max_xs = 200., cell = 2.5, scale_xs = 1.;
  bool participants = false, weak = false, initial_decays = true;
  smash::SpinInteractionType spin = smash::SpinInteractionType::Off;

  smash::ExperimentParameters make() const {
    return smash::ExperimentParameters{
        std::make_unique<smash::UniformClock>(t0, dt, t1),
        std::make_unique<smash::UniformClock>(t0, 1., t1),
        ensembles,
        testparticles,
        derivatives,
        rfdd,
        field,
        smearing,
        sigma,
        cutoff,
        discrete,
        triangular,
        criterion,
        two_to_one,
        two_to_two,
        multi,
        strings,
        lifetime,
        nnbar,
        low_snn,
        thresholds,
        box,
        max_xs,
        cell,
        scale_xs,
        participants,
        weak,
        initial_decays,
        spin,
        std::nullopt};
  }
};

}  // namespace kit

#endif
