// A configured ScatterActionsFinder and its parameters.
#ifndef VERIF_COLLIDE_H_
#define VERIF_COLLIDE_H_

#include <iomanip>
#include <memory>
#include <string>

#include "params.h"
#include "pbt.h"
#include "smash/scatteractionsfinder.h"

namespace kit {

struct Setting {
  kit::Params p;
  double elastic = -1.;
  bool isotropic = false, within = false, warn = true;
  std::string more, strategy = "BottomUp";
  std::string yaml() const {
    return pbt::Fmt()
           << std::setprecision(17)
           << "Collision_Term: {Only_Warn_For_High_Probability: "
           << (warn ? "true" : "false")
           << ", Pseudoresonance: None, Isotropic: "
           << (isotropic ? "true" : "false")
           << (more.find("Total_Cross_Section_Strategy") == more.npos
                   ? ", Total_Cross_Section_Strategy: BottomUp"
                   : "")
           << ", Elastic_Cross_Section: " << elastic << more
           << "}\nModi: {Collider: {Collisions_Within_Nucleus: "
           << (within ? "true" : "false") << "}}";
  }
  std::unique_ptr<smash::ScatterActionsFinder> finder() const {
    auto cfg = kit::config(yaml());
    std::unique_ptr<smash::ScatterActionsFinder> f;
    try {
      f = std::make_unique<smash::ScatterActionsFinder>(cfg, p.make());
    } catch (...) {
      cfg.clear();
      throw;
    }
    cfg.clear();
    return f;
  }
  smash::ScatterActionsFinderParameters parameters() const {
    auto cfg = kit::config(yaml());
    smash::ScatterActionsFinderParameters r(cfg, p.make());
    cfg.clear();
    return r;
  }
};

}  // namespace kit

#endif
